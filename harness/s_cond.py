from check import prop, sims

K = dict(Kinds={"iftrue", "iffalse", "switch", "compare", "ifcase", "ifthenelse", "iffile"},
         Boxes={"note", "bold", "center", "list", "quote", "theorem", "group"}, Emit=True)


@prop("C04")
def cond(c):
    small = dict(K, Kinds={"iftrue", "iffalse", "ifthenelse"}, Boxes={"group"}, Targets={c.n(5, 6)}, MaxDepth=2)
    cases = c.generate(
        [dict(module="Cond", consts=small, invariants=["Visible", "LastDef"], workers=4, heap="6g", label="Cond/bfs",
              timeout=850, cap=c.n(5000, 60000))] +
        sims("Cond", dict(K, Targets={6, 12, 24}, MaxDepth=4), c.n(4000, 30000), 200, 3, timeout=850) +
        sims("Cond", dict(K, Boxes={"center"}, Targets={10, 20}, MaxDepth=7), c.n(2000, 15000), 200, 2, timeout=850))
    c.replay("d_cond", "check", cases)
