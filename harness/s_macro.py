from check import prop, sims

TXT = dict(Names={"x", "xy", "f", "fg"}, Prims=set(), MaxArgs=2, MaxBody=3, MaxWords=30, Loops=False, Emit=True)
MTH = dict(TXT, Prims={"phi", "varphi"}, Names={"x", "f", "xy"})
INV = ["Acyclic", "Closed", "SizeOk"]


@prop("C03")
def macros(c):
    small = dict(TXT, Names={"x", "f"}, MaxArgs=1, MaxBody=c.n(1, 2), Targets={c.n(3, 2)})
    cases = c.generate(
        [dict(module="Macro", consts=small, invariants=INV, properties=["Stable"], workers=4, heap="6g",
              label="Macro/bfs", timeout=850, cap=c.n(6000, 60000))] +
        sims("Macro", dict(TXT, Targets={5, 9, 15}), c.n(3000, 24000), 200, 3, timeout=850) +
        sims("Macro", dict(MTH, Targets={6, 10, 16}), c.n(3000, 24000), 200, 3, timeout=850) +
        sims("Macro", dict(MTH, Targets={6, 10}, Loops=True), c.n(1000, 8000), 200, 1, timeout=850))
    c.replay("d_macro", "check", cases)
