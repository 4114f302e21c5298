from check import prop, sims

FEATS = {"macros", "names", "let", "cond", "loop", "math", "pair", "bold", "assign"}
ALL = dict(Names={1, 2, 3}, MaxDepth=3, Features=FEATS, FocusSize=5, Sample=True, Emit=True)
CORE = dict(ALL, Names={1}, MaxDepth=1, Features={"star", "stara", "plain", "names", "cond"}, FocusSize=0, Sample=False)
INV = ["AsMeant", "ReadsAsWritten", "Kept"]


@prop("C23")
def program(c):
    cases = c.generate(
        [dict(module="Program", consts=dict(CORE, Targets={c.n(3, 4)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Program/bfs", cap=c.n(1500, 30000))] +
        sims("Program", dict(ALL, Targets={8, 14, 24}), c.n(9000, 70000), 60, 4, invariants=INV, timeout=850))
    c.replay("d_program", "check_program", cases)
