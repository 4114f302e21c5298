from check import prop, sims

FEATS = {"sec", "mac", "env", "ctx", "ghost", "circ", "again", "dead"}
ALL = dict(MaxFiles=5, Macros={1, 2}, Features=FEATS, FocusSize=3, Sample=True, Emit=True)
CORE = dict(ALL, MaxFiles=2, Macros={1}, FocusSize=0, Sample=False)
INV = ["ReadsAsWritten", "InPlace", "WellFormed"]


@prop("C14")
def splice(c):
    cases = c.generate(
        [dict(module="Splice", consts=dict(CORE, Targets={c.n(3, 4)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Splice/bfs", cap=c.n(1500, 30000))] +
        sims("Splice", dict(ALL, Targets={8, 14, 24}), c.n(2000, 40000), 60, 4, invariants=INV, timeout=850))
    c.replay("d_splice", "check_splice", cases)
