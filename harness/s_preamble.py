from check import prop, sims

FEATS = {"wrap", "at", "pct", "cenv", "bgn"}
ALL = dict(Uses={1, 2, 3, 4}, Defs={1, 2, 3, 4, 5, 6}, Others={1, 2, 3, 4}, Features=FEATS, FocusSize=4, MaxDepth=4, Sample=True, Emit=True)
CORE = dict(ALL, Uses={1}, Defs={1}, Others={1}, Features={"at", "bgn", "wrap"}, FocusSize=0, MaxDepth=2, Sample=False)
INV = ["FindsAll", "InOrder", "Again"]


@prop("C20")
def preamble(c):
    cases = c.generate(
        [dict(module="Preamble", consts=dict(CORE, Targets={c.n(4, 6)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Preamble/bfs", cap=c.n(1500, 30000))] +
        sims("Preamble", dict(ALL, Targets={8, 16, 30}), c.n(4000, 60000), 100, 4, invariants=INV, timeout=850))
    c.replay("d_preamble", "check_preamble", cases)
