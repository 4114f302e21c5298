from check import prop, sims

FEATS = {"sign", "box", "adjoin", "op", "esc", "prime", "func", "space", "mac", "refs", "label", "group", "text", "array", "left", "comment"}
ALL = dict(Features=FEATS, FocusSize=6, MaxDepth=6, Sample=True, Emit=True)
CORE = dict(ALL, Features={"text"}, FocusSize=0, MaxDepth=3, Sample=False)
INV = ["ReadsWhatWasMeant", "SameNesting", "ReadsAgain"]


@prop("C16")
def formula(c):
    cases = c.generate(
        [dict(module="Formula", consts=dict(CORE, Targets={c.n(5, 7)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Formula/bfs", cap=c.n(1500, 30000))] +
        sims("Formula", dict(ALL, Targets={8, 20, 45}), c.n(4000, 60000), 150, 4, invariants=INV, timeout=850))
    c.replay("d_formula", "check_formula", cases)
