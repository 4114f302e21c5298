from check import prop, sims

FEATS = {"group", "box", "foot", "picture", "alg", "overlay", "again", "comment", "page", "pdf", "math", "tab"}
ALL = dict(Features=FEATS, FocusSize=6, MaxDepth=6, Sample=True, Emit=True)
CORE = dict(ALL, Features={"picture"}, FocusSize=0, MaxDepth=2, Sample=False)
INV = ["ReadsWhatWasMeant", "SameNesting", "ReadsAgain", "Numbered"]


@prop("C17")
def floats(c):
    cases = c.generate(
        [dict(module="Float", consts=dict(CORE, Targets={c.n(3, 4)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Float/bfs", cap=c.n(1500, 30000))] +
        sims("Float", dict(ALL, Targets={8, 20, 45}), c.n(4000, 60000), 150, 4, invariants=INV, timeout=850))
    c.replay("d_float", "check_float", cases)
