from check import prop, sims

INLINE, BLOCKS, ENVS = set(range(1, 15)) | {19, 26, 27}, {15, 16, 17, 18, 28, 29, 30}, {20, 21, 22, 23, 31}
ALL = dict(Inline=INLINE, Blocks=BLOCKS, Envs=ENVS, MaxGap=3, MaxDepth=4, Sample=True, Emit=True)
CORE = dict(ALL, MaxDepth=1, Sample=False, Targets={1})
PAIR = dict(CORE, Inline={2, 3}, Blocks=set(), Envs=set(), MaxGap=1, Targets={2})
INV = ["Good", "Meant", "Alike"]


@prop("C21")
def spacing(c):
    bfs = dict(module="Spacing", invariants=INV, workers=4, heap="4g", timeout=850)
    cases = c.generate(
        [dict(bfs, consts=dict(CORE, MaxGap=1), label="Spacing/bfs", cap=c.n(2500, 30000)),
         dict(bfs, consts=PAIR, label="Spacing/pairs", cap=c.n(1000, 10000))] +
        sims("Spacing", dict(ALL, Targets={3, 8, 15}), c.n(4000, 60000), 400, 4, invariants=INV, timeout=850))
    c.replay("d_spacing", "check_spacing", cases)
