from check import prop, sims

KINDS = set(range(1, 14))
LEAVES = {"w", "math", "break", "make", "pct"}
ALL = dict(Kinds=KINDS, Leaves=LEAVES, FocusSize=7, MaxDepth=5, Sample=True, Emit=True)
CORE = dict(ALL, Kinds={2, 9, 10, 6}, Leaves={"w", "pct"}, FocusSize=0, MaxDepth=3, Sample=False)
INV = ["Kept", "Emphasised", "Separated", "Balanced", "Full"]


@prop("C19")
def front(c):
    cases = c.generate(
        [dict(module="Front", consts=dict(CORE, Targets={c.n(5, 6)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Front/bfs", cap=c.n(1500, 30000))] +
        sims("Front", dict(ALL, Targets={8, 20, 40}), c.n(4000, 60000), 150, 4, invariants=INV, timeout=850))
    c.replay("d_front", "check_front", cases)
