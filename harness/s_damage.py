from check import prop, sims

KINDS = set(range(1, 16)) | set(range(20, 34)) | {40}
EXTRAS = {"math", "esc", "verb", "hid"}
ALL = dict(Kinds=KINDS, FocusSize=6, MaxDepth=5, Extras=EXTRAS, Sample=True, Emit=True, Deep=False)
CORE = dict(ALL, Kinds={1, 2, 21, 26}, FocusSize=0, MaxDepth=3, Extras=set(), Sample=False)
INV = ["ReadsTheSame", "Nested", "AsMeant", "Kept", "Neutral", "Contained", "Steady"]


@prop("C18")
def damage(c):
    cases = c.generate(
        [dict(module="Damage", consts=dict(CORE, Targets={c.n(6, 8)}, MaxBad=2, Deep=True), invariants=INV, workers=4, heap="6g", timeout=850,
              label="Damage/bfs", cap=c.n(3000, 40000))] +
        sims("Damage", dict(ALL, Targets={8, 16, 40}, MaxBad=1), c.n(2500, 25000), 150, 2, invariants=INV, timeout=850) +
        sims("Damage", dict(ALL, Targets={8, 16, 40}, MaxBad=6), c.n(3500, 35000), 150, 3, invariants=INV, timeout=850))
    c.replay("d_damage", "check_damage", cases)
