from check import prop, sims

FEATS = {"input", "class", "thm", "begin", "col", "mac", "cond", "end", "noise", "before", "old"}
ALL = dict(Styles={"pa", "pb", "pc"}, Classes={"ca", "cb"}, Inputs={"ia", "ib"}, Names={"x", "y"}, Uses=10, PreMax=6,
           Features=FEATS, FocusSize=7, Sample=True, Emit=True)
CORE = dict(ALL, Styles={"pa", "pb"}, Classes={"ca"}, Inputs={"ia"}, Names={"x"}, Uses=1, PreMax=2, Features={"thm", "end", "input"}, FocusSize=0, Sample=False)
INV = ["SameReading", "Once", "Shallow"]


@prop("C24")
def packages(c):
    cases = c.generate(
        [dict(module="Packages", consts=dict(CORE, Targets={c.n(2, 3)}), invariants=INV, workers=4, heap="6g", timeout=850,
              label="Packages/bfs", cap=c.n(1500, 20000))] +
        sims("Packages", dict(ALL, Targets={6, 12, 20}), c.n(4000, 40000), 120, 4, invariants=INV, timeout=850))
    c.replay("d_packages", "check_packages", cases)
