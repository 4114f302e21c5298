from check import prop, sims

MAINS, PLAINS = {"full", "bare"}, {"commented", "note"}
ALL = dict(Fmts={"zip", "tar", "folder"}, Dirs={1, 2, 3, 4}, Names={1, 2, 3, 4, 5, 6}, MaxDir=3, MainKinds=MAINS, PlainKinds=PLAINS,
           Evil={"up", "side", "abs", "link"}, Ops=4, Sample=True, Emit=True)
CORE = dict(ALL, Sample=False, Dirs={1, 2}, Names={1, 3}, MaxDir=1, MainKinds={"full"}, PlainKinds={"commented"}, Ops=2, Evil={"up", "link"},
            Fmts={"zip", "tar", "gz", "folder"})
INV = ["Extracted", "Complete", "OneMain", "NoLeak"]


@prop("C13")
def archives(c):
    cases = c.generate(
        [dict(module="Archive", consts=dict(CORE, Targets={1, c.n(1, 2)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Archive/bfs", cap=c.n(1500, 30000))] +
        sims("Archive", dict(ALL, Targets={2, 4, 7}), c.n(2400, 40000), 40, 4, invariants=INV, timeout=850) +
        sims("Archive", dict(ALL, Fmts={"gz"}, Targets={1}, Ops=3, MaxDir=0), c.n(300, 3000), 40, 1, invariants=INV, timeout=850))
    c.replay("d_archive", "check_archive", cases)
