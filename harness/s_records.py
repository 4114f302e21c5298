from check import prop, sims

FEATS = {"repeat", "bare", "skip", "verb", "people", "items", "prefix", "given", "nest", "cmd", "sw", "empty", "junk", "comment", ",", "=", "acc", "math", "esc", "dash", "delim"}
ALL = dict(Formats={"ams", "blx"}, Keys={1, 2, 3, 4}, Names={1, 2, 3, 4, 5}, Lists={1, 2, 3}, Features=FEATS, FocusSize=9, Sample=True, Emit=True)
CORE = dict(ALL, Formats={"ams"}, Keys={1}, Names={1}, Lists={1}, Features={"repeat", "nest", "cmd", "sw"}, Sample=False)
INV = ["ReadsWhatWasMeant", "Closed", "Balanced"]


@prop("C22")
def records(c):
    cases = c.generate(
        [dict(module="Records", consts=dict(CORE, Targets={c.n(11, 13)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Records/ams", cap=c.n(3000, 30000)),
         dict(module="Records", consts=dict(CORE, Formats={"blx"}, Features={"people", "items", "prefix", "given", "skip"}, Targets={c.n(11, 13)}), invariants=INV,
              workers=4, heap="4g", timeout=850, label="Records/blx", cap=c.n(3000, 30000))] +
        sims("Records", dict(ALL, Targets={15, 30, 60}), c.n(3000, 40000), 150, 4, invariants=INV, timeout=850))
    c.replay("d_records", "check_records", cases)
