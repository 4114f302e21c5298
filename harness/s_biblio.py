from check import prop, sims

FEATS = {"paren", "string", "comment", "preamble", "quote", "bare", "hash", "nest", "special", "dupkey", "dupname", "cut", "junk", "files", "empty"}
ALL = dict(Keys={1, 2, 3, 4}, Names={1, 2, 3, 4}, Macs={1, 2}, Features=FEATS, FocusSize=6, Sample=True, Emit=True)
CORE = dict(ALL, Keys={1}, Names={1, 2}, Macs={1}, Features={"quote", "nest", "string", "hash", "empty"}, Sample=False)
INV = ["ReadsWhatWasMeant", "ReadsAgain", "Balanced"]

LFEATS = {"out", "mac", "prelude", "label", "bracket", "group", "block", "comment", "math", "url", "mail", "pct%", "acc", "href", "dash"}
LIST = dict(MaxLists=2, Features=LFEATS, FocusSize=6, Sample=True, Emit=True)
LCORE = dict(LIST, MaxLists=1, Features={"label", "bracket", "group", "comment"}, Sample=False)
LINV = ["ReadsWhatWasMeant", "ReadsAgain", "Closed"]


@prop("C15")
def biblio(c):
    cases = c.generate(
        [dict(module="Biblio", consts=dict(CORE, Targets={c.n(8, 10)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Biblio/bfs", cap=c.n(3000, 40000))] +
        sims("Biblio", dict(ALL, Targets={15, 30, 60}), c.n(2000, 40000), 150, 4, invariants=INV, timeout=850))
    c.replay("d_biblio", "check_biblio", cases)
    lists = c.generate(
        [dict(module="Bibitems", consts=dict(LCORE, Targets={c.n(6, 7)}), invariants=LINV, workers=4, heap="4g", timeout=850,
              label="Bibitems/bfs", cap=c.n(3000, 40000))] +
        sims("Bibitems", dict(LIST, Targets={12, 25, 50}), c.n(2000, 40000), 150, 4, invariants=LINV, timeout=850))
    c.replay("d_biblio", "check_list", lists)
