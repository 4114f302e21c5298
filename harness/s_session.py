import json
from check import prop, sims
import s_tables, s_prose

PLAIN = {"macro", "args", "provide", "math", "env", "thm", "alias", "box", "float", "key", "let", "color"}
FILES = {"sty", "input", "bib"}
ALL = dict(Readers={1, 2}, Docs=5, Steps=6, Slots={1, 2, 3}, Routes={"file", "folder", "zip", "tar", "parser", "fresh"}, Features=PLAIN | FILES,
           Once={"provide"}, Declared=FILES | {"thm", "float"}, Kinds={"section", "figure"}, Libs=set(), Failures={"missing", "nomain", "corrupt", "nozip"},
           Faults={30, 300, 1500}, Overlap=False, Focus=2, MaxBad=1, Emit=True)
CORE = dict(ALL, Focus=0, Docs=2, Steps=1, Slots={1}, Routes={"file"}, Failures=set(), Faults={300}, Kinds={"section"})
INV = ["Isolated", "NoForeign"]


@prop("C12")
def sessions(c):
    import d_session
    gen = lambda n: (sims("Tables", dict(s_tables.ALL, Targets={20, 40}), n, 400, 1) +
                     sims("Prose", dict(s_prose.BASE, Containers=s_prose.CONT | s_prose.BOXES, Styles=s_prose.STY, Switches=s_prose.SW, Atoms=s_prose.ATOMS | s_prose.WORDS,
                                        Whites=s_prose.WH, Silent={"inline"}, Targets={16, 30}, MaxDepth=4, BoxNames={"ba", "bb"}), n, 200, 1))
    from core import run_all
    per = c.n(25, 150)
    import s_outline, s_anchors, s_macro, s_cond, s_lexer
    mods = ["d_tables", "d_prose"]
    rs = run_all(gen(per))
    libs = d_session.library([(m, r.emitted) for m, r in zip(mods, rs)], per)
    seeds = [1, 77, 4242] if c.quick else [1, 2, 3, 77, 4242]
    outs = d_session.references(libs, seeds)
    for i, l in enumerate(libs):
        if any(o[i] != outs[0][i] for o in outs):
            c.rep.fail("d_session.check_session", dict(lib=l, outs=[o[i] for o in outs][:2]), ["the output depends on the hash seed: %s" % (l.get("path") or l["text"])[:800]])
        l["out"] = json.loads(outs[0][i])
    libs = [l for l in libs if "error" not in l["out"]]
    c.rep.replayed(len(libs) * len(seeds))
    nl = len(libs)
    cases = c.generate(
        [dict(module="Session", consts=CORE, invariants=INV, workers=4, heap="4g", timeout=850, label="Session/bfs", cap=c.n(2500, 20000))] +
        sims("Session", dict(ALL), c.n(1500, 20000), 200, 2, invariants=INV, timeout=850) +
        sims("Session", dict(ALL, Overlap=True, Routes={"file", "parser", "folder", "fresh"}, Docs=4, Faults={300}), c.n(900, 12000), 200, 2, invariants=INV, timeout=850) +
        sims("Session", dict(ALL, Libs=set(range(1, nl + 1)), Docs=4, Steps=3, Routes={"file", "zip"}), c.n(200, 3000), 200, 1, invariants=INV, timeout=850))
    for k in cases:
        if any(e["k"] == "lib" for e in k["hist"]):
            used = sorted({e["v"] for e in k["hist"] if e["k"] == "lib"})
            k["libs"] = [libs[i - 1] if i in used else {} for i in range(1, nl + 1)]
            for e in k["hist"]:         # keep the case self-contained but small
                if e["k"] == "lib":
                    e["v"] = used.index(e["v"]) + 1
            for d in k["done"]:
                for o in d["outs"]:
                    if o["k"] == "lib":
                        o["v"] = used.index(o["v"]) + 1
            k["libs"] = [x for x in k["libs"] if x]
    c.replay("d_session", "check_session", cases)
