from check import prop, sims

ALL = dict(Envs={"theorem", "lemma", "theoremstar", "proof", "thm", "rmk", "fact", "figure", "figurestar", "wrapfigure",
                 "subfigure", "table", "algorithm", "itemize", "enumerate", "description", "quote", "center",
                 "minipage", "begingroup", "mybox", "wrapq", "abstract"},
           Heads={"section", "subsection", "sectionstar", "paragraph"},
           Leaves={"ref", "cref", "hyperref", "cite", "url", "href", "doi"},
           Eqs={"equation", "equationstar", "align", "display"}, Boxes={"foot", "cap", "tab"}, Emit=True)
FLOATS = dict(ALL, Envs={"figure", "table", "subfigure", "center", "itemize", "minipage"}, Heads={"section"}, Leaves=set(),
              Eqs={"equation"})
LISTS = dict(ALL, Envs={"itemize", "enumerate", "description", "theorem", "quote", "mybox"}, Heads={"section"},
             Leaves=set(), Eqs={"equation"}, Boxes={"foot"})
THMS = dict(ALL, Envs={"theorem", "theoremstar", "thm", "rmk", "fact", "proof", "wrapq", "begingroup", "itemize"},
            Heads={"section"}, Leaves=set(), Eqs=set(), Boxes={"foot"})
REFS = dict(ALL, Envs={"itemize", "figure", "theorem"}, Heads={"section"}, Eqs=set(), Boxes={"foot", "cap"})
INV = ["OwnersRight", "Once", "InOrder", "Nested", "ItemsInLists", "Restored"]


def bfs(base, length, **over):
    return dict(module="Anchors", consts=dict(base, Targets={length}, MaxDepth=2, **over), invariants=INV,
                workers=4, heap="4g", label="Anchors/bfs%d" % length, timeout=850)


def sim(base, targets, depth, num, shards, inv=()):
    return sims("Anchors", dict(base, Targets=set(targets), MaxDepth=depth), num, 400, shards, timeout=850, invariants=inv)


SMALL = dict(ALL, Envs={"figure", "itemize"}, Heads={"section"}, Leaves=set(), Eqs=set(), Boxes={"foot", "cap"})


@prop("C08")
def environments(c):
    cases = c.generate([dict(bfs(dict(SMALL, Envs={"theorem", "itemize", "mybox"}, Boxes=set()), c.n(4, 5)), cap=c.n(2500, 30000))] +
                       sim(LISTS, {10, 20, 40}, 5, c.n(1500, 12000), 2) +
                       sim(THMS, {8, 15, 30}, 4, c.n(1200, 12000), 2) +
                       sim(FLOATS, {8, 16, 30}, 4, c.n(1000, 10000), 1) +
                       sim(ALL, {10, 25, 50}, 4, c.n(1800, 20000), 2, inv=INV))
    c.replay("d_anchors", "check_env", cases)


@prop("C09")
def anchors(c):
    cases = c.generate([dict(bfs(SMALL, c.n(5, 6)), cap=c.n(3000, 40000))] +
                       sim(FLOATS, {10, 20, 40}, 4, c.n(1500, 12000), 2) +
                       sim(LISTS, {10, 20}, 4, c.n(800, 10000), 1) +
                       sim(REFS, {8, 16, 30}, 2, c.n(1500, 12000), 2) +
                       sim(ALL, {10, 25, 50}, 4, c.n(1800, 20000), 2, inv=INV))
    c.replay("d_anchors", "check_labels", cases)
