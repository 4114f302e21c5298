from check import prop, sims

ALL = dict(SecCmds={"part", "chapter", "section", "subsection", "subsubsection", "subsubsubsection"},
           ParCmds={"paragraph", "subparagraph"},
           EnvKinds={"figure", "wrapfigure", "subfigure", "table", "subtable", "algorithm", "theorem", "lemma",
                     "definition", "remark", "proof", "claim", "itemize", "enumerate", "description", "center",
                     "quote", "abstract", "frontmatter"},
           EqEnvs={"equation", "align", "gather", "multline", "eqnarray"},
           Specials={"appendix", "appendices", "bib"}, Emit=True)
TREE = dict(ALL, EnvKinds={"figure", "theorem", "itemize", "center", "quote"}, EqEnvs={"equation"})
NUM = dict(ALL, SecCmds={"section", "subsection", "subsubsection", "part"}, ParCmds=set(),
           EnvKinds={"figure", "table", "algorithm", "theorem", "lemma", "center"}, EqEnvs={"equation"})
DEEP = dict(NUM, SecCmds={"section", "subsection", "subsubsection", "subsubsubsection"}, EnvKinds={"theorem"}, EqEnvs=set())
NEST = dict(NUM, SecCmds={"section", "part"}, EnvKinds={"theorem", "figure", "itemize", "enumerate", "center"})
PROOFS = dict(ALL, SecCmds={"section"}, ParCmds=set(), EnvKinds={"theorem", "lemma", "proof", "itemize"}, EqEnvs={"equation"})
INV = ["Hierarchy", "Nearest", "Conserved", "Unique", "Sequential", "StarsSilent", "DepthOk"]


def bfs(base, length, depth, emit, **over):
    return dict(module="Outline", consts=dict(base, Targets={length}, MaxDepth=depth, Emit=emit, **over),
                invariants=INV, workers=4, heap="4g", label="Outline/bfs%d" % length, timeout=850)


def sim(base, targets, depth, num, shards):
    return sims("Outline", dict(base, Targets=set(targets), MaxDepth=depth), num, 400, shards, timeout=850)


@prop("C01")
def outline(c):
    small = dict(ALL, SecCmds={"part", "section", "subsection"}, EnvKinds={"center"}, EqEnvs=set(),
                 Specials={"appendix", "bib", "appendices"})
    cases = c.generate([bfs(small, c.n(4, 5), 1, True)] +
                       sim(NEST, {12, 24}, 6, c.n(1000, 8000), 1) +
                       sim(TREE, {8, 14, 25, 45}, 3, c.n(2400, 20000), 3) +
                       sim(ALL, {8, 14, 25}, 3, c.n(2400, 20000), 3))
    c.replay("d_outline", "check_tree", cases)


@prop("C02")
def numbering(c):
    small = dict(ALL, SecCmds={"section", "subsection"}, ParCmds=set(), EnvKinds={"theorem", "figure"},
                 EqEnvs={"equation"}, Specials={"appendix"})
    cases = c.generate([bfs(small, c.n(4, 5), 1, True)] +
                       sim(DEEP, {10, 20, 30}, 1, c.n(1500, 10000), 2) +
                       sim(NEST, {12, 24}, 6, c.n(1500, 10000), 2) +
                       sim(PROOFS, {8, 16, 30}, 4, c.n(1500, 10000), 2) +
                       sim(NUM, {10, 30, 70}, 2, c.n(2400, 20000), 3) +
                       sim(ALL, {12, 25, 45}, 3, c.n(2400, 20000), 3))
    c.replay("d_outline", "check_num", cases)
