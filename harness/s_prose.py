from check import prop, sims

WH = {"sp", "nl", "par", "break", "comment", "commentline"}
WORDS = {"word", "accent", "letter", "symbol", "escape", "unicode", "quoted"}
ATOMS = {"word", "math", "cite", "ref", "url", "image"}
BOXES = {"mbox", "fbox", "makebox", "raisebox", "parbox", "framebox", "colorbox", "scalebox", "text"}
CONT = {"group", "center", "quote", "theorem", "item", "footnote", "href"}
STY = {"textbf", "textit", "textsl", "emph", "texttt", "textsc", "textsf", "textrm", "textup", "underline",
       "textsuperscript", "textsubscript", "sout", "textcolorA", "textcolorB", "textcolorC"}
SW = {"bf", "it", "tt", "sc", "sf", "rm", "sl", "em", "bfseries", "itshape", "slshape", "ttfamily", "sffamily", "scshape",
      "tiny", "scriptsize", "footnotesize", "small", "large", "Large", "LARGE", "huge", "Huge", "colorA", "colorB"}
SIL = {"inline", "space", "page", "setup"}
BASE = dict(Styles=set(), Switches=set(), Containers=set(), Atoms={"word"}, Whites={"sp"}, Silent=set(), BoxNames=set(), MaxDepth=3, Emit=True)
INV = ["Conserved", "StylesScoped", "Separated", "PathLen"]


def bfs(c, label, n, cap, **k):
    return [dict(module="Prose", consts=dict(BASE, Targets={n}, **k), invariants=INV, workers=4, heap="6g", label=label,
                 timeout=850, cap=cap)]


@prop("C05")
def text(c):
    cases = c.generate(
        bfs(c, "Prose/bfs", c.n(5, 6), c.n(3000, 40000), Containers={"group", "fbox", "footnote", "quote"}, Styles={"textbf"}) +
        sims("Prose", dict(BASE, Containers=CONT | BOXES, Styles={"textbf", "emph", "textcolorA"}, Atoms=ATOMS | WORDS,
                           Whites=WH, Silent={"inline"}, Targets={8, 16, 30}, MaxDepth=4,
                           BoxNames={"ba", "bb"}), c.n(4000, 30000), 200, 3, timeout=850) +
        sims("Prose", dict(BASE, Containers=BOXES | {"group"}, Whites={"sp", "nl"}, Targets={6, 12}, MaxDepth=4),
             c.n(1500, 10000), 200, 1, timeout=850) +
        sims("Prose", dict(BASE, Atoms={"word", "quoted"}, Styles={"textbf"}, Containers={"footnote"}, Whites={"sp", "nl"}, Targets={6, 9}, MaxDepth=2),
             c.n(1500, 10000), 200, 1, timeout=850))
    c.replay("d_prose", "check_text", cases)


@prop("C06")
def styles(c):
    cases = c.generate(
        bfs(c, "Prose/bfs", c.n(5, 6), c.n(3000, 40000), Containers={"group", "center"}, Styles={"textbf", "textcolorA"},
            Switches={"it", "small"}) +
        sims("Prose", dict(BASE, Containers=CONT | BOXES, Styles=STY, Switches=SW, Atoms=ATOMS | {"accent"},
                           Whites=WH - {"par"}, Targets={8, 16, 30}, MaxDepth=5), c.n(4000, 30000), 200, 3, timeout=850) +
        sims("Prose", dict(BASE, Containers={"group", "center", "quote"}, Switches=SW, Targets={8, 14}, MaxDepth=3),
             c.n(2000, 15000), 200, 2, timeout=850) +
        sims("Prose", dict(BASE, Containers={"group"}, Switches={"bf", "itshape", "ttfamily"}, Targets={6, 9}, MaxDepth=3),
             c.n(2000, 10000), 200, 1, timeout=850))
    c.replay("d_prose", "check_styles", cases)


@prop("C07")
def silent(c):
    cases = c.generate(
        bfs(c, "Prose/bfs", 2, c.n(3000, 60000), Atoms=WORDS) +
        sims("Prose", dict(BASE, Containers={"group", "footnote", "quote", "item"}, Styles={"textbf"}, Atoms=WORDS | {"math"},
                           Whites=WH, Silent=SIL, Targets={8, 16, 24}, MaxDepth=2), c.n(5000, 30000), 200, 3, timeout=850))
    c.replay("d_prose", "check_silent", cases)
