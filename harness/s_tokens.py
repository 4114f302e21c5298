from check import prop, sims

TYPES = {"document", "title", "abstract", "appendix", "section", "paragraph", "environment", "list", "item", "algorithm", "math_env", "citation", "ref", "url",
         "equation", "quote", "group", "footnote", "caption", "figure", "subfigure", "table", "email", "affiliation", "address", "keywords", "bibitem",
         "bibliography", "author", "tabular", "date", "unknown", "text", "diagram", "code", "algorithmic", "includegraphics", "includepdf", "command", "mark"}
ALL = dict(Types=TYPES, Depth=6, FocusSize=8, Sample=True, Emit=True)
CORE = dict(Types={"section", "math_env", "url", "tabular", "bibliography", "bibitem", "date", "text", "mark"}, Depth=3, FocusSize=0, Sample=False, Emit=True)
INV = ["NothingLost", "SameOpen", "Idempotent"]


@prop("C25")
def tokens(c):
    cases = c.generate(
        [dict(module="Tokens", consts=dict(CORE, Targets={c.n(5, 6)}), invariants=INV, workers=4, heap="6g", timeout=850,
              label="Tokens/bfs", cap=c.n(1500, 20000))] +
        sims("Tokens", dict(ALL, Targets={8, 20, 40} if c.quick else {8, 20, 40, 60}), c.n(6000, 150000), 150, 4, invariants=INV, timeout=850))
    c.replay("d_tokens", "check_tokens", cases)
