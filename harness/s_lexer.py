from check import prop, sims

JUNK = {"lbrace", "rbrace", "dollar", "amp", "hash", "tilde", "quotes", "bs", "item", "section", "env", "macro", "cond", "style",
        "label", "spaces", "indent", "uni", "accent", "bracket", "ops", "url"}
ALL = dict(Junk=JUNK, Ctxs={"item", "center", "quote", "theorem", "brace", "group", "mybox"}, Emit=True, MaxDepth=2, Hide=True)
CORE = dict(Junk={"lbrace"}, Ctxs={"item"}, Emit=True, MaxDepth=1, Hide=False)
PLAIN = dict(Junk={"lbrace", "rbrace", "dollar", "macro", "cond"}, Ctxs=set(), Emit=True, MaxDepth=0, Hide=True)
INV = ["CommentsRight", "HiddenRight", "Conserved", "Contiguous", "First"]


@prop("C10")
def code(c):
    cases = c.generate(
        [dict(module="Lexer", consts=dict(CORE, Targets={c.n(4, 6)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Lexer/bfs", cap=c.n(6000, 60000))] +
        sims("Lexer", dict(PLAIN, Targets={6, 10, 16}), c.n(6000, 40000), 200, 3, invariants=INV, timeout=850) +
        sims("Lexer", dict(ALL, Targets={8, 14, 30}), c.n(12000, 100000), 400, 6, invariants=INV, timeout=850))
    c.replay("d_lexer", "check_code", cases)
