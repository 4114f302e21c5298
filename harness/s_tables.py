from check import prop, sims

ENVS = {"tabular", "tabular*", "tabularx", "longtable", "tabulary", "plain"}
LEAVES = {"math", "matrix", "ref", "cite", "graphics", "url", "verb", "foot", "list", "display"}
ALL = dict(MaxTables=3, MaxCols=5, MaxSpan=4, MaxDepth=6, Envs=ENVS, Groups={"brace", "parbox", "makecell", "color"},
           Styles={"bold", "italic"}, Leaves=LEAVES, Seps={"plain", "opt", "star", "newline"}, Emit=True)
CORE = dict(ALL, MaxTables=2, MaxCols=3, MaxSpan=2, Envs={"tabular"}, Groups={"brace"}, Styles={"bold"}, Leaves={"matrix"}, Seps={"plain"})
GRID = dict(ALL, MaxTables=2, Groups=set(), Leaves={"math"}, Styles={"bold"})
INV = ["Conserved", "CellsRight", "Widths", "SpansRight"]


@prop("C11")
def tables(c):
    cases = c.generate(
        [dict(module="Tables", consts=dict(CORE, Targets={c.n(4, 6)}), invariants=INV, workers=4, heap="4g", timeout=850,
              label="Tables/bfs", cap=c.n(4000, 60000))] +
        sims("Tables", dict(GRID, Targets={10, 20, 30}), c.n(1500, 20000), 200, 3, invariants=INV, timeout=850) +
        sims("Tables", dict(ALL, Targets={10, 20, 40}), c.n(3600, 40000), 400, 6, invariants=INV, timeout=850))
    c.replay("d_tables", "check_table", cases)
