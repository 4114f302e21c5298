P("C11", "Tables keep their grid: every piece of content in its row, cell and span",
  "Every table (tabular, tabular*, tabularx, tabulary, longtable, also nested in a cell or written \\tabular...\\endtabular) comes out once, in place, with its rows in order and in each row a cell more than its separators, empty cells included; each cell holds exactly the text, formulas, citations, links, pictures, code, notes, lists and tables written in it, in order and with their styles, and spans the columns and rows its \\multicolumn and \\multirow say. "
  "& and the row ends (\\\\, \\\\*, \\\\[..], \\tabularnewline, \\endhead and the like) only count in the table they stand in directly: escaped, in braces, in formulas, code, addresses, lists or boxes they separate nothing; rules, row colours and spacing commands leave nothing; column specifications, widths and positions leave no text. "
  "Not claimed: empty rows at the beginning and end of a table, rows without separator and content, and negative \\multirow counts.",
  ["programs", "inputs"], "all tables built from cells, separators, spans, groups, styles, embedded elements and nested tables, in all spellings of the separators and environments",
  "whether & or \\\\ separates depends on everything open around it; tests fix a few grids",
  ["latex2json/parser/handlers/tabular.py", "latex2json/parser/flatten.py", "latex2json/parser/tex_parser.py", "latex2json/structure/tokens/tabular.py"],
  [("grid", "latex2json/parser/handlers/tabular.py"), ("references kept out of the grid", "latex2json/parser/flatten.py"), ("output", "latex2json/structure/tokens/tabular.py")],
  "TLA+ machine of nested tables, groups and spans (TLC: exhaustive small + simulation), generated tables replayed into parser and builder",
  "Placement by separators, row widths and spans are invariants of the model against a declarative reading of the separators; about 6,000 generated tables per quick run replayed and the whole grid compared. Up to 3 tables nested, 5 columns, 40 events.")
