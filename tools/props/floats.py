P("C17", "Figures, tables and algorithms keep their parts, captions and pictures",
  "Whatever figures, tables (with or without star, wrapped, or opened by user macros) and algorithms contain, and however they are nested in boxes, groups, minipages, centred or flushed blocks and footnotes: each yields one token with what was written in it, in order and at its place, and what follows it is outside again. Figures, tables and algorithms are numbered 1, 2, 3 … each, in document order; their parts (subfigure, subtable, \\subfloat, \\subfigure) have no number and do not affect it. "
  "Each caption (with a star, with a short form, \\subcaption, \\captionof) is a caption token of the float or part it stands in, with its text, formulas, and footnotes; the caption given to \\subfloat stands before the part. Each picture names its file and, if given, its page; included documents their pages; an overpic is its picture. "
  "Boxes (\\fbox, \\mbox, \\parbox, \\makebox, \\framebox, \\raisebox, \\resizebox, \\scalebox, \\rotatebox, \\colorbox, \\fcolorbox, \\adjustbox, \\hbox to, \\vbox) give what is in them, whatever their options, which yield nothing. Placement, widths and alignment yield nothing. Diagrams (tikzpicture, picture, pgfpicture) and algorithmic blocks are kept as written, also nested ones, and nothing in them is taken for text. Comments yield nothing. "
  "Not claimed: the overhang of wrapfigure, labels in captions of \\subfloat, what is drawn over an overpic, styles and macros in algorithmic blocks, diagrams opened by user macros, other boxes (\\reflectbox, \\ovalbox, \\vtop), \\tikz, tikzcd, \\epsfig, \\includesvg, empty captions.",
  ["inputs"], "all documents of floats, parts, boxes, captions, footnotes, pictures, diagrams and text, nested to any depth",
  "what belongs to which float depends on all that is open, and every box and part has its own arguments; tests fix single floats",
  ["latex2json/parser/handlers/environment.py", "latex2json/parser/packages/boxes.py", "latex2json/parser/handlers/content_command.py", "latex2json/parser/packages/tikz_pgf.py", "latex2json/parser/packages/overpic.py", "latex2json/parser/handlers/text_formatting.py", "latex2json/structure/builder.py"],
  [("floats", "latex2json/parser/handlers/environment.py"), ("boxes", "latex2json/parser/packages/boxes.py"), ("captions and pictures", "latex2json/parser/handlers/content_command.py"), ("diagrams", "latex2json/parser/packages/tikz_pgf.py"), ("numbers", "latex2json/structure/builder.py")],
  "TLA+ machine of floats and what is in them (TLC: exhaustive small + simulation), generated documents replayed through the whole converter",
  "That the reader machine, which sees one atom after the other, finds the nesting the writer meant is an invariant; about 5,500 generated documents per quick run are replayed in several spellings and nesting, numbers, captions, pictures, words and blocks compared. Up to 45 atoms, depth 6.")
