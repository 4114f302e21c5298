P("C16", "Formulas end where they end, and keep what is in them",
  "Every formula in a document, however it is delimited ($…$, $$…$$, \\(…\\), \\[…\\], the environments of one, several or aligned lines with or without a star, displaymath, or macros that stand for beginning and end), yields exactly one equation, at its place in the text, shown as block or inline as it is delimited; what follows it is text again. A delimiter ends a formula only if it is not escaped, in a comment, or in the text of a formula (\\text, \\mbox), where formulas stand in formulas. "
  "Its content has the same TeX tokens in the same order as written, arguments-less and braced user macros expanded: operators, primes, escaped characters, spacing commands, functions, groups, rows and cells, \\left and \\right, arrays, text with blanks. Comments yield nothing, closing quotes and primes are not confused. "
  "Labels are taken out, in order; references, citations, pictures and links become placeholders, in order, each with its token. Exactly the numbered environments are numbered, 1, 2, 3 … in document order whatever they stand in; aligned ones are marked. Formulas in styled text, footnotes, headings, quotes and groups have the styles of the text. "
  "Not claimed: braces that only group, boxes around nothing but a formula, boxes other than \\mbox and \\fbox, type sizes and other formatting commands in formulas, blank lines and definitions in formulas, numbers of single lines (\\tag, \\nonumber), spacing commands in formulas in the arguments of macros, empty formulas, and macros whose arguments are not in braces.",
  ["inputs"], "all documents of text, groups, comments and formulas, with all delimiters, and things in them to any depth",
  "where a formula ends depends on all that is open in it, and what happens to its content on every handler that sees it; tests fix single formulas",
  ["latex2json/parser/handlers/equation.py", "latex2json/parser/tex_preprocessor.py", "latex2json/utils/tex_utils.py", "latex2json/parser/handlers/command_manager.py", "latex2json/structure/builder.py"],
  [("formulas", "latex2json/parser/handlers/equation.py"), ("delimiters", "latex2json/utils/tex_utils.py"), ("macros in formulas", "latex2json/parser/handlers/command_manager.py"), ("numbers", "latex2json/structure/builder.py")],
  "TLA+ machine of formulas in text (TLC: exhaustive small + simulation), generated documents replayed through the whole converter",
  "That the reader machine, which only sees atoms, finds the formulas the writer meant is an invariant; about 5,500 generated documents per quick run are replayed in several spellings and every formula's tokens, display, number, labels and references compared. Up to 60 atoms, depth 6.")
