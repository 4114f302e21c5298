P("C19", "Front matter: titles, authors and their parts, affiliations, abstracts",
  "Wherever it stands, in the preamble or in the document, alone, in a title page or in front matter, and in whatever order and number: each title, author, affiliation (\\affil, \\affiliation), address, e-mail address, keywords, abstract (environment or command), \\thanks and footnote yields one token with what was written in it, nested as it was written and in order of writing. Their options (short titles, numbers) yield nothing, nor do dates, \\maketitle and comments. "
  "The content of an author is the list of its parts, each a list of tokens: what stands between \\and, \\And and \\AND (written out, from a macro, or after line breaks, which may be followed by the word \"and\"), if there is more than line breaks in it. Words and formulas are kept once, in order; styled ones, and only those, have their style. "
  "Not claimed: \\and within braces, labels in front matter, \\curraddr with an argument, \\institute, keyword environments, \\sep, old font commands directly before a brace, brackets in short titles that are not in braces, white space.",
  ["inputs"], "all sequences of front matter commands, nested in each other where they can be, with comments, line breaks and separators anywhere",
  "parts of authors are cut out of text before it is read, and what is dropped must be dropped with all that is in it; tests fix single commands",
  ["latex2json/parser/handlers/author.py", "latex2json/parser/handlers/content_command.py", "latex2json/parser/handlers/formatting.py", "latex2json/parser/tex_parser.py", "latex2json/structure/token_factory.py", "latex2json/structure/tokens/metadata.py"],
  [("authors", "latex2json/parser/handlers/author.py"), ("titles, keywords", "latex2json/parser/handlers/content_command.py"), ("dates", "latex2json/parser/handlers/formatting.py"), ("tokens", "latex2json/structure/token_factory.py")],
  "TLA+ machine of front matter (TLC: exhaustive small + simulation), generated documents replayed through the whole converter",
  "That the reader machine, which sees one atom after the other, keeps what is shown, separates authors and nests as said of the whole document is an invariant; about 5,500 generated documents per quick run, in several spellings, are replayed and tokens, parts, words and styles compared. Up to 45 atoms, depth 5.")
P("C20", "The preamble is what is used and defined before the document, as written",
  "LatexPreamble gives, of any document, the \\usepackage, \\RequirePackage and \\use…{} commands, the definitions (commands, \\let, theorems, conditionals, counters, lengths, colors, operators, delimiters, column types, reference and float names) and the blocks from \\makeatletter to the next \\makeatother that stand between \\documentclass (or the beginning) and \\begin{document} (or the end): each as it is written, whole, once, in order, on lines of its own, and nothing else. "
  "What stands in arguments of other commands or in groups counts; what stands within a definition or block is part of that, \\begin{document} in a definition too. Comments, also comment environments, and what is commented out yield nothing. It is the same read from a file or from text, whatever was read before; and the preamble of a document made of a preamble is that preamble. "
  "Not claimed: \\newenvironment, \\newsavebox, \\colorlet and definitions of packages that are not known, the optional date after a package, \\futurelet, conditionals, filecontents, verbatim code in a preamble, \\makeatother within a definition.",
  ["inputs", "histories"], "all sequences of uses, definitions with anything in them, other commands with definitions in them, blocks, comments, the beginning and the end",
  "what is found depends on what is open around it and on where the document begins; no test calls it",
  ["latex2json/parser/tex_preamble.py", "latex2json/parser/handlers/new_definition.py", "latex2json/parser/patterns.py", "latex2json/utils/tex_utils.py"],
  [("scanning", "latex2json/parser/tex_preamble.py"), ("definitions", "latex2json/parser/handlers/new_definition.py")],
  "TLA+ machine of preambles (TLC: exhaustive small + simulation), generated preambles replayed through LatexPreamble",
  "That the scanner finds exactly what is said of the whole text, in order and without overlap, and the same when its result is scanned again, are invariants; about 5,500 generated texts per quick run, in 70 spellings, are given to LatexPreamble as text and as files and the result compared.")
