P("C21", "What separates a command from its star, options and arguments means nothing",
  "Between the name of a command and its star, its options and its arguments, and between these, there may be blanks, tabs, a line end, or comments with anything in them; and after the name of a command without arguments any number of them. The conversion is the same as if nothing (a blank) were there, down to every token: for headings, styles, boxes, colors, notes, captions, citations, references, links, graphics, environments of all kinds with their options and arguments, items, titles and authors, definitions of commands, environments and theorems and their use, counters, lengths and settings, nested in each other. "
  "The words of the arguments that are shown are there once, the others and the options do not show, and no command that is known is taken for an unknown one. "
  "Not claimed: empty lines, \\verb, listings and tikz pictures, math, \\\\, arguments of unknown commands, the blank after a symbol such as \\ldots or \\ss, the blanks at the beginning and the end of an argument.",
  ["inputs"], "all sequences of the commands known, nested, with blanks, line ends and comments at any juncture",
  "each of 150 commands has a pattern of its own, in which each juncture has to be allowed for; tests fix the usual spelling",
  ["latex2json/parser/handlers/content_command.py", "latex2json/parser/handlers/formatting.py", "latex2json/parser/handlers/new_definition.py", "latex2json/parser/handlers/environment.py", "latex2json/parser/handlers/text_formatting.py", "latex2json/utils/tex_utils.py", "latex2json/parser/patterns.py"],
  [("patterns", "latex2json/parser/handlers/content_command.py"), ("patterns", "latex2json/parser/handlers/formatting.py"), ("definitions", "latex2json/parser/handlers/new_definition.py"), ("environments", "latex2json/parser/handlers/environment.py"), ("arguments", "latex2json/utils/tex_utils.py")],
  "TLA+ machine of TeX's scanner (new line, middle, skipping blanks) and of a reader of arguments (TLC: exhaustive small + simulation), texts with and without separations converted and compared",
  "That the reader sees the same with and without what separates, at every point, and what was meant, are invariants, checked for every command shape with every separation of one character (thorough: two) and in simulation with up to three; about 7,300 texts per quick run are converted in both spellings and compared.")
