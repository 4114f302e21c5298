P("C05", "Running text is converted whole, in order, and words stay apart",
  "Every word, inline formula, citation, reference, URL and inline image of running text appears exactly once, in source order, inside the same links, footnotes, list items, quotes and theorems as in the source, whatever brace groups, boxes, font commands and layout commands surround it. "
  "Words separated by white space, line or paragraph breaks or comments in the source are separated in the output; grouping and boxing (also boxes saved and used later) leave no text of their own. "
  "Not claimed: white space at the edges of an argument of a font command or box, and between tokens of different kind or style, which is left to the consumer.",
  ["programs", "inputs"], "all streams of words, inline elements, white space and comments under any nesting of groups, boxes, font commands, links, footnotes and environments",
  "loss, duplication or joining depends on the combination of neighbours and nesting; tests fix single constructs",
  ["latex2json/structure/builder.py", "latex2json/parser/tex_parser.py", "latex2json/parser/handlers/boxes.py", "latex2json/parser/handlers/text_formatting.py", "latex2json/utils/tex_utils.py"],
  [("merging of text, spaces", "latex2json/structure/builder.py"), ("boxes, saved boxes", "latex2json/parser/handlers/boxes.py"), ("tokenising", "latex2json/parser/tex_parser.py")],
  "TLA+ text stream with container stack (TLC: exhaustive small + simulation), generated documents replayed into parser and builder",
  "Conservation, separation and path invariants model-checked on all short streams; about 5,000 generated documents per quick run replayed and compared atom by atom. Nested braced scopes only; white space at argument edges is not compared.")
P("C06", "Styles reach exactly the text they cover",
  "Text carries exactly the set of styles of the font commands, old-style font, size and color switches that are in force where it stands: a command covers its argument and nothing else, a switch holds from its position to the end of its group, environment or argument, a later switch of the same kind replaces the earlier one, "
  "and styles add up across nesting, reaching formulas, citations, references, links and images alike; a footnote does not inherit the styles outside it unless it stands inside a font command.",
  ["programs", "inputs"], "all nestings and sequences of font commands, font, size and color switches, groups, boxes and environments around text and inline elements",
  "the styles of a token depend on the whole path above it and the switches before it",
  ["latex2json/parser/handlers/text_formatting.py", "latex2json/parser/handlers/legacy_formatting.py", "latex2json/parser/tex_parser.py", "latex2json/structure/builder.py"],
  [("font commands", "latex2json/parser/handlers/text_formatting.py"), ("switches", "latex2json/parser/handlers/legacy_formatting.py"), ("styles of groups", "latex2json/structure/builder.py")],
  "TLA+ text stream with scoped styles (TLC: exhaustive small + simulation), generated documents replayed into parser and builder",
  "The scoping invariant (styles = those of the constructs around, nothing else) is model-checked on all short streams; generated documents replayed and the style set of every atom compared. The same style asked for twice in one path and footnotes inside styled text are not generated.")
P("C07", "Letters, accents and escapes read as written; silent commands leave nothing",
  "Accent commands, special letters, escaped characters, quotation marks and Unicode characters come out as the characters LaTeX would typeset, attached to the right base letter and word, in every spelling (braced, unbraced, spaced, dotless bases). "
  "Comments and commands that set up, space or lay out the page (with whatever arguments) leave no text behind and remove nothing around them, while an escaped percent sign does not start a comment.",
  ["programs", "inputs"], "all combinations of accents, base letters, spellings, escapes, quotes, comments and layout commands in running text",
  "the result depends on what stands next to the command; tests sample single commands",
  ["latex2json/parser/handlers/diacritics.py", "latex2json/parser/handlers/formatting.py", "latex2json/parser/tex_parser.py", "latex2json/utils/tex_utils.py"],
  [("accents", "latex2json/parser/handlers/diacritics.py"), ("silent commands", "latex2json/parser/handlers/formatting.py"), ("comments", "latex2json/utils/tex_utils.py")],
  "TLA+ text stream with word spellings (TLC: exhaustive small + simulation), generated documents replayed into parser and builder",
  "The character sequence of each word comes from the specification, compared after Unicode canonical composition; the vocabulary of layout commands is a fixed list in harness/d_prose.py.")
