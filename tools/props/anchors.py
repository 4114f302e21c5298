P("C08", "Environments and lists keep nesting, kind, name, title and text",
  "Every theorem-like environment (built in, or declared with \\newtheorem or \\newtheorem*), list, item, quotation, layout group, float, abstract, footnote, caption, user-defined or unknown environment appears once, in document order, as an element of the right kind and name, inside exactly the elements that enclose it in the source, with the text that stands in it. "
  "Titles and item labels are kept whole; numbered kinds carry a number, starred and unnumbered ones none; environment options and size arguments leave no text; text before the first item of a list stays in the list. "
  "Not claimed: an \\item with neither label nor body, and the type of theorems declared under a title the converter has no kind for (they stay generic environments).",
  ["programs", "inputs"], "all nestings and sequences of environments, lists, items, floats, captions and footnotes with text between",
  "matching of \\begin, \\end and \\item depends on everything in between, at any depth; tests fix single nestings",
  ["latex2json/parser/handlers/environment.py", "latex2json/parser/handlers/item.py", "latex2json/parser/tex_parser.py", "latex2json/structure/token_factory.py"],
  [("environments", "latex2json/parser/handlers/environment.py"), ("items", "latex2json/parser/handlers/item.py"), ("tokens", "latex2json/structure/tokens/base.py")],
  "TLA+ container stack (TLC: exhaustive small + simulation), generated documents replayed into parser and builder",
  "Nesting invariants model-checked; about 8,000 generated documents per quick run are replayed and kind, name, title, parent and order of every element compared. Depth up to 5, documents up to 50 constructs.")
P("C09", "Labels, references, citations and links keep targets and notes",
  "Every \\label is attached to exactly one element, verbatim and in order: an equation or heading that contains it; otherwise the innermost environment, item, footnote or caption it stands in; after a caption, that caption until its float ends; otherwise the last heading, or the document before any. "
  "A nested element that ends gives its labels' place back to the one around it. References, citations and links carry exactly their keys or address, in order and verbatim, together with their note or link text, wherever they stand. "
  "Not claimed: labels in a fragment without document environment and before any heading are only claimed to be on the element before them.",
  ["programs", "inputs"], "all placements of labels, references, citations and URLs among headings, environments, lists, floats, captions, footnotes, equations and tables",
  "what a label belongs to depends on the whole history of openings and closings before it",
  ["latex2json/parser/tex_parser.py", "latex2json/parser/handlers/content_command.py", "latex2json/parser/handlers/equation.py", "latex2json/structure/builder.py"],
  [("labels", "latex2json/parser/tex_parser.py"), ("references, citations, URLs", "latex2json/parser/handlers/content_command.py")],
  "TLA+ container stack with current-anchor variable (TLC: exhaustive small + simulation), generated documents replayed into parser and builder",
  "The declarative owner of each label is an invariant of the model, checked on all short documents; generated documents replayed and label lists, keys, notes and addresses compared. Keys use 15 spellings; links to files with braces in the address are not generated.")
P("C10", "Code is kept verbatim and comments vanish",
  "The text of verbatim and lstlisting environments and of \\verb, up to the first delimiter that ends it, is delivered character by character as written, whatever it contains (percent signs, braces, macros, environments, items, quotes, math), as code and not as anything else, with the listing options as title; the code next to it does not change how the text around is read. "
  "A comment starts at an unescaped percent sign in text and only there, ends with its line, and leaves nothing, whatever is in it; likewise a comment environment, up to the first \\end{comment} on a line of its own. Not claimed: white space around the whole code and at line ends.",
  ["inputs", "programs"], "all sequences of text, comments, code environments and \\verb with arbitrary LaTeX-like content",
  "whether a character is code, comment or LaTeX depends on all the delimiters before it",
  ["latex2json/parser/tex_parser.py", "latex2json/parser/handlers/code_block.py", "latex2json/utils/tex_utils.py", "latex2json/parser/tex_preprocessor.py"],
  [("code", "latex2json/parser/handlers/code_block.py"), ("code kept out of the content", "latex2json/parser/tex_parser.py"), ("comments", "latex2json/utils/tex_utils.py")],
  "TLA+ lexer automaton (TLC: exhaustive small + simulation), generated documents replayed into parser and builder",
  "Comment and code extents are invariants of the automaton; about 24,000 generated documents per quick run replayed and the delivered text and code compared character by character.")
