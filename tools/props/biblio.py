P("C15", "Bibliographies keep every entry, key, field and item as written",
  "A BibTeX database (read directly, or through \\bibliography or \\addbibresource in a document) yields its entries in the order written, each with its key as spelt, its type, and its fields in order with lower-case names and the whole value: braces and quotes nest, # puts parts together and @string names stand for what was defined before, also in another file read before; the first field of a name and, in a list of files, the first entry of a key counts; white space around and between words means nothing. "
  "@comment, @preamble and @string yield no entry, text between entries (also with @ in it) is ignored, an @, %, comma or = inside a value belongs to the value, and an entry that breaks off takes no other entry with it. What an entry is written back as contains all of it, and reads as the same entry. "
  "A list of \\bibitem (in the document, \\input, or a .bbl file named by \\bibliography, or used because the named one is missing) yields its items in order, each with its key, its label up to its own bracket, and exactly the words, formulas, addresses, links and styles written in it; comments yield nothing, \\newblock leaves nothing, definitions before the first item take effect in the items of their list and what follows, and other set-up before the first item, like the widest label, leaves no text. "
  "Not claimed: the inside of labels, month names, keys with spaces, entries and fields that are commented out, empty items, the scope of definitions in a list, words between the lists of a .bbl file (records of amsrefs and biblatex: see C22).",
  ["inputs", "histories"], "all databases built from entries, definitions, comments, nested and joined values in one or more files, and all item lists built from labels, groups, styles, comments and definitions",
  "whether @, %, a comma, quote or bracket ends something depends on all that is open around it and on what was defined before; tests fix some tidy entries",
  ["latex2json/parser/bib/bib_parser.py", "latex2json/parser/bib/bibtex_parser.py", "latex2json/parser/bib/bibitem_parser.py", "latex2json/parser/tex_parser.py", "latex2json/structure/tokens/bibliography.py"],
  [("databases", "latex2json/parser/bib/bibtex_parser.py"), ("item lists", "latex2json/parser/bib/bibitem_parser.py"), ("files", "latex2json/parser/bib/bib_parser.py"), ("document", "latex2json/parser/tex_parser.py")],
  "TLA+ machines of a BibTeX reader and of item lists (TLC: exhaustive small + simulation), generated files replayed into the bibliography parsers and the whole converter",
  "That the reader machines read what the writer meant is an invariant of both models; about 7,000 generated databases and lists per quick run are replayed in several spellings and all entries, fields, items and styles compared. Up to 60 atoms, 3 files, 2 lists.")
