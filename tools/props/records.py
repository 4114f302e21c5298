P("C22", "Compiled bibliographies: amsrefs records and biblatex .bbl files are kept whole",
  "From the \\bib records of amsrefs and from the .bbl files of biblatex every record is listed once, in the order in which they stand, with its key, its type, and all of its fields and nothing else. "
  "amsrefs: names of fields in lower case, in the order of their first occurrence; fields that are repeated are put together with `and'; values with or without braces, with commas, equals signs, formulas, accents, escaped characters, commands and groups in them, over several lines; braces that only group are left out, those that hold arguments, formulas, or what a command works on stay; \\bib* is like \\bib. "
  "biblatex: authors, editors, translators as `prefix family, initial.', put together with `and' in their order, with their accents, whatever the order of the parts; lists (publisher, location) put together likewise; fields with their text; verbatim values (doi, url, eprint) to the character; no hashes, labels, sorting data, keywords. "
  "Comments and what stands between records do not count. That is so for the parser and for a document that names the file, or whose .bbl is found instead; the text of an entry lists its type, key and fields. "
  "Not claimed: compound amsrefs fields (book={title={..}}), \\bib records in the document itself, other initials than the first, records that are not complete, the order of the fields of biblatex.",
  ["inputs"], "all records of both formats with such fields and values, their spelling, and the ways to include them",
  "what a brace, a comma, a percent sign means depends on where it stands; tests have one file per format",
  ["latex2json/parser/bib/bibdiv_parser.py", "latex2json/parser/bib/compiled_bibtex.py", "latex2json/parser/bib/bib_parser.py", "latex2json/parser/bib/bibtex_parser.py"],
  [("bib records", "latex2json/parser/bib/bibdiv_parser.py"), ("bbl files", "latex2json/parser/bib/compiled_bibtex.py"), ("dispatch", "latex2json/parser/bib/bib_parser.py")],
  "TLA+ machine of both formats, atom by atom, and of what they mean (TLC: exhaustive small + simulation), each text written out and read by the real parsers, directly and through a document",
  "That the reader reads what was meant, at every record, that the braces that stay are balanced, and reading again gives the same are invariants, checked for all texts of up to 11 (thorough: 13) atoms of either format and in simulation up to 60; about 6,200 texts per quick run are read by the code.")
