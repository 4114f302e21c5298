P("C25", "Output tokens and their JSON carry the tokens given, whole and unchanged",
  "Making output tokens of tokens, dumping them, writing them as JSON (to_json, save_to_json) and reading that back loses, adds and changes nothing, for every tree of tokens of the types there are, nested in whatever field: content, title, proof, placeholders of formulas, cells and spanning cells of tables, parts of authors. "
  "Every token keeps its type, styles, labels, numbering, names, levels, keys, fields, display, pages and text (any characters), and its children in order; fields that are not given do not appear (null is only for empty cells), defaults are depth 1, format bibitem, spans 1. "
  "Dates and tokens of unknown types are left out wherever they stand, with what is in them, and nothing else is; a bibliography keeps its items only; an empty cell is null; text given where a list is due becomes one token of text, empty text none, and where text is allowed it stays text. "
  "The JSON has the tokens and the colours and is what the dump says; read by the factory it gives tokens with the same dump. A type registered with a factory is made by its handler wherever it stands, in that factory only. What is handed over is not changed, and one conversion does not change the other. "
  "Not claimed: tokens with fields of wrong types (an error), strings among the children of a list, fields unknown to a type (ignored).",
  ["inputs"], "all trees of tokens of all types, with any fields, nested in any field",
  "each type has its own way to read and dump its fields, and what goes missing shows only for a combination of type, field and place; tests look at some tokens one level deep",
  ["latex2json/structure/token_factory.py", "latex2json/structure/tokens/base.py", "latex2json/structure/tokens/tabular.py", "latex2json/structure/tokens/equation.py", "latex2json/structure/tokens/bibliography.py", "latex2json/structure/tokens/registry.py", "latex2json/tex_reader.py"],
  [("factory", "latex2json/structure/token_factory.py"), ("dump", "latex2json/structure/tokens/base.py"), ("tables", "latex2json/structure/tokens/tabular.py"), ("JSON", "latex2json/tex_reader.py")],
  "TLA+ writer of token trees, event by event, with a stack factory that says what comes through (TLC: exhaustive small + simulation); the trees with all fields are made into tokens by the real factory, dumped, written, read back and compared field by field",
  "That what is said in the kept tokens and nothing else comes through, that factory and writer agree on what is open, and that what has come through comes through unchanged are invariants, checked for all small trees of the core types and in simulation for trees of up to 40 events and depth 6 of all 38 types; about 7,500 trees per quick run go through the code.")
