P("C01", "The output tree mirrors the document outline, nothing lost or reordered",
  "Every heading becomes a child of the nearest preceding heading of higher rank in its container (document, environment or appendix), "
  "and every paragraph of text, float, equation, list and theorem becomes content of the nearest preceding heading or of the environment it stands in; "
  "bibliographies and the appendix start again at the top. "
  "Each element of the source appears exactly once, in source order, whatever the depth or order of headings.",
  ["inputs", "programs"], "all sequences of headings (starred or not, skipping ranks), paragraphs, environments, lists, equations, appendix and bibliography declarations",
  "tests fix a handful of well-behaved outlines; the tree depends on the whole history of headings and open containers",
  ["latex2json/structure/builder.py", "latex2json/parser/handlers/environment.py", "latex2json/parser/handlers/content_command.py", "latex2json/parser/tex_parser.py"],
  [("section stack / recursive organiser", "latex2json/structure/builder.py"), ("environment matching", "latex2json/parser/handlers/environment.py")],
  "TLA+ outline state machine (TLC: exhaustive small + simulation), behaviours replayed into parser and builder",
  "Invariants checked exhaustively by TLC on short documents, thousands of generated documents (up to 45 events, depth 3) compared node by node with the real output; trusts the rendering/abstraction in harness/d_outline.py.")
P("C02", "Numbering is sequential, unique and hierarchical",
  "Numbered headings, equations, figures, tables, algorithms and theorem-like environments receive, in document order, exactly the numbers LaTeX's rules give: "
  "dotted section numbers that restart under each parent, letters in the appendix, one running number per float and equation kind, theorem numbers prefixed by the section. "
  "Starred elements get none and consume none, and no two elements of a kind share a number. "
  "When proofs are merged (merge_proof_environments), each proof is in the theorem-like environment directly before it, titled or not, and all else, numbers included, is as without.",
  ["inputs", "programs"], "all interleavings of numbered and unnumbered constructs, at any nesting depth",
  "counters interact across the whole document; tests sample a few short sequences",
  ["latex2json/structure/builder.py", "latex2json/structure/tokens/document.py", "latex2json/structure/tokens/equation.py"],
  [("counters", "latex2json/structure/builder.py")],
  "TLA+ outline state machine with counters (TLC: exhaustive small + simulation), behaviours replayed into parser and builder",
  "Uniqueness/sequence invariants proved by TLC within small bounds; thousands of generated documents (up to 70 events) replayed and compared number by number.")
