P("C04", "Conditionals keep exactly one branch, and nothing of the other",
  "Of an \\if...\\else...\\fi (or \\ifcase...\\or) conditional exactly one branch takes effect: the true branch when the condition is constantly true, the else branch when it is constantly false, the first branch when the condition cannot be decided. "
  "Nesting to any depth pairs every \\else and \\fi with its own opener, also when the branches hold braced conditionals (\\ifthenelse, \\IfFileExists), \\iff or switch names that contain other names. "
  "Text, definitions and headings of a branch not taken have no effect, the document after the conditional is unaffected, and no \\if, \\else, \\or or \\fi appears in the output.",
  ["programs", "inputs"], "all nestings of conditionals of every kind, with text, definitions, headings and uses in their branches",
  "pairing depends on the nesting and on what the branches contain; the tests sample single conditionals",
  ["latex2json/parser/handlers/if_else_statements.py", "latex2json/parser/tex_preprocessor.py", "latex2json/parser/tex_parser.py", "latex2json/parser/packages/etoolbox.py"],
  [("openers, pairing, branch selection", "latex2json/parser/handlers/if_else_statements.py"), ("switches", "latex2json/parser/tex_preprocessor.py")],
  "TLA+ nested conditionals (TLC: exhaustive small + simulation), generated programs replayed into preprocessor and parser",
  "Pairing and no-effect invariants model-checked on all short programs; generated programs replayed. Values of \\ifnum comparisons and of user switches are not evaluated by the tool (first branch is kept), which the model states as such.")
