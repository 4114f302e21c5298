P("C03", "A macro use yields what its definition in force at that point says",
  "Using a user-defined control sequence in text or math gives exactly its definition in force at that point with the given (or default) arguments substituted, nested macros being expanded too; "
  "redefinitions affect later uses only, providing a definition never overrides one, copying a meaning freezes it, and expanding definitions are evaluated once. "
  "A definition that would make a name lead back to itself never makes conversion hang.",
  ["programs", "inputs", "histories"], "all sequences of definitions (newcommand/renewcommand/providecommand/def/edef/let, optional and delimited arguments), redefinitions and uses",
  "meaning depends on the history of definitions; tests use one or two definitions at a time",
  ["latex2json/parser/handlers/command_manager.py", "latex2json/parser/handlers/command_processor.py", "latex2json/parser/handlers/new_definition.py", "latex2json/parser/tex_preprocessor.py", "latex2json/parser/tex_parser.py", "latex2json/utils/tex_utils.py"],
  [("definition parsing", "latex2json/parser/handlers/new_definition.py"), ("registration and expansion", "latex2json/parser/handlers/command_processor.py"), ("two-pass expansion", "latex2json/parser/tex_preprocessor.py")],
  "TLA+ macro semantics (TLC: exhaustive small + simulation), definition/use histories replayed into preprocessor and parser",
  "Acyclicity, closure and stability of meanings model-checked in small bounds; generated histories replayed, value of every use compared. Does not claim TeX grouping (definitions local to braces), which the tool does not model.")
