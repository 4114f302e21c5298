P("C23", "Star forms, composed names, switches, loops, delimiter pairs mean what they say",
  "In documents that program, what is read is what the program leaves. "
  "A macro made with \\@ifstar (given both texts, or two commands, defined before or after it, with or without an argument) reads as its starred text when a star follows, after a blank or not, and the star goes; otherwise as the other text; a star after any other macro is text. What a macro says before it asks for the star is kept. "
  "A macro defined under a name that is put together (\\csname..\\endcsname after \\expandafter\\def, \\gdef, \\newcommand or \\let; \\@namedef; a macro that defines another; macros inside the name) is the macro of that name; it is used by its name, \\csname or \\@nameuse, in text and formulas alike. \\let takes the meaning at that moment. "
  "Of \\ifbool, \\notbool, \\iftoggle, \\nottoggle one branch is kept, of switches that are true the first (\\not..: the second), nested as may be, and what is defined in the other branch is not defined. "
  "Bodies of \\foreach and \\forloop are dropped to their end, whatever braces and commands stand in them, and nothing after. "
  "\\DeclarePairedDelimiter makes left and right delimiter around the argument, starred, with a size, plain, and nested. Declarations and assignments of token lists and switches leave nothing and change nothing else. "
  "Not claimed: macros with arguments that define others whose name is used before or redefined after; values of switches (they count as true); scope of definitions in groups; \\ifbool and loops in formulas; arguments without braces.",
  ["inputs"], "all documents of such definitions, uses, branches, loops and formulas",
  "what a star, a brace, or a name means depends on all definitions before it and on the branches they stand in; tests show each construct by itself",
  ["latex2json/parser/handlers/command_processor.py", "latex2json/parser/handlers/command_manager.py", "latex2json/parser/handlers/new_definition.py", "latex2json/parser/handlers/if_else_statements.py", "latex2json/parser/handlers/for_loop_statements.py", "latex2json/parser/packages/etoolbox.py", "latex2json/parser/tex_preprocessor.py"],
  [("macro table and expansion", "latex2json/parser/handlers/command_processor.py"), ("definitions", "latex2json/parser/handlers/new_definition.py"), ("loops", "latex2json/parser/handlers/for_loop_statements.py"), ("branches", "latex2json/parser/handlers/if_else_statements.py")],
  "TLA+ reader of programs, item by item, that waits for stars and arguments and holds the table of macros and the open branches (TLC: exhaustive small + simulation); each document written out and read by the real parser, words, styles and formulas compared",
  "That the reader reads what was meant at every step, that reading from the start gives the same, and that nothing is left waiting or open are invariants, checked for all documents of up to 3 (thorough: 4) items of the core and in simulation up to 24 items with nesting to depth 3; about 10,400 documents per quick run are read by the code.")
