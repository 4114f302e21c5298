P("C24", "Style and class files: declarations hold, what is loaded is read once",
  "In a document with class, style and input files beside it or in folders under it, reading takes every named file that is there exactly once, in the order of its names, however files name one another (also in circles, repeatedly, in lists, with options, in sub folders, with any line ends); files that are not there change nothing. "
  "Named are: the class (\\documentclass, \\documentstyle, \\LoadClass, ..WithOptions), packages (\\usepackage, \\RequirePackage, ..WithOptions, options of \\documentstyle), inputs (\\input with or without .tex). Names are looked up from the document's folder, then from the folder of the file that names them. "
  "What such a file declares holds in the document: theorems it declares are theorems with the declared title (others are named as their environment), colours have the value declared last, its macros say nothing and take their arguments, while a macro the document defines itself says what the document says, and \\providecommand keeps what is there. "
  "Of \\iftrue, \\iffalse and \\IfFileExists in these files the right branch is read; what follows \\endinput on a line of its own is not read; \\AtBeginDocument is read; what stands before \\documentclass is read. No text of these files is in the document. "
  "Not claimed: \\@ifpackageloaded, \\@ifclassloaded, \\@ifundefined (dropped), other conditions (count as true), declarations within bodies of definitions, options or groups, theorems declared twice or named as a known command.",
  ["inputs", "histories"], "all sets of class, style and input files naming one another, and documents that use them",
  "what holds depends on the graph of files, on the order in which they are met and on what was met before; tests read single style files by name",
  ["latex2json/parser/sty_parser.py", "latex2json/parser/tex_preprocessor.py", "latex2json/parser/patterns.py", "latex2json/parser/handlers/command_manager.py"],
  [("style file reader", "latex2json/parser/sty_parser.py"), ("packages of the document", "latex2json/parser/tex_preprocessor.py"), ("names of files", "latex2json/parser/patterns.py")],
  "TLA+ reader of files with a stack of open files, the set of files read and the declarations in force (TLC: exhaustive small + simulation); the files are written to a scratch folder and read by the real parser, words, theorems and colours compared",
  "That the stack reader reads what the recursive reading reads, no file twice, and to a bounded depth are invariants. Checked for all sets of files of the small core and in simulation; about 5,500 sets of files per quick run are written and read by the code.")
