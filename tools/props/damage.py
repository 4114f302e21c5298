P("C18", "Damaged documents: nothing is lost, and what ends is read as it stands",
  "Documents in which things are not closed, closed without having been opened, overlap, or which end anywhere, even within a command or its arguments: conversion ends without an error and gives a valid document. Each thing that closes ends the last one opened of its own kind before it (braces of all commands and groups are one kind, \\begingroup another, each environment one of its own); of two pairs that cross, the one that opens first stands, and the other neither opens nor closes. "
  "What is left open gives what is in it to what is around it, in its place: environments with a token of their own leave an empty one, lists, tables, unknown environments, groups and arguments none. What closes nothing changes nothing in what is around it. What is wrong within something that ends stays in it (if nothing before is left open): what follows reads as it would without. Every word and formula is kept once, in order, with exactly the styles of the styled arguments that stand around it. "
  "Not claimed: formulas left open before other formulas, verbatim, code and comment environments left open, an open \\iffalse, unknown commands and stray control words directly before a brace (they take the group as argument), \\documentclass after the beginning, the characters that remain as text of what is left open (a brace, a column specification), which item of a list left open a word in braces belongs to.",
  ["inputs"], "all sequences of openings, closings (of the right thing, the wrong one, none), words and formulas, cut off anywhere, over 30 kinds of environments, arguments and groups",
  "every handler looks for the end of what it handles by itself, in text cut out by another one, and each decides what to do if there is none; tests try single commands left open",
  ["latex2json/utils/tex_utils.py", "latex2json/parser/handlers/environment.py", "latex2json/parser/handlers/content_command.py", "latex2json/parser/handlers/text_formatting.py", "latex2json/parser/tex_parser.py", "latex2json/structure/builder.py", "latex2json/structure/token_factory.py"],
  [("finding ends", "latex2json/utils/tex_utils.py"), ("environments left open", "latex2json/parser/handlers/environment.py"), ("errors stay in one construct", "latex2json/parser/tex_parser.py"), ("valid tokens", "latex2json/structure/token_factory.py")],
  "TLA+ model of writer, damage and reader (TLC: exhaustive small + simulation), generated documents replayed through the whole converter",
  "That reading one atom after the other gives the same pairs as looking for ends from outside in, that strays are neutral and damage contained, are invariants; about 8,900 damaged documents per quick run (up to 45 atoms, 6 damages, cut within 90 constructs) are replayed and nesting, words, formulas and styles compared.")
