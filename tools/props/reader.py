P("C12", "A result depends on the document alone, whatever else is or was processed",
  "What a reader (or a parser and builder, fresh or cleared) makes of a document - tokens, numbers, colours - only depends on the document and the files beside it. Definitions of every kind, counters, theorem and float names, citation aliases, saved boxes, colours, packages and included or bibliography files of documents processed earlier, by the same or another reader, from whatever kind of input, whether that succeeded, failed half-way or was rejected, are gone; files changed since are read again. "
  "Two readers at work at the same time, in whatever interleaving, do not mix either. Results handed out stay as they were. The output is the same in every process, regardless of the hash seed. A missing input or a folder without main file raises FileNotFoundError, an unreadable archive TexProcessingError.",
  ["programs", "histories", "schedules", "crash points"], "all sequences and interleavings of documents that define and use things, over several readers, with failures at arbitrary calls",
  "leaks only show in the document after the one that caused them, and only when both happen to use the same thing; tests process single documents",
  ["latex2json/tex_reader.py", "latex2json/parser/tex_parser.py", "latex2json/parser/sty_parser.py", "latex2json/parser/tex_preprocessor.py", "latex2json/structure/builder.py", "latex2json/parser/packages/boxes.py", "latex2json/parser/handlers/content_command.py"],
  [("reader life cycle", "latex2json/tex_reader.py"), ("state of the parser", "latex2json/parser/tex_parser.py"), ("saved boxes", "latex2json/parser/packages/boxes.py"), ("counters", "latex2json/structure/builder.py")],
  "TLA+ machine of readers processing documents concurrently with faults (TLC: exhaustive pairs + simulation), histories replayed on real readers with scheduled threads and injected faults",
  "Isolation is an invariant of the model against the documents' own text; about 5,000 histories per quick run replayed (threads switched at given call counts, faults raised at given calls), plus documents of the other models and the repository's papers against runs in fresh processes under several hash seeds.")
P("C13", "Archives unpack fully and only inside a temporary directory that is removed",
  "From a zip or gzipped tar archive exactly the regular files with paths inside it are extracted, each with its (last) content, also when its name contains dots, blanks or other unusual characters; members with absolute or climbing paths, links leading out and special files have no effect, neither do files written through such links: nothing outside of the temporary directory is created, changed or removed. "
  "The file processed is a .tex file that contains \\documentclass or \\begin{document} outside comments, in whatever subfolder; of several the first by name, those of a folder before those of its subfolders, regardless of the order of directory entries; without any there is an error. A .gz file is processed as the single file it holds. "
  "A temporary directory exists exactly as long as there is a result that has not been cleaned up: with cleanup, after cleanup() (any number of times) and after any failure (damaged archive, no main file, error while processing) none is left.",
  ["inputs", "histories", "crash points"], "all archives of files, folders, links, special files and hostile paths; all sequences of processing, failing and cleaning up",
  "the hostile combination or failure point has to occur; tests unpack two well-behaved archives",
  ["latex2json/tex_file_extractor.py", "latex2json/tex_reader.py", "latex2json/utils/encoding.py"],
  [("containment", "latex2json/tex_file_extractor.py"), ("main file", "latex2json/tex_file_extractor.py"), ("lifetime", "latex2json/tex_reader.py")],
  "TLA+ machine of archives, extraction and result life cycle (TLC: exhaustive small + simulation), generated archives replayed on the real reader by an unprivileged user in a scratch directory",
  "Extraction, choice of the main file and the number of live directories are invariants of the model; about 4,000 generated archives per quick run, each with up to 4 operations and injected failures, compared with the file system before and after. Links inside the archive and duplicate names that differ in case are not judged.")
P("C14", "A document spread over files reads like the same text in one file",
  "\\input and \\include put the content of the file in place of the command, wherever that stands - preamble, running text, headings and lists, captions, footnotes, styled text, arguments of macros, table rows and cells, formulas -, in any nesting and as often as it is named, whatever the folder, the extension left out or not, blanks and dots in the name. Definitions and redefinitions in a file hold from there on, and those before it hold in it; environments and sections may begin in one file and go on in another. "
  "An \\input in a comment, a false branch or verbatim text reads nothing; a missing file, or one that is being read already, adds nothing and nothing else is lost; what follows an \\endinput line is left out. Letters come out as written whether a file is in UTF-8 (with or without byte order mark), Latin-1 or Windows-1252, whatever its line ends.",
  ["programs", "inputs"], "all documents and all ways of spreading them over files, in mixed encodings",
  "tests read one document with a plain \\input; what gets lost depends on what surrounds the command and what the file defines",
  ["latex2json/parser/tex_parser.py", "latex2json/parser/tex_preprocessor.py", "latex2json/parser/handlers/content_command.py", "latex2json/utils/tex_utils.py", "latex2json/utils/encoding.py", "latex2json/tex_reader.py"],
  [("splicing", "latex2json/parser/tex_preprocessor.py"), ("file lookup, circularity", "latex2json/parser/tex_parser.py"), ("encodings", "latex2json/utils/encoding.py")],
  "TLA+ machine that writes files while reading them (TLC: exhaustive small + simulation), the files replayed on the real reader against the model's output and against the spliced document",
  "That reading the finished files gives what happened while they were written, and equals running the spliced items, are invariants of the model; about 3,500 file sets per quick run. Files named by a macro's argument are only judged without definitions; \\includeonly, \\import, \\subfile and \\input without braces are not judged.")
