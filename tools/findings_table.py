KNOWN = []
FIXED = [
 ("C01", "nest subparagraphs", "\\paragraph then \\subparagraph below a section came out as siblings"),
 ("C02", "number parts and deep", "KeyError on \\part / \\subsubsubsection: the whole document was lost"),
 ("C01", "accept the optional short title", "\\section[short]{long} was not recognised as a heading"),
 ("C02", "keep theorem numbers unique", "\\section* reset the theorem counter: two theorems with the same number"),
 ("C02", "number appendix theorems", "theorems in the appendix were numbered 1.1 instead of A.1"),
 ("C03", "\\let takes a single control sequence", "\\let\\a\\b x swallowed what followed"),
 ("C03", "\\let copies macros with arguments", "\\let of a macro with arguments lost its arguments; redefining a \\let name had no effect"),
 ("C03", "mutually recursive macros no longer hang", "definition cycles (\\a -> \\b -> \\a, \\def\\a{x\\a}) hung the converter; \\let swaps and wrappers of primitives looped or collapsed"),
 ("C03", "macros are expanded with the definition in force", "math and macros with arguments saw the last definition of the file; \\providecommand overrode"),
 ("C03", "\\def arguments with nested braces", "\\def arguments with two levels of braces or an unbraced control sequence were cut; \\xdef did not expand"),
 ("C03", "detect definition cycles that pass arguments", "definition cycles through macros with arguments hung"),
 ("C03", "\\edef and \\let of macros with arguments", "\\edef/\\let over macros with arguments took the wrong meaning"),
 ("C04", "\\iff is not a conditional", "\\iff opened a conditional; switch names that are prefixes of one another were confused; \\IfFileExists kept both branches"),
 ("C03", "a control word at the end of an expansion", "a definition ending in a control word merged with the letters after its use"),
 ("C04", "conditionals with braced branches", "\\ifthenelse & co. inside \\if..\\fi consumed the \\fi of the enclosing conditional"),
 ("C04", "\\ifcase takes its number only", "\\ifcase swallowed the token after its number (\\fi, \\or), and a macro such as \\orcid inside a conditional started a new case"),
 ("C05", "white space before and inside brace groups", "words around groups, boxes and accented letters were joined"),
 ("C07", "a control word for a letter joins", "\\o\\ss{} with spaces: letters after a control word for a letter stood apart"),
 ("C05", "preprocessing keeps \\textbackslash", "the output of \\textbackslash / \\ensuremath was spliced into the source and parsed again"),
 ("C07", "accents without a base letter", "\\^{} and \\~{} gave dangling combining accents; \\'\\i was not recognised"),
 ("C06", "a repeated legacy font switch", "any switch whose name ends another was taken for its repetition and dropped"),
 ("C07", "a grave accent is not the opening", "a grave accent after a quote was read as an opening quotation mark"),
 ("C05", "brace groups directly after text", "word{group} left its braces in the output"),
 ("C05", "white space around commands without output", "words around silent commands and in nested groups were joined"),
 ("C05", "saved boxes are not changed", "using a saved box changed it for later uses; \\savebox options leaked; \\mbox lost citations, formulas and styles"),
 ("C02", "\\newtheorem* declares", "\\newtheorem*{x}{X} was not read as a declaration: its arguments became text and the environment came out numbered"),
 ("C09", "labels after a footnote", "\\label after a footnote attached to the footnote instead of the section or environment"),
 ("C08", "content before the first item", "text between \\begin{itemize} and the first \\item made the whole document fail to convert"),
 ("C08", "subtable takes its width", "\\begin{subtable}{width} put the width into the text"),
 ("C08", "item labels end at", "\\item[{[a]}] / \\item[$x_{[1]}$] was cut at the first bracket"),
 ("C08", "items that consist of a label", "\\item[label] without body was dropped"),
 ("C08", "a bracket at the start", "\\item then [text], quote and center environments starting with a bracket lost that text as options"),
 ("C05", "text after a quotation keeps", "\\textbf{``a''} \\textbf{b} came out as one word"),
 ("C10", "code and URLs are kept", "% in verbatim, \\verb, lstlisting and URLs started a comment; macros, quotes and braces in code were interpreted"),
 ("C07", "\\protect does not drop", "\\protect\\textbf{x} / \\protect\\cite{k} lost the command and its arguments"),
 ("C09", "starred citations", "\\citet*{k} and notes such as [{[sic]}] were not recognised; \\hyperref without a bracket crashed the conversion"),
 ("C09", "tildes written as commands", "\\url{x/\\~{}u} came out with a combining tilde and braces"),
 ("C07", "soft hyphens, glue", "\\- inside words, `plus 1fil` after \\hskip, [n] after \\pagebreak, \\rule[..] and \\tabcolsep values showed in the text"),
 ("C07", "\\protect before a silent", "\\protect\\noindent left a \\protect token"),
 ("C05", "adjoining quotations", "`a'``b'' at the end of styled text joined with the next"),
 ("C09", "dump tokens by their own class", "the link text of references, notes of citations, item labels and equation placeholders lost their formulas, links and styles in the JSON"),
 ("C08", "keep the title of environments", "\\newtheorem{fact}{Fact} \\begin{fact}[Euler] lost its title"),
 ("C09", "keep labels and styles of tables", "labels and styles of tabulars and bibliographies were dropped by the builder"),
 ("C10", "keep \\verb code with a hash sign", "\\verb|#1 \\foo| outside definitions had its macros expanded and quotes changed"),
 ("C09", "keep the labels of merged texts", "a label attached to running text was lost when that text was merged with its neighbour"),
 ("C11", "tables keep spans, nested tables", "\\multirow[t]{2}{*}{x} and \\multirow{2}*{x} became text; text beside \\makecell, spans in styles and nested tables, {a} at the start of a table were lost; \\endhead and \\tabularnewline did not end rows"),
 ("C11", "read the starred line break", "\\\\*[2pt] left *[2pt] in the text"),
 ("C11", "keep escaped characters and spans in groups", "{\\& a} in a table cell split the cell; {5\\%} cut the rest of the row"),
 ("C11", "escaped braces at the end of text", "\\{ before a table or braces came out as a backslash, and in a cell swallowed the separators after it"),
 ("C12", "keep saved boxes and citation aliases", "\\citetalias{k} in a new parser yielded the alias another parser had read; \\usebox likewise"),
 ("C13", "extract no links from archives", "a tar archive with a link leading out and a file below it wrote outside of the temporary directory"),
 ("C13", "extract files with two dots", "a..b.tex was left out of archives"),
 ("C13", "remove the temporary directory when", "process() of an archive without main file left its temporary directory behind"),
 ("C13", "cleanup of a result whose", "cleanup() after process_compressed(.., cleanup=True) raised FileNotFoundError"),
 ("C13", "choose the main file regardless", "of two main files the one listed first by the file system was taken"),
 ("C14", "keep the text of files that are not encoded in utf-8", "letters of a Latin-1 file came out as U+FFFD"),
 ("C14", "read bibliography files in their own", "bibliography files were read in the locale's encoding"),
 ("C14", "put input files in place, once", "\\newcommand{\\x}{A} \\input{f} \\x with f redefining \\x gave A; $a \\input{w}$ failed; rows of an \\input in a table ran together; a file naming itself was repeated 100 times"),
 ("C14", "leave out what follows an endinput", "text after \\endinput was kept"),
 ("C14", "a file can be put in place again", "a file named twice was taken for circular (defect of the previous repair)"),
 ("C10", "leave out comment environments before", "definitions in a comment environment took effect, an open verbatim in it swallowed what followed"),
 ("C10", "percent signs and code in comment", "an open verbatim in a comment environment kept later comments"),
 ("C15", "BibTeX entries are scanned as BibTeX", "values with # or @string names, nested quotes, @( .. ), numbers before a comma, @comment and names such as date-added were lost or cut"),
 ("C15", "a bibitem list with @ in it", "a .bbl file with an e-mail address was read as BibTeX; % in a value cut the rest of the line"),
 ("C15", "bibitem labels nest", "\\bibitem[{[a]}]{k} cut the label; of two environments in a file only the first was read"),
 ("C15", "bibdiv values keep the braces", "\\url{..} and \\mathbb{R} in values lost their braces; \\bib* and records without fields were left out"),
 ("C15", "compiled BibTeX keeps every author", "authors with braces in their names, accented initials, and \\verb values other than doi were lost"),
 ("C15", "the .bbl file used in place", "of several .bbl files the one listed first by the file system was taken"),
 ("C04", "a group that is never closed, or any construct", "an exception in one handler ended the conversion"),
 ("C04", "an argument that is never closed", "\\textbf{ without } lost the rest of the document"),
 ("C03", "names of counters, lengths, switches", "\\newcounter{a+b} and \\let\\x=* raised re.error or matched other names"),
 ("C03", "a control word ends before a digit", "\\foo1 was read as a macro named foo1"),
 ("C03", "a control word is read to its last letter", "\\newcommandx and the like were read as the shorter command"),
 ("C04", "a conditional's name ends with its letters", "\\iffalse1\\else2\\fi and \\ifmmode1 were no conditionals"),
 ("C15", "databases read one after the other", "an @string of the first file was unknown in the second"),
 ("C15", "the next entry is no citation key", "@article{ followed by @book{k,.. lost the second entry"),
 ("C15", "definitions before the first bibitem", "\\def and \\providecommand before the first item had no effect in the items; \\providecommand{\\href}.. replaced \\href"),
 ("C15", "the argument of a bibliography environment", "{99} of the second list in a file was added to the last item of the first"),
 ("C16", "escaped characters end no formula", "$a \\$ b$ and \\[ \\\\[2pt] \\] ended early; displaymath and math were no formulas; \\mbox{if $x$} lost its box, so text was read as math; unbalanced formulas lost their content"),
 ("C16", "primes in formulas are no closing quotes", "``a $x''$ b'' closed the quote in the formula"),
 ("C16", "macros can end a formula", "\\be a \\quad b \\ee text \\begin{equation} c \\end{equation} was one formula, spacing in it was lost; \\newcommand{\\eq}[1]{\\be #1 \\ee} gave no formula"),
 ("C17", "options of boxes and minipages", "\\scalebox{.5}[2]{..}, \\rotatebox[origin=c]{90}{..} and minipages with three options left their options in the text; \\subfloat{..} without caption was an unknown command"),
 ("C17", "diagrams are kept as written", "macros, spaces and quotes in tikzpicture and picture were changed before the diagram was taken"),
 ("C17", "empty algorithms, tables without columns", "an empty algorithm, a tabular without column spec, a label alone in a cell or a caption in a formula made the whole conversion fail"),
 ("C18", "arguments left open, headings in formulas", "\\ensuremath{ without } and \\section in a formula made the whole conversion fail; \\ifthenelse{ took a brace; an open \\begingroup moved an item"),
 ("C19", "a line break before the word and separates", "\\\\and split an author; options of \\email and \\address were not left out; keywords were not parsed"),
 ("C20", "the preamble ends at the document", "\\begin{document} in a comment, a definition or a comment environment ended the preamble; commented-out commands were kept"),
 ("C20", "a name given by let ends before", "\\let\\x=a before a definition took the name x=a and swallowed the next command"),
 ("C21", "blanks before the star, options and arguments", "\\section *{..}, \\footnote [2]{..}, \\newtheorem {..} {..}, \\setlength {..}{..}, \\citep[..] [..]{..} and twenty more were taken for unknown commands; \\allowdisplaybreaks[1] left its option"),
 ("C22", "compiled BibTeX keeps editors, publishers", "of .bbl files of biblatex only the authors were read: editors, translators, publishers and other lists were lost; \\bibnamedelima was kept in names; sortinit, labelalpha etc. were listed as fields"),
 ("C05", "a space after a quotation that follows punctuation", "the blank after a bold quotation that follows a punctuation mark was lost: ;`b;' and the next word were joined"),
 ("C23", "loops end with their body", "\\foreach and \\forloop took what followed them on the line, or left their bodies in the text"),
 ("C23", "starred forms told apart by commands", "\\@ifstar\\a\\b, a star after a blank, code before \\@ifstar: the star was left or the wrong form taken"),
 ("C23", "a branch of switches made with etoolbox is kept", "\\ifbool, \\notbool, \\iftoggle, \\nottoggle lost both branches"),
 ("C23", "assignments to token lists with an equals sign", "\\tk={..} left its value in the text"),
 ("C23", "paired delimiters of a given size", "\\abs[\\big]{x} was left as it stands"),
 ("C23", "commands whose names are put together", "\\csname x\\endcsname and \\@nameuse{x} of \\newcommand-defined macros, \\expandafter\\newcommand, macros in names were not understood"),
 ("C24", "style files end at", "\\endinput in style files was not heeded, \\IfFileExists took its first branch whatever files there are, \\input{x.tex} looked for x.tex.sty, and names were not looked up from the document's folder"),
 ("C24", "classes and packages loaded with options", "\\LoadClassWithOptions, \\RequirePackageWithOptions and \\documentstyle (and the style files in its options) were not read"),
 ("C24", "what stands before the class", "packages, inputs and definitions before \\documentclass were lost, and a \\documentclass in a listing cut the document"),
 ("C02", "numbers in merged proofs", "with merge_proof_environments, equations and theorems within proofs got no numbers and took none, and lists no depth"),
 ("C03", "names of commands that end in an at sign", "a macro \\x@ was taken for the beginning of \\x@y, and \\x@ defined by way of \\x@y was not expanded"),
]
