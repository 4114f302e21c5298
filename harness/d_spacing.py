"""Spacing.tla <-> code: a text and the same without what separates are converted alike."""
import json, re
from lx import parse_build, rng_for

# of each signature: the command, its options, its arguments (those without a text)
CMD = {
    1: [(c, [], []) for c in ["textbf", "emph", "texttt", "underline", "mbox", "fbox", "textsuperscript", "footnote", "textit", "textsc", "textrm", "hphantom", "phantom", "thanks", "subcaption",
                              "centerline", "textsubscript", "uppercase"] ],
    2: [("footnote", ["2"], []), ("footnotetext", ["2"], []), ("makebox", ["2cm"], []), ("framebox", ["2cm"], []), ("caption", ["s"], []), ("subfloat", ["c"], [])],
    3: [(c, [], ["l"]) for c in ["ref", "autoref", "cref", "Cref", "eqref", "pageref"]] + [("hspace", [], ["2cm"]), ("vspace", [], ["2cm"]), ("captionsetup", [], ["a=b"])],
    4: [(c, ["see", "p. 1"], ["k"]) for c in ["cite", "citep", "citet", "citealt", "citealp", "citeauthor"]] + [("citep", ["see"], ["k, m"])],
    5: [("textcolor", [], ["red"]), ("href", [], ["http://a.b/c"]), ("colorbox", [], ["red"]), ("raisebox", [], ["1pt"]), ("scalebox", [], [".5"]), ("rotatebox", [], ["90"]), ("captionof", [], ["figure"])],
    6: [("textcolor", ["rgb"], ["1,0,0"]), ("parbox", ["t"], ["2cm"]), ("rotatebox", ["origin=c"], ["90"])],
    7: [("makebox", ["2cm", "c"], []), ("framebox", ["2cm", "l"], [])],
    8: [("fcolorbox", [], ["red", "blue"]), ("resizebox", [], ["2cm", "!"])],
    9: [("footnotemark", ["2"], []), ("allowdisplaybreaks", ["1"], []), ("linebreak", ["1"], []), ("pagebreak", ["2"], [])],
    10: [(c, [], []) for c in ["large", "small", "bf", "itshape", "noindent", "centering", "quad", "hfill", "maketitle", "tableofcontents", "newpage", "selectfont", "bfseries", "par", "clearpage"]],
    11: [("url", [], ["http://a.b/c"]), ("pagestyle", [], ["empty"]), ("thispagestyle", [], ["empty"]), ("bibliographystyle", [], ["plain"]), ("label", [], ["l%d"]), ("ref", [], ["l"]), ("cite", [], ["k"]),
         ("linespread", [], ["2"]), ("graphicspath", [], ["{a/}"]), ("hypersetup", [], ["a={b}"]), ("color", [], ["red"]), ("vspace", [], ["2cm"]), ("newcounter", [], ["cc"]), ("includegraphics", [], ["f.png"]),
         ("doi", [], ["10.1/a"]), ("date", [], ["d"]), ("geometry", [], ["a=b"]), ("lstset", [], ["a=b"]), ("mathtoolsset", [], ["a=b"]), ("pagenumbering", [], ["arabic"]), ("theoremstyle", [], ["plain"]), ("hyphenation", [], ["a-b"]),
         ("newboolean", [], ["bb"]), ("stepcounter", [], ["page"]), ("tcbset", [], ["a=b"]), ("usetikzlibrary", [], ["a"]), ("pdfinfo", [], ["a"]), ("bibliography", [], ["nofile"]), ("newlength", [], ["\\lq%d"])],
    12: [("includegraphics", ["width=2cm"], ["f.png"]), ("usepackage", ["x"], ["a"]), ("captionsetup", ["f"], ["a=b"]), ("hyperref", ["l"], ["W"]), ("cite", ["p. 1"], ["k"]), ("RequirePackage", ["x"], ["a"]),
         ("setlist", ["itemize"], ["a=b"]), ("includepdf", ["pages=1"], ["f.pdf"])],
    13: [("setlength", [], ["\\parskip", "2pt"]), ("addtolength", [], ["\\parskip", "2pt"]), ("setcounter", [], ["page", "1"]), ("numberwithin", [], ["equation", "section"]), ("rule", [], ["2pt", "3pt"]),
         ("fontsize", [], ["2", "3"]), ("newcommand", [], ["\\mc%d", "z"]), ("floatname", [], ["algorithm", "P"]), ("addtocontents", [], ["toc", "x"]), ("defcitealias", [], ["k", "x"]), ("newcolumntype", [], ["C", ">{a}c"]), ("counterwithin", [], ["figure", "section"]),
         ("settowidth", [], ["\\parindent", "x"]), ("crefname", [], ["x", "y"])],
    14: [("definecolor", [], ["cc", "rgb", "1,0,0"]), ("addcontentsline", [], ["toc", "section", "V"]), ("crefname", [], ["a", "b", "c"]), ("ifthenelse", [], ["a", "V", "W"])],
    15: [(c, ["s"], []) for c in ["section", "subsection", "subsubsection", "paragraph", "subparagraph", "chapter", "part", "caption"]],
    16: [(c, ["1"], ["\\mc%d", "z#1"]) for c in ["newcommand", "renewcommand", "DeclareRobustCommand"]],
    17: [(c, ["2", "d", "e"], ["\\mc%d", "#1z{#2}", "W"]) for c in ["newcommand", "providecommand"]],
    18: [("newtheorem", ["x", "section"], ["tq", "Name"])],
    19: [("texorpdfstring", [], [])],
    26: [("rule", ["1pt"], ["2pt", "3pt"]), ("pdfbookmark", ["1"], ["a", "b"])],
    27: [("newcommand", [], ["\\mc%d", "z"]), ("renewcommand", [], ["\\mc%d", "z"]), ("DeclareMathOperator", [], ["\\mc%d", "op"])],
    28: [("title", ["s"], []), ("author", ["s"], []), ("affil", ["1"], []), ("email", ["a"], []), ("address", ["a"], [])],
    29: [(c, [], []) for c in ["title", "author", "affil", "affiliation", "email", "address", "keywords", "thanks"]],
    30: [(c, ["1"], ["fn%d", "A#1", "B"]) for c in ["newenvironment", "renewenvironment"]],
    31: [("begin", [], ["fo", "x"])],
    24: [("item", [], [])], 25: [("item", ["W"], [])],
    20: [("begin", [], [e]) for e in ["quote", "center", "flushleft", "theorem", "proof", "abstract", "figure*", "tq"]],
    21: [("begin", [o], [e]) for e, o in [("theorem", "W"), ("lemma", "W"), ("figure", "h"), ("table", "t"), ("proof", "P"), ("figure*", "h"), ("tq", "V")]],
    22: [("begin", [o], a) for o, a in [("t", ["minipage", "2cm"]), ("b", ["subfigure", "2cm"]), ("t", ["subtable", "2cm"])]],
    23: [("begin", [o], [e]) for e, o in [("itemize", "a"), ("enumerate", "(i)"), ("description", "x")]],
}
DEFS = "\\newenvironment{fo}[1]{q#1}{r}"
HIDES = {"phantom", "hphantom", "texorpdfstring", "thanks"}
JUNK = ["", " c", "}", "{ ", " \\section{x}", "[", "]", " 50\\% %", "\\", " $", "*", "\\end{document}"]


def write(case):
    r = rng_for(case)
    text, base = [], []
    stack, words, hidden = [], [], False
    t = case["txt"]

    def put(s, both=True):
        text.append(s)
        if both:
            base.append(s)

    def top():
        return next(x for x in reversed(stack) if x != "T")

    i = 0
    while i < len(t):
        c, n, g = t[i]["c"], t[i]["n"], t[i]["g"]
        if g:
            put({" ": r.choice([" ", " ", "\t"]), "/": "\n", "%": "%" + r.choice(JUNK) + "\n"}[c], False)
        elif c == "x":
            words.append("w%dq" % i)
            put(words[-1])
        elif c == " ":
            put(" ")
        elif c == "*":
            put("*")
        elif c == "c" and n == 0:
            while stack[-1] == "T" or "env" not in stack[-1]:
                stack.pop()
            e = stack.pop()["env"]
            stack.append(dict(opts=[], args=[e]))
            put("\\end")
        elif c == "c" and n == 99:
            put(top()["name"])
        elif c == "c":
            cmd, opts, args = r.choice(CMD[n])
            hidden = hidden or cmd in HIDES
            fill = lambda s: s % "abcdefghij"[i % 10] if n == 0 else s.replace("%d", "".join("abcdefghij"[int(d)] for d in str(i)))
            x = dict(opts=list(opts), args=[fill(a) for a in args])
            if cmd == "begin":
                x["env"] = x["args"][0]
            x["name"] = x["args"][0] if x["args"] else ""
            stack.append(x)
            put("\\" + cmd)
        elif c == "[":
            o = top()["opts"]
            put("[%s]" % (o.pop(0) if o else "y"))
            i += 1
        elif c == "{" and t[i + 1]["c"] == "}":
            put("{%s}" % top()["args"].pop(0))
            i += 1
        elif c == "{":
            stack.append("T")
            put("{")
        elif c == "}":
            while stack.pop() != "T":
                pass
            put("}")
        i += 1
    return "".join(text), "".join(base), [] if hidden else words


def squeeze(x, blank):
    if isinstance(x, dict):
        return {k: squeeze(v, blank) for k, v in x.items()}
    # (nothing is "" or [])
    return [squeeze(v, blank) for v in x] or "" if isinstance(x, list) else blank.join(x.split()) if isinstance(x, str) else x


def strings(x):
    if isinstance(x, dict):
        if x.get("type") == "text":
            yield x["content"]
        for v in x.values():
            yield from strings(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings(v)


def check_spacing(case):
    text, base, words = write(case)
    r = rng_for(case)
    if r.random() < .3:
        wrap = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n"
        text, base = wrap % text, wrap % base
    # white space is white space, and looked at in short texts only: that at the end of a
    # box is not kept
    blank = " " if sum(x["c"] in "cx" for x in case["txt"]) < 4 else ""
    text, base = (DEFS + x for x in (text, base))
    b, v = (json.dumps(squeeze(parse_build(x), blank)) for x in (base, text))
    if v != b:
        return ["%s\n of %r, but %s\n of %r" % (v, text, b, base)]
    bad = []
    if '"type": "command"' in b:
        bad.append("unknown command in %s\n%r" % (b, base))
    for s in strings(json.loads(b)):
        if re.search(r"[][{}*]", s):
            bad.append("%r in %s\n%r" % (s, b, base))
    for w in words:
        if b.count(w) != 1:
            bad.append("%s is there %d times in %s\n%r" % (w, b.count(w), b, base))
    return bad[:1]
