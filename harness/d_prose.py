"""Prose.tla <-> code."""
import re, unicodedata
from lx import parse_build, rng_for

ACCENT = {"acute": "'", "grave": "`", "uml": '"', "circ": "^", "tilde": "~", "macron": "=", "dot": ".", "cedilla": "c",
          "caron": "v", "breve": "u", "ring": "r", "dacute": "H", "ogonek": "k", "dotbelow": "d", "barbelow": "b"}
ESC = {"percent": ["\\%"], "amp": ["\\&"], "hash": ["\\#"], "dollar": ["\\$"], "under": ["\\_"], "lbrace": ["\\{"], "rbrace": ["\\}"],
       "hat": ["\\^{}"], "tilde": ["\\~{}"]}
UNI = {"eacute": "é", "zhong": "中", "omega": "ω", "emdash": "—", "smile": "😀"}
JUNK = ["{", "}", "\\end{document}", "$", "\\begin{quote}", "\\fi", "\\else", "W99:x;", "\\%", "% %", "100\\%", "\\\\", "''", "\\verb|", "\\def\\x{"]
SILENT = {
    "inline": ["\\noindent{}", "\\relax{}", "\\/", "\\hfill{}", "\\hspace{1cm}", "\\hspace*{-.5em}", "\\centering{}", "\\xspace{}",
               "\\quad{}", "\\,", "\\;", "\\!", "\\kern 2pt{}", "\\kern-.5ex{}", "\\kern 1.5bp{}", "\\hskip 1dd{}", "\\kern.2cc{}", "\\hskip -3mm{}", "\\kern 2in{}", "\\hskip 3pt{}", "\\ignorespaces{}", "\\phantomsection{}", "\\selectfont{}",
               "\\fontsize{10}{12}\\selectfont{}", "\\null{}", "\\allowbreak{}", "\\nopagebreak{}",
               "\\hskip 2pt plus 1fil minus .5pt{}", "\\hskip -1em plus 2 fill{}", "\\nolinebreak[2]", "\\nopagebreak[4]", "\\rule[-1pt]{0pt}{2ex}",
               "\\rule{0pt}{2ex}", "\\protect\\noindent{}", "\\-"],
    "space": ["\\vspace{1cm}", "\\vspace*{-2ex}", "\\bigskip ", "\\medskip ", "\\smallskip ", "\\vfill ", "\\vskip 3pt ", "\\vskip 0.5cm ",
              "\\addlinespace[2pt]", "\\hrule ", "\\hrulefill ", "\\indent ", "\\baselineskip 12pt ",
              "\\vskip 2pt plus 1pt minus 1 pt ", "\\vskip 2.5 pt ", "\\vskip-\\baselineskip "],
    "page": ["\\clearpage ", "\\newpage ", "\\pagebreak ", "\\maketitle ", "\\tableofcontents ", "\\cleardoublepage ", "\\thispagestyle{empty}",
             "\\pagestyle{plain}", "\\pagenumbering{arabic}", "\\enlargethispage{2cm}", "\\FloatBarrier ", "\\sloppy ", "\\linenumbers ",
             "\\allowdisplaybreaks ", "\\onecolumn ", "\\pagebreak[3]", "\\linebreak[1] ", "\\tabcolsep=3pt ", "\\topsep 2pt ",
             "\\labelsep=2pt plus 1pt ", "\\addcontentsline{toc}{section}{X}", "\\bibliographystyle{plain}", "\\printbibliography "],
    "setup": ["\\hypersetup{colorlinks={true},a=b}", "\\setlength{\\parindent}{0pt}", "\\setcounter{page}{3}", "\\addtolength{\\parskip}{2pt}",
              "\\captionsetup[figure]{font={small}}", "\\geometry{margin=1in}", "\\lstset{language=C}", "\\setlist[itemize]{nosep}",
              "\\numberwithin{equation}{section}", "\\definecolor{mine}{rgb}{1,0,0}", "\\newcounter{foo}", "\\date{May {1} 2020}",
              "\\hyphenation{a-b c-d}", "\\tcbset{a={b}}", "\\typeout{x {y}}", "\\linespread{1.2}", "\\counterwithin{figure}{section}",
              "\\newcommand{\\unusedone}{W99:x;}", "\\newif\\ifunused ", "\\makeatletter ", "\\makeatother ", "\\theoremstyle{plain}",
              "\\DeclareMathOperator{\\unusedop}{unused}", "\\newtheorem{unusedthm}{Unused}", "\\usepackage[a=b]{nopackage}", "\\newlength{\\unusedlen}",
              "\\graphicspath{{figs/}}", "\\everymath{a}"][:27],
}
OPEN = {"group": ("{", "}"), "center": ("\\begin{center}", "\\end{center}"), "quote": ("\\begin{quote}", "\\end{quote}"),
        "theorem": ("\\begin{theorem}", "\\end{theorem}"), "item": ("\\begin{itemize}\\item ", "\\end{itemize}"),
        "footnote": ("\\footnote{", "}"), "href": ("\\href{http://l.org/x}{", "}"),
        "mbox": ("\\mbox{", "}"), "fbox": ("\\fbox{", "}"), "makebox": ("\\makebox[2cm][l]{", "}"), "raisebox": ("\\raisebox{2pt}{", "}"),
        "parbox": ("\\parbox[t]{3cm}{", "}"), "framebox": ("\\framebox[3cm]{", "}"), "colorbox": ("\\colorbox{red}{", "}"),
        "scalebox": ("\\scalebox{.5}{", "}"), "text": ("\\text{", "}"),
        "textcolorA": ("\\textcolor{red}{", "}"), "textcolorB": ("\\textcolor[RGB]{1,2,3}{", "}"), "textcolorC": ("\\textcolor{blue!50}{", "}")}
OPENS = {"makebox": ["\\makebox{", "\\makebox[2cm]{", "\\makebox[2cm][l]{", "\\makebox [\\width] [r] {"],
         "framebox": ["\\framebox{", "\\framebox[2cm]{", "\\framebox[2cm][l]{"],
         "raisebox": ["\\raisebox{2pt}{", "\\raisebox{-.5ex}[2pt]{", "\\raisebox{1pt}[2pt][3pt]{"],
         "parbox": ["\\parbox{3cm}{", "\\parbox[t]{3cm}{", "\\parbox[t][2cm]{3cm}{", "\\parbox[t][2cm][c]{.5\\linewidth}{"],
         "colorbox": ["\\colorbox{red}{", "\\fcolorbox{red}{blue}{"],
         "scalebox": ["\\scalebox{.5}{", "\\rotatebox{90}{", "\\resizebox{2cm}{!}{", "\\adjustbox{max width=2cm}{"],
         "fbox": ["\\fbox{", "\\hbox{", "\\vbox{", "\\hbox to 3cm{", "\\fbox {", "\\hbox to \\hsize {"],
         "text": ["\\text{", "\\texorpdfstring{pdf $x$}{"],
         "item": ["\\begin{itemize}\\item ", "\\begin{itemize}[noitemsep]\n\\item\n"],
         "quote": ["\\begin{quote}", "\\begin{quote}\n"], "href": ["\\href{http://l.org/x}{", "\\href {http://l.org/x} {"]}
SWITCH = {"colorA": "\\color{red}", "colorB": "\\color[RGB]{1,2,3}"}


def word(e, r):
    w, i = e["w"], e["id"]
    f = w["form"]
    if f == "plain":
        x = r.random()
        return ("W%d:" + ("x" * 150 if x < r.long else "x\\-x" if x > .95 else "x") + ";") % i
    if f == "accent":
        a, b = ACCENT[w["name"]], w["base"]
        base = {"i!": "\\i", "j!": "\\j"}.get(b, b)
        forms = ["\\%s{%s}" % (a, base), "{\\%s{%s}}" % (a, base)]
        if base == b and not a.isalpha():
            forms += ["\\%s%s" % (a, b), "\\%s %s" % (a, b), "{\\%s%s}" % (a, b)]
        elif base == b:
            forms += ["\\%s %s" % (a, b), "{\\%s %s}" % (a, b)]
        elif not a.isalpha():
            forms += ["\\%s%s " % (a, base), "\\%s%s{}" % (a, base), "{\\%s%s}" % (a, base)]
        mid = r.choice(forms)
        return "W%d:q%sz;" % (i, mid)
    if f == "letter":
        return "W%d:q%sz;" % (i, r.choice(["\\%s{}", "\\%s ", "{\\%s}", "{\\%s{}}"]) % w["name"])
    if f == "symbol":
        return "W%d:q%sz;" % (i, r.choice(["\\%s{}", "{\\%s}", "{\\%s{}}"]) % w["name"])
    if f == "escape":
        return "W%d:q%sz;" % (i, r.choice(ESC[w["name"]]))
    if f == "unicode":
        return "W%d:q%sz;" % (i, UNI[w["name"]])
    if f == "quoted":
        return ("``W%d:x;''" if w["name"] == "double" else "`W%d:x;'") % i
    raise KeyError(f)


def body(w):
    return "".join(map(chr, w))


def render(case, r):
    out = []
    r.long = .9 if r.random() < .3 else .05
    for e in case["doc"]:
        k, v, i = e["k"], e["v"], e["id"]
        if k == "atom":
            if v == "math":
                s = r.choice(["$M%d$", "\\(M%d\\)", "$ M%d $"]) % i
            elif v == "cite":
                s = r.choice(["\\cite{K%d}", "\\citep{K%d}", "\\citet{K%d}"]) % i
            elif v == "ref":
                s = r.choice(["\\ref{R%d}", "\\eqref{R%d}", "\\autoref{R%d}", "\\cref{R%d}"]) % i
            elif v == "url":
                s = "\\url{http://u.org/U%d}" % i
            elif v == "image":
                s = "\\includegraphics[width=1cm]{I%d}" % i
            else:
                s = word(e, r)
        elif k == "white":
            s = {"sp": " ", "nl": "\n", "par": "\n\n", "break": r.choice(["\\\\ ", "\\\\[2pt]\n", "\\newline ", "\\\\\n"]),
                 "comment": " %% %s\n" % r.choice(JUNK), "commentline": "\n%%%s\n" % r.choice(JUNK)}[v]
        elif k == "quiet":
            s = r.choice(SILENT[v])
            if v != "inline":
                s = "\n" + s + "\n" if r.random() < .5 else s
        elif k == "open":
            s = r.choice(OPENS[v]) if v in OPENS else OPEN[v][0] if v in OPEN else "\\%s{" % v
        elif k == "close":
            s = OPEN[v][1] if v in OPEN else "}"
        elif k == "save":
            c = {"plain": "W%d:x;", "bold": "\\textbf{W%d:x;}", "math": "W%d:x;$M%d$"}[e["w"]["name"]]
            c = c % ((i,) * c.count("%"))
            s = r.choice(["\\sbox{\\%s}{%s}", "\\sbox\\%s{%s}", "\\savebox{\\%s}{%s}", "\\savebox{\\%s}[2cm][l]{%s}",
                          "\\setbox\\%s=\\hbox{%s}", "\\setbox\\%s\\hbox{%s}"][:5]) % (v, c)
        elif k == "use":
            s = r.choice(["\\usebox{\\%s}", "\\usebox\\%s{}"]) % v
        elif k == "switch":
            s = SWITCH.get(v, "\\" + v + r.choice([" ", " ", "\n", "{}"][:3]))
        out.append(s)
    return "".join(out)


KIND = {"quote": "quote", "math_env": "theorem", "item": "item", "footnote": "footnote", "url": "href"}
ATOM_RE = re.compile(r"W(\d+):([^;]*);")


class Seen:
    def __init__(self):
        self.atoms, self.left, self.odd = [], [], []
        self.leaf = 0

    def text(self, s, path, styles):
        self.leaf += 1
        pos = 0
        for m in ATOM_RE.finditer(s):
            if s[pos:m.start()].strip(" \t\n'\"‘’“”"):
                self.left.append(s[pos:m.start()])
            self.atoms.append(dict(id=int(m.group(1)), kind="word", text=m.group(2), path=path, styles=styles, leaf=self.leaf,
                                   before=s[pos:m.start()], q=(s[m.start() - 1:m.start()], s[m.end():m.end() + 1])))
            pos = m.end()
        if s[pos:].strip(" \t\n'\"‘’“”"):
            self.left.append(s[pos:])

    def atom(self, kind, s, pat, path, styles):
        m = re.fullmatch(pat, str(s).strip())
        if not m:
            self.odd.append("%s %r" % (kind, s))
            return
        self.leaf += 1
        self.atoms.append(dict(id=int(m.group(1)), kind=kind, path=path, styles=styles, leaf=self.leaf, before="", text=""))

    def walk(self, t, path=(), styles=frozenset()):
        if isinstance(t, str):
            return self.text(t, path, styles)
        if isinstance(t, list):
            for x in t:
                self.walk(x, path, styles)
            return
        ty, c = t.get("type"), t.get("content")
        st = styles | frozenset(t.get("styles") or [])
        if ty == "text":
            self.text(c, path, st)
        elif ty == "equation":
            self.atom("math", c, r"M(\d+)", path, st)
        elif ty == "citation":
            self.atom("cite", ",".join(c), r"K(\d+)", path, st)
        elif ty == "ref":
            self.atom("ref", ",".join(c), r"R(\d+)", path, st)
        elif ty == "includegraphics":
            self.atom("image", c, r"I(\d+)", path, st)
        elif ty == "url" and "title" not in t:
            self.atom("url", c, r"http://u.org/U(\d+)", path, st)
        elif ty == "url":
            if c != "http://l.org/x":
                self.odd.append("link target %r" % c)
            self.walk(t["title"], path + ("href",), st)
        elif ty == "footnote":
            self.walk(c, path + ("footnote",), frozenset())
        elif ty in KIND:
            self.walk(c, path + (KIND[ty],), st)
        elif ty in ("group", "list") or (ty == "environment" and t.get("name") == "center"):
            self.walk(c, path, st)
        else:
            self.odd.append("unexpected %s %r" % (ty, str(t)[:120]))


def observe(case):
    r = rng_for(case)
    tex = render(case, r)
    boxes = sorted({e["v"] for e in case["doc"] if e["k"] == "save"})
    tex = "".join("\\newsavebox{\\%s}%s" % (b, r.choice(["", "\n"])) for b in boxes) + tex
    if r.random() < .4:
        tex = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}" % tex
    out = parse_build(tex)
    s = Seen()
    s.walk(out[0]["content"] if len(out) == 1 and isinstance(out[0], dict) and out[0].get("type") == "document" else out)
    return tex, s, case["out"]


WORD = {"word", "accent", "letter", "symbol", "escape", "unicode", "quoted"}


def order(s, want):
    got = [(a["id"], a["kind"]) for a in s.atoms]
    exp = [(a["id"], "word" if a["a"] in WORD else a["a"]) for a in want]
    return [] if got == exp else ["order of content: got %r, source has %r" % (got, exp)]


def check_text(case):
    tex, s, want = observe(case)
    p = order(s, want)
    if not p:
        for g, w in zip(s.atoms, want):
            if list(g["path"]) != w["path"]:
                p.append("%d stands in %r, in the source in %r" % (g["id"], list(g["path"]), w["path"]))
        for a, g, w in zip(s.atoms, s.atoms[1:], want[1:]):
            if w["sep"] == "white" and a["leaf"] == g["leaf"] and not re.search(r"\s", g["before"]):
                p.append("words %d and %d, separated in the source, are joined" % (a["id"], g["id"]))
    if s.left or s.odd:
        p.append("extra output %r %r" % (s.left[:3], s.odd[:3]))
    return p and p + [tex]


def check_styles(case):
    tex, s, want = observe(case)
    p = order(s, want)
    if not p:
        for g, w in zip(s.atoms, want):
            if g["styles"] != set(w["styles"]):
                p.append("%d has styles %r, in the source %r" % (g["id"], sorted(g["styles"]), sorted(w["styles"])))
    return p and p + [tex]


def check_silent(case):
    tex, s, want = observe(case)
    p = order(s, want)
    ev = {e["id"]: e for e in case["doc"]}
    if not p:
        for g, w in zip(s.atoms, want):
            if g["kind"] != "word":
                continue
            f = ev[w["id"]]["w"]["form"]
            exp = "x" if f in ("plain", "quoted") else unicodedata.normalize("NFC", "q" + body(w["cs"]) + "z")
            if unicodedata.normalize("NFC", g["text"]) != exp and not (f == "plain" and set(g["text"]) == {"x"}):
                p.append("word %d reads %r, should be %r" % (g["id"], g["text"], exp))
            if f == "quoted":
                n = ev[w["id"]]["w"]["name"]
                if n == "double" and not (g["q"][0] in '"“' and g["q"][1] in '"”') or n == "single" and not (g["q"][0] in "'‘" and g["q"][1] in "'’"):
                    p.append("quotes of word %d are %r" % (g["id"], g["q"]))
    if s.left or s.odd:
        p.append("extra output %r %r" % (s.left[:3], s.odd[:3]))
    return p and p + [tex]
