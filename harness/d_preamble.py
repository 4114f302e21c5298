"""Preamble.tla <-> code: LatexPreamble.get_preamble and get_preamble_from_file."""
import os, re, tempfile
from lx import rng_for
from latex2json.parser.tex_preamble import LatexPreamble

USE = {1: ["\\usepackage{pa}", "\\usepackage{pa,pb}", "\\usepackage\n{pc}"], 2: ["\\usepackage[x=y]{pa}", "\\usepackage [a,b] {pb}", "\\usepackage[\n a,\n b]{pc}"],
       3: ["\\usetikzlibrary{arrows.meta}", "\\usetikzlibrary\n{ab}", "\\usecolortheme [x] {y}", "\\usepgfplotslibrary{fill}", "\\usetheme[a]{b}"], 4: ["\\RequirePackage{pa}", "\\RequirePackage[b]{pc}"]}
DEF = {1: ["\\newcommand{\\%s}{a}", "\\newcommand*\\%s{a}", "\\newcommand{\\%s}[2][x]{#1 {#2}}", "\\newcommand \\%s [1] {b\n#1}", "\\renewcommand{\\%s}{}", "\\providecommand\\%s{a \\%% b}"],
       2: ["\\def\\%s{a}", "\\def\\%s#1{b#1}", "\\def \\%s {a\n{b}}", "\\def\\%s#1.#2;{x#2}", "\\gdef\\%s{a}", "\\edef\\%s{\\a b}", "\\long\\def\\%s#1{a}", "\\xdef\\%s{a}"],
       3: ["\\let\\%s\\b", "\\let\\%s=\\b", "\\let \\%s = \\b", "\\let\\%s=x"],
       4: ["\\newtheorem{%s}{Name}", "\\newtheorem{%s}[x]{Name}", "\\newtheorem{%s}{Name}[section]", "\\newtheorem*{%s}{Name}"],
       5: ["\\newif\\if%s", "\\newcounter{%s}", "\\newlength\\%s", "\\newlength{\\%s}", "\\setlength{\\%s}{2cm}", "\\setcounter{%s}{1}"],
       6: ["\\DeclareMathOperator{\\%s}{op}", "\\DeclareMathOperator*{\\%s}{o\\,p}", "\\DeclareRobustCommand{\\%s}{a}", "\\newcolumntype{%s}{>{a}c}", "\\definecolor{%s}{rgb}{1,0,0}",
           "\\DeclarePairedDelimiter{\\%s}{|}{|}", "\\crefname{%s}{b}{c}", "\\floatname{%s}{Proc}"]}
DOPEN = {1: ["\\newcommand{\\%s}{", "\\newcommand{\\%s}[1]{", "\\newcommand*{\\%s}{"], 2: ["\\def\\%s{", "\\def\\%s#1{", "\\gdef\\%s{", "\\long\\def\\%s#1#2{"], 3: ["\\renewcommand\\%s{", "\\renewcommand{\\%s}[2][b]{"],
         4: ["\\providecommand{\\%s}{", "\\providecommand\\%s[1]{"], 5: ["\\DeclareRobustCommand{\\%s}{", "\\DeclareRobustCommand\\%s{"], 6: ["\\edef\\%s{", "\\xdef\\%s{"]}
OTH = {1: ["\\title{T}", "\\author{Ann \\and Bob}", "\\date{\\today}", "\\title[s]{T \\textbf{x}}"], 2: ["text", "$a_1$", "\\%", "\\\\", "100\\% x", "``q''"],
       3: ["\\geometry{a=b}", "\\pagestyle{empty}", "\\hypersetup{a={b}, c=d}", "\\hyphenation{a-b}"], 4: ["\\theoremstyle{plain}", "\\sloppy", "\\makeatletters", "\\bibliographystyle{plain}", "\\definitely", "\\letters"]}
WOPEN = {1: ["{", "\\begingroup{"], 2: ["\\AtBeginDocument{", "\\AtEndDocument{"], 3: ["\\title{", "\\mbox{\\bf "], 4: ["\\AddToHook{x}{", "\\ifthenelse{a}{"]}
NAME = "abcdefghij"
_P = {}


def name(i):
    return "m" + "".join(NAME[int(c)] for c in str(i))


def bare(s):
    return re.sub(r"\s+", "", s)


def write(case):
    """The text, and what each atom comes to without comments."""
    r = rng_for(case)
    text, clean = [], []
    line = env = False
    for i, a in enumerate(case["doc"], 1):
        k, n = a["k"], a["n"]
        gap = r.choice([" ", "\n", "\n", "  "])
        hidden = line or env
        if line:
            t = {"nl": "\n", "oth": "dead", "close": "}"}.get(k) or r.choice({"def": DEF, "use": USE, "dopen": DOPEN}[k][1] if k in ("def", "use", "dopen") else [k])
            t = {"bgn": "\\begin{document}", "cls": "\\documentclass{x}", "aton": "\\makeatletter", "atoff": "\\makeatother"}.get(t, t).replace("%s", "dead").replace("%%", "%")
            if k != "nl":
                t, gap = t.replace("\n", " "), " "
            else:
                gap = ""
            line = k != "nl"
        elif k == "pct":
            t, gap, line, hidden = r.choice(["%", "% ", "%% "]), "", True, True
        elif env and k != "cend":
            t = {"bgn": "\\begin{document}", "cls": "\\documentclass{x}", "aton": "\\makeatletter", "atoff": "\\makeatother", "close": "}", "def": "\\def\\dead{a}", "use": "\\usepackage{dead}",
                 "dopen": "\\newcommand{\\dead}{"}[k]
        elif k == "cenv":
            t, env, hidden, gap = "\n\\begin{comment}", True, True, "\n"
        elif k == "cend":
            t, env, gap = "\n\\end{comment}", False, "\n"
        elif k == "use":
            t = r.choice(USE[n])
        elif k == "def":
            t = r.choice(DEF[n]) % name(i)
        elif k == "dopen":
            t = r.choice(DOPEN[n]) % name(i)
        elif k == "oth":
            t = r.choice(OTH[n])
        elif k == "wopen":
            t = r.choice(WOPEN[n])
        else:
            t = {"close": "}", "aton": "\\makeatletter", "atoff": "\\makeatother", "bgn": r.choice(["\\begin{document}", "\\begin {document}"]),
                 "cls": r.choice(["\\documentclass{article}", "\\documentclass[a4paper,11pt]{revtex4-2}", "\\documentclass [b] {book}", "\\documentclass{IEEEtran}", "\\documentclass\n[\nb,\nc]{my_class}"])}[k]
        if gap != "" and t[-1] in "{}" and r.random() < .4:
            gap = ""
        text.append(t + gap)
        clean.append("" if hidden else t)
    return "".join(text), clean


def check_preamble(case):
    r = rng_for(case)
    tex, clean = write(case)
    want = [bare("".join(clean[i - 1:j])) for i, j in case["out"]]
    if "p" not in _P:
        _P["p"] = LatexPreamble()
    p = _P["p"]
    if r.random() < .3:
        p.clear()
    if r.random() < .3:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "main.tex")
            with open(f, "w") as h:
                h.write(tex)
            got = p.get_preamble_from_file(r.choice([f, f[:-4]]))
    else:
        got = p.get_preamble(tex)
    if bare(got) != "".join(want):
        return ["preamble %r, expected %r\n%s" % (got, want, tex)]
    lines = [x for x in got.split("\n") if x.strip()]
    # one after the other, each on lines of its own
    for w in want:
        have = ""
        while lines and bare(have) != w:
            have += lines.pop(0)
        if bare(have) != w:
            return ["no line of its own for %r in %r\n%s" % (w, got, tex)]
    again = p.get_preamble("\\documentclass{article}\n" + got + "\\begin{document}\nx\n\\end{document}\n")
    if again != got:
        return ["read again: %r, not %r\n%s" % (again, got, tex)]
    return []
