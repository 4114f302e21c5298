"""Cond.tla <-> code."""
import re
from lx import parse_build, rng_for, flat_text, nospace, walk

BOX = {"note": ("\\footnote{", "}"), "bold": ("\\textbf{", "}"), "center": ("\\begin{center}", "\\end{center}"),
       "list": ("\\begin{itemize}\\item ", "\\end{itemize}"), "quote": ("\\begin{quote}", "\\end{quote}"),
       "theorem": ("\\begin{theorem}", "\\end{theorem}"), "group": (" {", "}")}
# a name that is a prefix of another, and names made of letters of \fi, \else
SWITCHES = ["draft", "draftx", "fin", "elsewhere"]
# names that start with a conditional control word
MACROS = ["\\newcommand{\\orcid}[1]{#1}", "\\newcommand{\\fig}[1]{#1}", "\\newcommand{\\elsewise}[1]{#1}"]


def opening(kind, r):
    if kind == "iftrue":
        return "\\iftrue "
    if kind == "iffalse":
        return "\\iffalse" + r.choice([" ", "\n", "{}"])[:1].replace("{", " ")
    if kind == "switch":
        return "\\if" + r.choice(SWITCHES) + r.choice([" ", "\n", " % c\n"])
    if kind == "compare":
        return r.choice(["\\ifnum\\value{page}>3 ", "\\ifnum 3<4 ", "\\ifdim\\textwidth>3pt ", "\\ifx\\undefined\\qqq ",
                         "\\ifx\\qqq\\relax ", "\\ifdefined\\qqq ", "\\ifmmode ", "\\ifodd 3 "])
    if kind == "ifcase":
        return "\\ifcase" + r.choice(["0 ", " 0 ", "\\value{page} ", "\\count1 ", " 2\n"])
    if kind == "ifthenelse":
        return "\\ifthenelse{%s}{" % r.choice(["\\equal{a}{b}", "\\boolean{draft}", "1 > 2", "\\value{page}<3"])
    if kind == "iffile":
        return "\\IfFileExists{nofile.tex}{"
    return BOX[kind][0]


def render(case, r):
    out = []
    used = set()
    for e in case["doc"]:
        k, v, i = e["k"], e["v"], e["id"]
        if k == "txt":
            out.append(r.choice([" W%d. ", "W%d ", "\\emph{W%d} ", " $p \\iff q$ W%d", "W%d \\fbox{x} ", "\\orcid{W%d} ",
                                  "\\fig{W%d}", "\\elsewise{W%d} ", "W%d \\else@x \\fi@x "][:8]) % i)
        elif k == "use":
            out.append(" U%d:\\mm{}; " % i)
        elif k == "def":
            out.append(r.choice(["\\renewcommand{\\mm}{v%d}", "\\def\\mm{v%d}", "\\newcommand\\mm{v%d}\n"]) % e["val"])
        elif k == "toggle":
            out.append("\\%s%s " % (r.choice(SWITCHES), v))
        elif k == "open":
            out.append(opening(v, r))
        elif k == "else":
            out.append("}" + r.choice(["", " ", "\n"]) + "{" if v in ("ifthenelse", "iffile") else "\\else" + r.choice([" ", "\n", " %x\n"]))
        elif k == "or":
            out.append("\\or" + r.choice([" ", "\n", "%x\n", "{}"]))
        elif k == "fi":
            out.append("}" if v in ("ifthenelse", "iffile") else BOX[v][1] if v in BOX else "\\fi" + r.choice([" ", "\n", "{}", " % \\fi\n"]))
    sw = SWITCHES[:]
    r.shuffle(sw)
    head = "".join("\\newif\\if%s%s" % (s, r.choice(["", "\n", " "])) for s in sw)
    head += "\n" + "\n".join(MACROS) + "\n"
    s = head + "".join(out)
    if r.random() < .3:
        s = "\\documentclass{article}\n%s\\begin{document}\n%s\n\\end{document}" % (head, "".join(out))
    return s


def check(case):
    r = rng_for(case)
    tex = render(case, r)
    out = parse_build(tex)
    flat = nospace(flat_text(out))
    got = re.findall(r"W(\d+)|U(\d+):(.*?);", flat)
    got = [(int(a), 0) if a else (int(b), c) for a, b, c in got]
    want = [(s["id"], "v%d" % s["val"] if s["val"] else 0) for s in case["seen"]]
    probs = []
    if got != want:
        probs.append("visible %r, selected branches contain %r" % (got, want))
    stray = []
    walk(out, lambda t, p: stray.append(t.get("command") or t.get("content")) if t.get("type") == "command" and re.match(
        r"\\(if|else|fi|or\b|draft|fin|elsewhere)", str(t.get("command"))) and t.get("command") != "\\iff" else None)
    if stray:
        probs.append("conditional control words leaked: %r" % stray[:4])
    if "\\else" in flat or "\\fi" in re.sub(r"\\fbox", "", flat):
        probs.append("conditional control words in text")
    return probs and probs + [tex]
