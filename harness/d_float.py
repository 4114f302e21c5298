"""Float.tla <-> code: figures, tables, algorithms; pictures, captions, boxes, diagrams."""
import re
from lx import rng_for, parse_build

DEFS = (r"\newcommand{\mypic}[1]{\includegraphics[width=2cm]{#1}}" "\n" r"\newcommand{\bmac}{\mathbf{m}}" "\n"
        r"\def\bfig{\begin{figure}}" "\n" r"\def\efig{\end{figure}}" "\n")
FLOAT = {1: "figure", 2: "figure*", 3: "wrapfigure", 4: "table", 5: "table*", 6: "algorithm", 7: "algorithm*"}
PLACE = ["", "", "[ht]", "[!htbp]", "[H]", "\n\\centering\n", "[t]\\centering "]
PART = {1: [("\\begin{subfigure}%s", "\\end{subfigure}")], 2: [("\\begin{subtable}%s", "\\end{subtable}")],
        3: [("\\begin{minipage}%s", "\\end{minipage}")],
        4: [("\\begin{center}", "\\end{center}"), ("\\begin {center}\n", "\\end {center}")],
        5: [("\\begin{flushleft}", "\\end{flushleft}"), ("\\begin{flushright}", "\\end{flushright}"), ("\\begin{small}", "\\end{small}")],
        6: [("\\subfloat[subz]{", "}"), ("\\subfigure[subz]{", "}"), ("\\subfloat[short][subz]{", "}"), ("\\subfigure[subz] {", "}")],
        7: [("\\subfloat{", "}"), ("\\subfigure{", "}")],
        8: [("{", "}"), ("\\begingroup ", "\\endgroup "), ("\\bgroup ", "\\egroup ")]}
BOX = {1: ["\\fbox{", "\\mbox{", "\\hbox{", "\\fbox {"], 2: ["\\resizebox{2cm}{!}{", "\\resizebox{!}{0.5\\textheight}{"], 3: ["\\scalebox{.5}{", "\\scalebox{.5}[2]{"],
       4: ["\\rotatebox{90}{", "\\rotatebox[origin=c]{90}{"], 5: ["\\parbox{2cm}{", "\\parbox[t]{2cm}{", "\\parbox[t][3cm][b]{2cm}{"],
       6: ["\\raisebox{1pt}{", "\\raisebox{-.5\\height}[2pt]{", "\\raisebox{1pt}[2pt][3pt]{"], 7: ["\\makebox[2cm][c]{", "\\framebox{", "\\framebox[2cm]{", "\\makebox{"],
       8: ["\\colorbox{red}{", "\\fcolorbox{red}{blue}{"], 9: ["\\adjustbox{width=2cm}{", "\\centerline{", "\\vbox{", "\\hbox to 3cm{"]}
CAP = {1: ["\\caption{"], 2: ["\\caption*{"], 3: ["\\caption[short $s$]{", "\\caption[short {[s]}] {"], 4: ["\\subcaption{", "\\caption {"], 5: ["\\captionof{figure}{", "\\captionof{table}{"]}
SIZE = ["", "[width=2cm]", "[width=0.5\\textwidth,height=3cm]", "[scale=.5,angle=90]", "[trim={0 1 2 3},clip]"]
INNER = {"draw": "\\draw[->,red] (0,%d) -- (1,1);", "say": "``w%dq'' `s%d'", "group": "{\\small a%d {b} \\node[x] {$y_2$}; }", "space": "\\quad x\\hspace{1cm} \\noindent%d",
         "amp": "a & b%d", "row": "\\\\ c%d", "mac": "\\bmac %d", "w": "w%dq"}
ALG = {"draw": "\\State $x_{%d}$", "say": "\\Comment{w%dq}", "group": "\\If{a%d}", "space": "\\EndIf %d", "amp": "\\textbf{a%d} \\& b", "row": "\\Return %d",
       "mac": "\\For{$i=1$ \\textbf{to} %d}", "w": "w%dq"}


class Writer:
    def __init__(self, case):
        self.case = case
        self.r = rng_for(case)

    def write(self):
        r = self.r
        out, stack, line = [], [], False
        self.raw = {}
        self.pic2 = r.choice(["picture", "pgfpicture"])
        for i, a in enumerate(self.case["doc"]):
            k, n = a["k"], a["n"]
            gap = r.choice(["", " ", " ", "\n"])
            if line:
                t = {"nl": "\n", "w": "dead ", "pic": "\\includegraphics{dead}", "cap": "\\caption{dead", "endcap": "}", "float": "\\begin{figure}", "endfloat": "\\end{figure}",
                     "endpicture": "\\end{tikzpicture}", "endbox": "}", "pct": "%"}[k]
                gap = ""
                line = k != "nl"
            elif k == "pct":
                t, gap, line = r.choice([" %", "%", "% "]), "", True
            elif k == "nl":
                t, gap = "\n", r.choice(["", "  "])
            elif stack and stack[-1]["k"] in ("picture", "algorithmic", "overlay"):
                if k.startswith("end"):
                    t = stack.pop()["end"]
                elif k == "picture":
                    t = self.picture(n, stack)
                else:
                    table = ALG if stack[-1]["k"] == "algorithmic" else INNER
                    t = table[k].replace("%d", str(n))
                gap = r.choice([" ", "\n", " "])
                self.raw[i] = t
            elif k == "picture":
                t = self.picture(n, stack)
                gap = r.choice([" ", "\n"])
            elif k == "algorithmic":
                t = "\\begin{algorithmic}" + ("[1]" if n == 1 else "")
                stack.append(dict(k=k, end="\\end{algorithmic}"))
                gap = r.choice([" ", "\n"])
            elif k == "overlay":
                t = "\\begin{overpic}%s{over%d.png}" % (r.choice(["", "[width=2cm]", "[grid,tics=5]"]), n)
                stack.append(dict(k=k, end="\\end{overpic}"))
            elif k == "float":
                name = FLOAT[n]
                t, e = "\\begin{%s}" % name, "\\end{%s}" % name
                if name == "wrapfigure":
                    t += r.choice(["{r}{2cm}", "[8]{l}{0.4\\textwidth}"])
                elif name == "figure" and r.random() < .2:
                    t, e = "\\bfig ", "\\efig "
                else:
                    t += r.choice(PLACE)
                stack.append(dict(k=k, end=e))
            elif k == "part":
                t, e = r.choice(PART[n])
                if n == 3:
                    t %= r.choice(["{2cm}", "[t]{0.4\\textwidth}", "[c][3cm][b]{2cm}", "{.5\\linewidth}%\n"])
                elif n in (1, 2):
                    t %= r.choice(["{2cm}", "[t]{0.4\\textwidth}", "[b]{.3\\linewidth}\\centering "])
                stack.append(dict(k=k, end=e))
            elif k == "box":
                t = r.choice(BOX[n])
                stack.append(dict(k=k, end="}"))
            elif k == "cap":
                t = r.choice(CAP[n])
                stack.append(dict(k=k, end="}"))
            elif k == "foot":
                t = "\\footnote{"
                stack.append(dict(k=k, end="}"))
            elif k.startswith("end"):
                t = stack.pop()["end"]
            elif k == "w":
                t, gap = "w%dz" % n, r.choice([" ", "\n"])
            elif k == "pic":
                t = r.choice(["\\includegraphics%s%s{p%d.png}" % (r.choice(["", " "]), r.choice(SIZE), n), "\\mypic{p%d.png}" % n])
            elif k == "page":
                t = "\\includegraphics[%spage=%d%s]{p%d.png}" % (r.choice(["", "width=1cm,", "angle=20, "]), n, r.choice(["", ",clip"]), n)
            elif k == "pdf":
                t = "\\includepdf[%s]{p%d.png}" % (r.choice(["pages={1-%d}", "pages=1-%d", "scale=.5,pages=1-%d"]) % n, n)
            elif k == "math":
                t = "$x_{%d}$" % n
            elif k == "tab":
                t = r.choice(["\\begin{tabular}{c} w%dz \\end{tabular}", "\\begin{tabular}{|l|}\\hline w%dz \\\\ \\hline \\end{tabular}"]) % n
            out.append(t + gap)
        return "\\documentclass{article}\n" + DEFS + "\\begin{document}\n" + "".join(out) + "\n\\end{document}\n"

    def picture(self, n, stack):
        name = "tikzpicture" if n == 1 else self.pic2
        stack.append(dict(k="picture", end="\\end{%s}" % name))
        arg = self.r.choice(["", "[scale=2]"]) if n == 1 else self.r.choice(["(10,%d)" % self.r.randrange(90), ""])
        stack[-1]["arg"] = arg
        return "\\begin{%s}%s" % (name, arg)


def expected(case, w):
    want = []
    for e in case["out"]:
        t, k, n = e["t"], e["k"], e["n"]
        if t == "open":
            want.append(("open", k, str(n) if n else None))
        elif t == "close":
            want.append(("close",))
        elif t == "sub":
            want += [("open", "caption", None), ("w", "subz"), ("close",)]
        elif t == "w":
            want.append({"w": ("w", "w%dz" % n), "tab": ("w", "w%dz" % n), "pic": ("pic", "p%d.png" % n, None), "page": ("pic", "p%d.png" % n, n),
                         "pdf": ("pdf", "p%d.png" % n, "1-%d" % n), "math": ("math", "x_{%d}" % n)}[k])
        elif k == "overlay":
            want.append(("pic", "over%d.png" % n, None))
        else:
            want.append(("raw", k))
    return want


def blocks(case, w):
    """What the raw blocks have in them, in order."""
    out, cur, deep, line = [], None, 0, False
    for i, a in enumerate(case["doc"]):
        k = a["k"]
        if line:
            line = k != "nl"
            continue
        if k == "pct":
            line = True
        elif i in w.raw:
            if k in ("endpicture", "endalgorithmic", "endoverlay"):
                if deep == 0:
                    if k != "endoverlay":
                        out.append(" ".join(" ".join(cur).split()))
                    cur = None
                    continue
                deep -= 1
            elif k == "picture":
                deep += 1
            cur.append(w.raw[i])
        elif k in ("picture", "algorithmic", "overlay"):
            cur, deep = [], 0
    return out


def seen(tokens):
    got, raw = [], []

    def go(t):
        if isinstance(t, list):
            for x in t:
                go(x)
        elif isinstance(t, str):
            go({"type": "text", "content": t})
        elif isinstance(t, dict):
            ty, c = t.get("type"), t.get("content")
            if ty in ("figure", "table", "algorithm", "subfigure", "caption", "footnote"):
                got.append(("open", ty, t.get("numbering")))
                go(c)
                got.append(("close",))
            elif ty in ("includegraphics", "includepdf"):
                got.append(("pic" if ty == "includegraphics" else "pdf", c, t.get("page") if ty == "includegraphics" else t.get("pages")))
            elif ty == "equation":
                got.append(("math", c))
            elif ty == "diagram":
                got.append(("raw", "picture"))
                raw.append(re.sub(r"^(\[scale=2\]|\(10,\d+\))", "", " ".join(c.split())).strip())
            elif ty == "algorithmic":
                got.append(("raw", "algorithmic"))
                raw.append(" ".join(c.split()))
            elif ty == "command":
                got.append(("junk", t.get("command"), c))
            elif ty == "text" and isinstance(c, str):
                for x in c.split():
                    for y in re.findall(r"w\d+z|subz|(?:(?!w\d+z|subz).)+", x):
                        got.append(("w", y))
            else:
                go(t.get("title"))
                go(c)
    go(tokens)
    return got, raw


def check_float(case):
    w = Writer(case)
    tex = w.write()
    got, raw = seen(parse_build(tex))
    want = expected(case, w)
    body = tex[tex.index("\\begin{document}"):]
    for i in range(max(len(got), len(want))):
        g, e = got[i] if i < len(got) else None, want[i] if i < len(want) else None
        if g != e:
            return ["piece %d reads %r, expected %r\n%s" % (i + 1, g, e, body)]
    for g, e in zip(raw, blocks(case, w)):
        if g != e:
            return ["a block reads %r, expected %r\n%s" % (g, e, body)]
    return []
