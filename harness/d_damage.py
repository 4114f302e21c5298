"""Damage.tla <-> code: documents in which things are not closed, not opened, or overlap, or that end anywhere."""
import json
import re
from lx import rng_for, parse_build

ENV = {1: "quote", 2: "center", 3: "figure", 4: "theorem", 5: "proof", 6: "foo", 7: "minipage", 8: "abstract", 9: "itemize", 10: "tabular",
       11: "table", 12: "subfigure", 13: "small", 14: "flushright", 15: "lemma*"}
ARG = {7: ["{2cm}", "[t]{2cm}"], 12: ["{2cm}", "[b]{.5\\textwidth}"], 10: ["{c}", "{|l|}"], 3: ["", "[ht]"], 11: ["", "[!h]"], 9: ["\\item", "\n \\item"]}
CMD = {20: "{", 21: "\\textbf{", 22: "\\emph{", 23: "\\footnote{", 24: "\\caption{", 25: "\\section{", 26: "\\fbox{", 27: "\\href{http://u.org}{",
       28: "\\textcolor{red}{", 29: "\\parbox{2cm}{", 30: "\\underline{", 31: "\\mbox{", 32: "\\title{", 33: "\\paragraph{"}
TYPE = {1: "quote", 3: "figure", 4: "math_env", 5: "math_env", 6: "environment", 8: "abstract", 9: "list", 10: "tabular", 11: "table", 12: "subfigure",
        15: "math_env", 23: "footnote", 24: "caption", 25: "section", 27: "url", 32: "title", 33: "paragraph"}
STYLE = {21: "bold", 22: "italic", 28: "color=red", 30: "underline"}
HEADS = ("section", "paragraph")
MATH = [("\\(", "\\)"), ("\\[", "\\]"), ("$", "$"), ("$$", "$$"), ("\\begin{equation}", "\\end{equation}"), ("\\begin{align*}", "\\end{align*}")]
ESC = ["\\{", "\\}", "\\%", "\\& ", "\\\\", "\\$"]
HID = ["%% }\n", "%% \\end{quote} \\textbf{\n", "%% {{ \\begin{center}\n", "%%\n", "%% \\endgroup $\n"]
CUTS = (list(CMD.values()) + ["\\begin{%s}" % x for x in ENV.values()] +
        ["\\ensuremath{a}", "\\cite{ab}", "\\includegraphics[a]{b}", "\\verb|a|", "$a$", "\\label{a}", "\\newcommand{\\a}[1]{x}", "\\def\\a#1{b}", "\\[ x \\]", "\\bibitem[a]{b}",
         "\\input{a}", "\\usepackage[a]{b}", "\\author{a}", "\\'{e}", "\\item[a] ", "\\multirow{2}{*}{a}", "\\footnotetext[2]{a}", "\\color{red}",
         "\\newenvironment{a}{b}{c}", "\\newtheorem{a}{b}[c]", "\\setcounter{a}{2}", "``a''", "\\ifx\\a\\b c\\fi", "\\let\\a=\\b", "\\csname a\\endcsname",
         "\\begin{verbatim}a\\end{verbatim}", "% a", "\\caption[a]{b}", "\\cref{a,b}", "\\multicolumn{2}{c}{a}", "\\begin{equation} a \\end{equation}",
         "\\begin{lstlisting} a \\end{lstlisting}", "\\bibliography{a}", "\\documentclass[a]{b}", "\\title{a}", "\\date{a}", "\\sbox{\\a}{b}", "\\ifthenelse{a}{b}{c}",
         "\\begin{tikzpicture} a \\end{tikzpicture}", "\\begin{comment} a \\end{comment}", "\\hspace*{2cm}", "\\setlength{\\a}{2cm}", "\\definecolor{a}{rgb}{1,0,0}",
         "\\begin{thebibliography}{9} \\bibitem{b} \\end{thebibliography}", "\\appendix", "\\captionof{figure}{a}", "\\subfloat[a]{b}", "\\foreach \\x in {1,2} {a}"])


def write(case):
    r = rng_for(case)
    out = []
    orphans = 0
    for i, a in enumerate(case["doc"], 1):
        k, n = a["k"], a["n"]
        gap = r.choice([" ", " ", " ", "\n", "\n", "\n\n"])
        if k == "w":
            t = "w%dq" % n
        elif k == "math":
            t = "%s w%dq %s" % ((lambda d: (d[0], n, d[1]))(r.choice(MATH)))
        elif k == "esc":
            t = r.choice(ESC)
        elif k == "verb":
            t = r.choice(["\\verb|}|", "\\verb+{ \\end{quote}+", "\\verb!\\begin{center}!"])
        elif k == "hid":
            t, gap = r.choice(HID).replace("%%", "%"), ""
        elif k == "open":
            # of lists that do not end only one has an item, for that ends with the next, also within braces
            alone = n == 9 and i in case["lost"]
            orphans += alone
            t = "\\begin{itemize}" if alone and orphans > 1 else CMD[n] if n in CMD else "\\begingroup" if n == 40 else "\\begin{%s}%s" % (ENV[n], r.choice(ARG.get(n, [""])))
        elif k == "close":
            t = "}" if n == 20 else "\\endgroup" if n == 40 else r.choice(["\\end{%s}", "\\end{%s}", "\\end {%s}", "\\end  {%s}", "\\end\n{%s}"]) % ENV[n]
        else:
            c = r.choice(CUTS)
            t, gap = c[:r.randint(0, len(c) - 1)], r.choice(["", "", "\n"])
        out.append(t + gap)
    text = "".join(out)
    form = r.randrange(3)
    if form == 0:
        return text, r.random() < .5
    cut = case["doc"][-1]["k"] == "cut"
    return "\\documentclass{article}\n\\begin{document}\n" + text + ("" if cut else "\n\\end{document}\n"), True


def seen(t, st=frozenset()):
    if isinstance(t, list):
        return [e for x in t for e in seen(x, st)]
    if isinstance(t, str):
        t = {"type": "text", "content": t}
    ty, c = t.get("type"), t.get("content")
    around, st = st, st | set(t.get("styles") or [])
    if ty == "command":
        # nothing is hidden in what is not known
        return [("hidden", x) for x in re.findall(r"w\d+q", json.dumps(t))]
    if ty == "text":
        return [("w", int(x), tuple(sorted(st))) for x in re.findall(r"w(\d+)q", c)]
    if ty == "equation":
        return [("math", int(x), tuple(sorted(st))) for x in re.findall(r"w(\d+)q", c)]
    if ty in ("document", "group", "item", "code"):
        return seen(c or [], st)
    if ty in HEADS:
        # what follows a heading is not part of it
        return [("open", ty)] + seen(t["title"], st) + [("close",)] + seen(c or [], around)
    if isinstance(c, dict):
        c = [c]
    return [("open", ty)] + seen(t.get("title") or [], st) + seen(c or [], st) + [("close",)]


def cells(t):
    """Cells of tables are lists or None or have content of their own."""
    if isinstance(t, list):
        return [cells(x) for x in t if x is not None]
    if isinstance(t, dict):
        d = {k: cells(v) for k, v in t.items()}
        return d if "type" in d else d.get("content") or []
    return t


def check_damage(case):
    tex, pre = write(case)
    toks = parse_build(tex, preprocess=pre)
    got = seen(cells(json.loads(json.dumps(toks))))
    want = []
    for e in case["out"]:
        if e["t"] == "open":
            want.append(("open", TYPE[e["n"]]))
        elif e["t"] == "close":
            want.append(("close",))
        else:
            want.append((e["t"], e["n"], tuple(sorted(STYLE[s] for s in e["s"]))))
    # what is cut off at the end may still give something, but no word
    tail = [g for g in got[len(want):] if g[0] in ("w", "math", "hidden")]
    for i, e in enumerate(want):
        if i >= len(got) or got[i] != e:
            return ["piece %d reads %r, expected %r\n%s" % (i + 1, got[i] if i < len(got) else None, e, tex)]
    if tail or (len(got) > len(want) and case["doc"][-1]["k"] != "cut"):
        return ["%r should not be there\n%s" % (got[len(want)], tex)]
    return []
