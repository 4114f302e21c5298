"""Tables.tla <-> code: rows, cells, spans and what stands in them."""
import re
from lx import parse_build, rng_for, nospace

STYLE = {"bold": ["\\textbf{%s}", "{\\bfseries %s}"],
         "italic": ["\\textit{%s}", "{\\itshape %s}", "\\emph{%s}"]}
GROUP = {"brace": ["{%s}", "{ %s }"], "parbox": ["\\parbox{2cm}{%s}", "\\mbox{%s}"],
         "makecell": ["\\makecell{%s}", "\\makecell[l]{%s}", "\\shortstack{%s}", "\\shortstack[c]{%s}"],
         "color": ["\\textcolor{red}{%s}", "{\\small %s}"]}
SEP = {"plain": ["\\\\", " \\\\ ", "\\\\\n"], "opt": ["\\\\[2pt]", "\\\\ [0.5ex]\n", "\\\\[-1em]", "\\\\[3\\baselineskip]"],
       "star": ["\\\\*", "\\\\*[1pt]"], "newline": ["\\tabularnewline ", "\\tabularnewline\n", "\\tabularnewline[1pt] "]}
RULE = ["\\hline ", "\\hline\\hline\n", "\\midrule\n", "\\toprule ", "\\cline{1-2} ", "\\cmidrule(lr){2-3} ",
        "\\cmidrule{1-2}\n", "\\specialrule{1pt}{0pt}{0pt} ", "\\addlinespace ", "\\rowcolor{gray} ", "\\rowcolor[gray]{0.9}",
        "\\bottomrule ", "% a & b \\\\\n", "\\noalign{\\smallskip} ", "\\endhead ", "\\endfirsthead\n", "\\addlinespace[2pt] "]
LEAF = {
    "math": lambda i: ("$x_{%d}$" % i, ("equation", "x_{%d}" % i)),
    "matrix": lambda i: ("$\\begin{pmatrix} a & b \\\\ c & d_{%d}\\end{pmatrix}$" % i,
                         ("equation", "\\begin{pmatrix}a&b\\\\c&d_{%d}\\end{pmatrix}" % i)),
    "ref": lambda i: ("\\ref{r:%d}" % i, ("ref", "r:%d" % i)),
    "cite": lambda i: ("\\cite{c%d}" % i, ("citation", "c%d" % i)),
    "graphics": lambda i: ("\\includegraphics[width=2cm]{f%d.png}" % i, ("includegraphics", "f%d.png" % i)),
    "url": lambda i: ("\\url{http://x.org/?a=%d&b=2}" % i, ("url", "http://x.org/?a=%d&b=2" % i)),
    "verb": lambda i: ("\\verb|a%d & {b \\\\|" % i, ("code", "a%d&{b\\\\" % i)),
    "foot": lambda i: ("\\footnote{n%d \\& m}" % i, ("footnote", "n%d&m" % i)),
    "list": lambda i: ("\\begin{itemize}\\item u%d \\\\ v \\item w\\end{itemize}" % i, ("list", "u%dvw" % i)),
    "display": lambda i: ("\\[ y_{%d} \\& z \\]" % i, ("equation", "y_{%d}\\&z" % i)),
}
SPEC = ["cc", "|l|r|c|", "p{3cm}l", "@{}l@{\\quad}r@{}", "*{3}{c}", "l|>{\\bf}c", "{cc}", "l S[table-format=2.1]", "c@{ & }c"]


def rows_arg(r, n):
    return r.choice(["\\multirow{%d}{*}" % n, "\\multirow{%d}*" % n, "\\multirow{%d}{2cm}" % n, "\\multirow[t]{%d}{*}" % n,
                     "\\multirow{%d}{*}[2pt]" % n, "\\multirow{%d}{=}" % n, "\\multirow {%d} {*}" % n, "\\multirow[c]{%d}*[1ex]" % n])


def render(case):
    doc, r = case["doc"], rng_for(case["doc"])
    out, stack, leaves = [], [], {}
    macros = r.random() < .3
    same = r.random() < .15     # the same element again and again
    for i, e in enumerate(doc, 1):
        k, v, n = e["k"], e["v"], e["n"]
        if k == "w":
            s = r.choice(["w%dx", " w%dx ", "w%dx ", " w%dx", "w%dx\n"]) % i
        elif k == "amp":
            leaves[i] = r.choice("&&&%$#{}_")
            s = r.choice(["\\%s", " \\%s ", "\\%s{}"]) % leaves[i]
        elif k == "leaf":
            s, leaves[i] = LEAF[v](1 if same else i)
            s = r.choice(["%s", " %s ", "%s "]) % s if v not in ("list", "display") else s
        elif k == "break":
            s = r.choice(["\\\\", " \\\\ ", "\\\\\n"])
        elif k == "sep":
            s = r.choice(["&", " & ", " &\n", "&% x & y\n"] + ["\\nextcell ", "\\nextcell{}"] * macros)
        elif k == "row":
            s = r.choice(SEP[v] + ["\\nextrow ", "\\nextrow{}"] * macros)
        elif k == "rule":
            s = r.choice(RULE)
        elif k == "open":
            forms = STYLE.get(v) or GROUP[v]
            if doc[i]["k"] != "w":     # \\bfseries {x} y is not claimed
                forms = [f for f in forms if "series" not in f and "shape" not in f]
            a, b = r.choice(forms).split("%s")
            stack.append(b)
            s = a
        elif k == "cols":
            stack.append("}")
            s = r.choice(["\\multicolumn{%d}{c}{", "\\multicolumn{%d}{|c|}{", " \\multicolumn{%d}{@{}l@{}}{ ", "\\multicolumn {%d} {p{2cm}} {"]) % n
        elif k == "rows":
            stack.append("}")
            s = rows_arg(r, n) + r.choice(["{", "{ ", "{"])
        elif k == "close":
            s = stack.pop()
        elif k == "table":
            spec = r.choice(SPEC)
            env = v
            if env == "plain":
                a, b = "\\tabular{%s} " % spec, "\\endtabular "
            else:
                arg = {"tabular": r.choice(["", "", "[t]", " [c]"]), "longtable": r.choice(["", "[c]"]),
                       "tabular*": r.choice(["{\\textwidth}", "{5cm}", "{0.9\\linewidth}[t]"]),
                       "tabularx": r.choice(["{\\textwidth}", "{0.5\\columnwidth}", "{3cm}[b]"]),
                       "tabulary": "{3cm}"}[env]
                a = "\\begin%s{%s}%s{%s}%s" % (r.choice(["", "", " "]), env, arg, spec, r.choice(["", " ", "\n"]))
                b = "\\end{%s}" % env
            stack.append(b)
            s = a
        elif k == "endtable":
            s = stack.pop()
        out.append(s)
    text = "".join(out)
    if r.random() < .4:
        text = "\\begin{table}[h]\n\\centering %s\n\\end{table}" % text
    if r.random() < .3:
        text = "\\begin{document}\nIntro. %s\n\\end{document}" % text
    if macros:
        text = "\\newcommand{\\nextcell}{&}\n\\newcommand{\\nextrow}{\\\\ \\hline}\n" + text
    return text, leaves


def expect(content, leaves):
    """the spec's content -> [(text, styles) | (type, body) | table]"""
    out = []
    for x in content:
        if x["k"] == "tab":
            out.append(trim([[(c["sp"]["c"], c["sp"]["r"], expect(c["cont"], leaves)) for c in row] for row in x["rows"]]))
        elif x["k"] == "leaf":
            out.append(leaves[x["id"]])
        else:
            out.append(("text", "w%dx" % x["id"] if x["k"] == "w" else leaves[x["id"]], tuple(sorted(x["st"]))))
    return merge(out)


def trim(rows):
    empty = lambda row: all(c == 1 and r == 1 and not cont for c, r, cont in row)
    while rows and empty(rows[0]):
        rows = rows[1:]
    while rows and empty(rows[-1]):
        rows = rows[:-1]
    return rows


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, tuple) and x[0] == "text":
            if not x[1]:
                continue
            if out and isinstance(out[-1], tuple) and out[-1][0] == "text" and out[-1][2] == x[2]:
                out[-1] = ("text", out[-1][1] + x[1], x[2])
                continue
        out.append(x)
    return out


def flat(t):
    if isinstance(t, str):
        return nospace(t)
    if isinstance(t, list):
        return "".join(map(flat, t))
    return flat(t.get("title", "")) + flat(t.get("content", "")) if isinstance(t, dict) else ""


def deliver(toks, st=()):
    out = []
    for t in toks if isinstance(toks, list) else [toks]:
        if t is None:
            continue
        if isinstance(t, str):
            out.append(("text", nospace(t), tuple(sorted(s for s in st if s in STYLE))))
        elif t["type"] == "text":
            out.append(("text", nospace(t["content"]), tuple(sorted(s for s in set(st) | set(t.get("styles") or []) if s in STYLE))))
        elif t["type"] == "group":
            out += deliver(t["content"], tuple(set(st) | set(t.get("styles") or [])))
        elif t["type"] == "tabular":
            rows = []
            for row in t["content"]:
                cells = []
                for c in row:
                    if isinstance(c, dict) and "type" not in c:
                        cells.append((c.get("colspan", 1), c.get("rowspan", 1), merge(deliver(c["content"]))))
                    else:
                        cells.append((1, 1, merge(deliver(c))))
                rows.append(cells)
            out.append(trim(rows))
        elif t["type"] in ("ref", "citation"):
            out.append((t["type"], ",".join(t["content"])))
        elif t["type"] in ("table", "document"):
            out += deliver(t["content"])
        else:
            out.append((t["type"], flat(t.get("content", ""))))
    return out


def show(x):
    return repr(x)


def diff(want, have, where="document"):
    if len(want) != len(have):
        return "%s should hold %r, holds %r" % (where, want, have)
    for a, b in zip(want, have):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                return "table should have %d rows, has %d: %r instead of %r" % (len(a), len(b), b, a)
            for ri, (ra, rb) in enumerate(zip(a, b)):
                if len(ra) != len(rb):
                    return "row %d should have %d cells, has %d: %r" % (ri + 1, len(ra), len(rb), rb)
                for ci, (ca, cb) in enumerate(zip(ra, rb)):
                    if ca[:2] != cb[:2]:
                        return "cell %d,%d should span %d columns, %d rows, spans %d, %d" % (ri + 1, ci + 1, ca[0], ca[1], cb[0], cb[1])
                    p = diff(ca[2], cb[2], "cell %d,%d" % (ri + 1, ci + 1))
                    if p:
                        return p
        elif a != b:
            return "%s should hold %r, holds %r" % (where, a, b)
    return None


def check_table(case):
    text, leaves = render(case)
    r = rng_for(text)
    want = expect(case["out"], leaves)
    if text.startswith("\\begin{document}") or "\\begin{document}" in text:
        want = merge([("text", "Intro.", ())] + want)
    have = merge(deliver(parse_build(text, preprocess=r.random() < .6)))
    p = diff(want, have)
    return [p, "source:\n" + text] if p else []
