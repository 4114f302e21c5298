"""Lexer.tla <-> code: comments, verbatim blocks and \\verb."""
import re
from lx import parse_build, rng_for, nospace

JUNK = {"lbrace": ["{", "{{"], "rbrace": ["}", "}}"], "dollar": ["$", "$x$", "$$"], "amp": ["&", " & "], "hash": ["#", "#1", "##"],
        "tilde": ["~", "^", "_"], "quotes": ["``q''", "`", "''", '"'], "bs": ["\\ ", "\\@", "\\textbackslash"],
        "item": ["\\item ", "\\item[x] "], "section": ["\\section{S}", "\\chapter*{C}"],
        "env": ["\\begin{itemize}", "\\end{itemize}", "\\end{document}", "\\begin{equation}", "\\end{center}", "\\end {quote}"],
        "macro": ["\\foo", "\\foo ", "\\bar{x}", "\\newcommand{\\foo}{no}", "\\def\\w{no}"],
        "cond": ["\\iftrue ", "\\iffalse", "\\fi ", "\\else "], "style": ["\\textbf{", "\\emph{x}", "\\it "],
        "label": ["\\label{l}", "\\cite{c}", "\\ref{r}", "\\footnote{f}", "\\input{nofile}"],
        "spaces": ["    ", "  "], "indent": ["\t"], "uni": ["\u00e9", "\u2211", "\\'e"], "accent": ["\\^", "\\\"o"],
        "bracket": ["[", "]", "(", ")"], "ops": ["<", ">", "--", "---", "...", "->"], "url": ["http://x.y/%7E", "\\url{a%b}"]}
DELIMS = ["|", "+", "!", "/", "=", ":", ";", "?"]
CTX = {"item": ("\\begin{itemize}\\item Item ", "\\end{itemize}"), "center": ("\\begin{center}Ce ", "\\end{center}"),
       "quote": ("\\begin{quote}Qu ", "\\end{quote}"), "theorem": ("\\begin{theorem}Th ", "\\end{theorem}"),
       "brace": ("{Gr ", "}"), "group": ("\\begingroup Bg ", "\\endgroup "), "mybox": ("\\begin{mybox}My ", "\\end{mybox}")}
HEADW = {"item": "Item", "center": "Ce", "quote": "Qu", "theorem": "Th", "brace": "Gr", "group": "Bg", "mybox": "My"}


def render(case):
    doc, modes = case["doc"], case["modes"]
    r = rng_for(doc)
    n, src = len(doc), []
    # a delimiter per \verb that its code does not contain
    delim = {}
    for i, a in enumerate(doc, 1):
        k, v, m = a["k"], a["v"], modes[i - 1]
        if k == "w":
            s = "w%dx" % i
            if m == "text":
                s = r.choice([" %s ", "%s", "%s ", " %s"]) % s
            elif m != "comment":
                s = r.choice(["%s", "%s ", " %s"]) % s
        elif k == "nl":
            s = r.choice(["\n", "\n", "\n\n"]) if m in ("text", "verbatim", "lstlisting") else "\n"
        elif k == "pct":
            s = "%"
        elif k == "esc":
            s = "\\%" if v == "pct" else "\\\\"
        elif k == "begin":
            opt = ""
            if v == "lstlisting" and m == "text":
                opt = r.choice(["", "", "[language=C]", "[language=Python, caption=x]", "[language=C,\n caption=x]",
                                "[caption={A, b},language=C]"])
            s = "\\begin%s{%s}%s" % (r.choice(["", "", " "]) if m != "text" or True else "", v, opt)
            if m == "text" and (not opt and v == "lstlisting" or v == "comment"):
                s += "\n"
        elif k == "end":
            s = "\\end%s{%s}" % (r.choice(["", "", " "]), v)
            if v == "comment" and m == "hidden":
                s = r.choice(["\n%s\n", "\n  %s\n"]) % s
        elif k == "noend":
            s = r.choice(["x \\end{comment} ", "% \\end{comment}", " .\\end {comment}"])
        elif k == "verb":
            s = "\\verb|" if m != "text" else None
        elif k == "verbend":
            s = None
        elif k == "junk":
            s = r.choice(JUNK[v])
        elif k == "open":
            s = CTX[v][0]
        elif k == "close":
            s = CTX[v][1]
        src.append(s)
    i = 0
    while i < n:
        if src[i] is None and doc[i]["k"] == "verb":
            j = i + 1
            while doc[j]["k"] != "verbend":
                j += 1
            body = "".join(src[i + 1:j])
            d = r.choice([x for x in DELIMS if x not in body])
            src[i], src[j] = r.choice(["\\verb", "\\verb", "\\verb*"]) + d, d
            i = j
        i += 1
    # what the spec delivers, spelled out in the atoms' source
    exp = []
    opens = {i + 1: HEADW[a["v"]] for i, a in enumerate(doc) if a["k"] == "open"}
    items = [(o["v"][0]["id"] if o["v"] else 0, o) for o in case["out"]]
    pos, last = {}, 0
    pcts = [i + 1 for i, a in enumerate(doc) if a["k"] == "esc" and a["v"] == "pct" and modes[i] == "text"]
    flat = []
    for i, o in items:
        if o["k"] == "pct":
            i = pcts.pop(0)
        flat.append((i, o))
    flat += [(i, dict(k="open", v=w)) for i, w in opens.items()]
    for i, o in sorted(flat, key=lambda x: x[0]):
        if o["k"] == "word":
            exp.append("w%dx" % i)
        elif o["k"] == "pct":
            exp.append("%")
        elif o["k"] == "open":
            exp.append(o["v"])
        else:
            m = re.search(r"(?s)\[(.*)\]", src[o["v"][0]["id"] - 2])
            exp.append((o["k"], "".join(src[a["id"] - 1] for a in o["v"]), m.group(1) if m and o["k"] == "block" else ""))
    return "".join(src), exp


def norm_code(s):
    # leading and trailing white space of the whole, and at line ends, is not kept
    return "\n".join(l.rstrip() for l in s.strip().split("\n"))


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append((x[0], norm_code(x[1]), x[2]))
    return [x for x in out if x]


def got(tokens):
    out = []

    def go(t):
        if isinstance(t, list):
            [go(x) for x in t]
        elif isinstance(t, dict):
            if t["type"] == "code":
                out.append(("inline" if t.get("display") == "inline" else "block", t["content"], t.get("title") or ""))
            elif isinstance(t.get("content"), str):
                if t["type"] == "text":
                    out.append(nospace(t["content"]))
                elif t["content"]:
                    out.append("<%s %s>" % (t["type"], t))
            else:
                go(t.get("content", []))
    go(tokens)
    return merge(out)


def check_code(case):
    text, exp = render(case)
    r = rng_for(text)
    pre = "\\newcommand{\\foo}{FOO}\n" if r.random() < .5 else ""
    if r.random() < .5:
        text = pre + "\\begin{document}\n%s\n\\end{document}" % text if "\\end{document}" not in text else pre + text
    else:
        text = pre + text
    have = got(parse_build(text, preprocess=r.random() < .7))
    want = merge(exp)
    if have == want:
        return []
    prob = []
    for a, b in zip(want + [None] * 50, have + [None] * 50):
        if a != b:
            prob.append("should deliver %r, delivers %r" % (a, b))
            break
    return prob + ["document:\n" + text]
