"""Front.tla <-> code: titles, authors, affiliations, keywords, abstracts, dates."""
import re, json
from lx import rng_for, parse_build

OPEN = {1: ["\\title{", "\\title[short]{", "\\title {", "\\title\n[{a] b}]{"], 2: ["\\author{", "\\author[1,2]{", "\\author {", "\\author[$\\dagger$]{"],
        3: ["\\affil{", "\\affil[1]{", "\\affiliation{", "\\affiliation [1] {"], 4: ["\\address{", "\\address[1]{", "\\address {"],
        5: ["\\email{", "\\email {", "\\email[Ann]{"], 6: ["\\thanks{", "\\thanks {", "\\footnote{", "\\thanks{"], 7: ["\\keywords{", "\\keywords {"],
        8: ["\\begin{abstract}", "\\abstract{", "\\begin {abstract}\n"], 9: ["\\date{", "\\date {"], 10: ["{", "{\\small ", "{\\Large\\bf ", "\\mbox{"],
        11: ["\\emph{", "{\\em ", "\\textit{", "{\\it "], 12: ["\\begin{titlepage}", "\\begin{frontmatter}"], 13: ["\\section{", "\\section*{", "\\section[short]{"]}
AND = ["\\and ", "\\And ", "\\AND ", "\\and\n", "\n\\and\n\n", "\\sep ", "\\\\\\and "]
TYPE = {1: "title", 2: "author", 3: "affiliation", 4: "address", 5: "email", 6: "footnote", 7: "keywords", 8: "abstract", 13: "section"}
BACK = {v: k for k, v in TYPE.items()}
DEFS = "\\newcommand{\\sep}{\\and}\n\\newcommand{\\me}[1]{w#1q}\n"


def write(case):
    r = rng_for(case)
    out, stack, line = [], [], False
    doc = case["doc"]
    for i, a in enumerate(doc):
        k, n = a["k"], a["n"]
        gap = r.choice([" ", " ", "\n", ""])
        if line:
            t = {"w": "dead", "and": "\\and", "open": "\\author{", "close": "}", "begin": "\\begin{document}", "nl": "\n"}[k]
            gap = "" if k == "nl" else " "
            line = k != "nl"
        elif k == "pct":
            t, gap, line = r.choice(["%", " % ", "%% "]), "", True
        elif k == "w":
            t = r.choice(["w%dq", "w%dq", "\\me{%d}", "w%dq,", "Univ. of w%dq", "\\\\and w%dq" if stack else "and w%dq"]) % n
            if gap == "":
                gap = " "
        elif k == "math":
            t = r.choice(["$w%dq$", "$^{w%dq}$", "\\(w%dq\\)", "$^{1,w%dq,\\dagger}$"]) % n
        elif k == "and":
            t, gap = r.choice(AND), ""
        elif k == "break":
            t = r.choice(["\\\\", "\\\\[2pt]", "\\\\\n", "\\\\ \\\\"])
        elif k == "make":
            t = r.choice(["\\maketitle", "\\maketitle{}", "\\maketitle\n"])
            gap = r.choice([" ", "\n"])
        elif k == "begin":
            t, gap = "\n\\begin{document}", "\n"
        elif k == "open":
            # (after an old font command a brace is taken for its argument)
            after = [x["k"] for x in doc[i + 1:i + 12]]
            plain = "open" not in after[:after.index("close")] if "close" in after else False
            t = r.choice([x for x in OPEN[n] if plain or not x.startswith("{\\")])
            m = re.match(r"\\begin ?\{(\w+)", t)
            stack.append("\\end{%s}" % m.group(1) if m else "}")
        else:
            t = stack.pop()
        out.append(t + gap)
    text = "".join(out)
    if doc[0]["k"] == "begin" and r.random() < .4:
        return DEFS + text.replace("\n\\begin{document}\n", "", 1)
    return "\\documentclass{article}\n" + DEFS + text + "\n\\end{document}\n"


def seen(t, st=False):
    if isinstance(t, list):
        return [e for x in t for e in seen(x, st)]
    if isinstance(t, str):
        t = {"type": "text", "content": t}
    ty, c = t.get("type"), t.get("content")
    around, st = st, st or "italic" in (t.get("styles") or [])
    if ty == "text":
        return [("hidden", c)] if re.search(r"dead|[{}\\]|short|\[|\]", c) else [("w", int(x), st) for x in re.findall(r"w(\d+)q", c)]
    if ty == "equation":
        return [("math", int(x), st) for x in re.findall(r"w(\d+)q", c)]
    if ty in ("document", "group", "environment"):
        return seen(c or [], st)
    if ty not in BACK:
        return [("hidden", json.dumps(t))]
    if ty == "author":
        inner = []
        for p in c:
            inner += [("part", 0, False)] + (seen(p, st) if isinstance(p, list) else [("hidden", json.dumps(p))])
    elif ty == "section":
        return [("open", 13, False)] + seen(t["title"], st) + [("close", 13, False)] + seen(c or [], around)
    else:
        inner = seen(c or [], st)
    return [("open", BACK[ty], False)] + inner + [("close", BACK[ty], False)]


def check_front(case):
    tex = write(case)
    got = seen(json.loads(json.dumps(parse_build(tex))))
    want = [(e["t"], e["n"], e["s"]) for e in case["out"]]
    for i in range(max(len(want), len(got))):
        g, w = got[i] if i < len(got) else None, want[i] if i < len(want) else None
        if g != w:
            return ["piece %d reads %r, expected %r\n%s" % (i + 1, g, w, tex)]
    return []
