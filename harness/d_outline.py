"""Outline.tla <-> code: render a document, abstract the token tree back to nodes."""
import json
import re
from lx import parse_build, merge_proofs, rng_for, walk

ENV_OPEN = {"figure": "[ht]", "wrapfigure": "{r}{2cm}", "subfigure": "{0.4\\textwidth}"}
EQ_NAMES = {"equation", "align", "gather", "multline", "eqnarray"}


def render(doc, r):
    out, style = [], r.randrange(4)
    seps = {0: ["\n"], 1: ["", "\n", " "], 2: ["\n\n", "\n", "  "], 3: ["\n", " % note\n", "\n%\\section{No}\n"]}[style]
    for i, e in enumerate(doc, 1):
        k, v, st = e["k"], e["v"], "*" if e["star"] else ""
        if k in ("sec", "par"):
            short = r.choice(["", "", "", "[Sh]", "[subsection*]"])
            sp = r.choice(["", "", " "])
            t = r.choice(["T%d", "T%d", " T%d ", "\\textbf{T%d}", "{T%d}", "T%d $q$"]) % i
            tail = r.choice(["", "", "\\label{s:%d}" % i])
            out.append("\\%s%s%s%s{%s}%s\n" % (v, st, short, sp, t, tail))
        elif k == "txt":
            out.append(r.choice([" Body%d. ", "Body%d ", "\\emph{Body%d} ", "Body%d \\cite{q}", "$a$ Body%d"]) % i)
        elif k == "eq":
            out.append("\\begin{%s%s}%s E%d \\end{%s%s}" % (v, st, r.choice(["", "\\label{e:%d}" % i]), i, v, st))
        elif k == "begin":
            if v == "appendices":
                out.append("\\begin{appendices}")
            elif v in ("itemize", "enumerate", "description"):
                out.append("\\begin{%s}" % v)
            else:
                arg = ENV_OPEN.get(v, "") if v != "figure" or r.random() < .5 else ""
                if v in ("theorem", "lemma", "proof") and r.random() < .3:
                    arg = "[Thm name]"
                if v in ("theorem", "lemma", "proof") and r.random() < .3:
                    arg += "\\label{v:%d}" % i
                out.append("\\begin{%s%s}%s Env%d " % (v, st, arg, i))
        elif k == "item":
            out.append("\\item Env%d " % i)
        elif k == "end":
            st0 = ""
            d = 0
            for f in reversed(doc[:i - 1]):
                if f["k"] == "end":
                    d += 1
                elif f["k"] == "begin":
                    if d == 0:
                        st0 = "*" if f["star"] else ""
                        break
                    d -= 1
            out.append("\\end{%s%s}" % (v, st0))
        elif k == "appendix":
            out.append("\\appendix\n")
        elif k == "bib":
            out.append("\\begin{thebibliography}{9}\\bibitem{k%d} Bib%d\\end{thebibliography}" % (i, i))
        out.append(r.choice(seps))
    body = "".join(out)
    w = r.randrange(3)
    if w == 1:
        return "\\begin{document}\n%s\\end{document}" % body, True
    if w == 2:
        return "\\documentclass{article}\n\\usepackage{amsmath}\n\\begin{document}\n%s\n\\end{document}\n" % body, True
    return body, False


TYPES = {"section", "paragraph", "equation", "figure", "subfigure", "table", "algorithm", "math_env",
         "list", "item", "group", "quote", "abstract", "environment", "appendix", "bibliography"}


def title_text(t):
    t = t.get("title")
    buf = []
    def go(x):
        if isinstance(x, str):
            buf.append(x)
        elif isinstance(x, list):
            [go(y) for y in x]
        elif isinstance(x, dict):
            go(x.get("content", ""))
    go(t if t is not None else "")
    return "".join(buf)


def abstract(tokens, doc):
    """-> ({id: (kind, parent, num, level, depth)}, child order {parent: [ids]}, notes)"""
    nodes, order, notes = {}, {}, []

    def own_id(t):
        ty = t["type"]
        if ty in ("section", "paragraph"):
            m = re.findall(r"T(\d+)", title_text(t))
            return int(m[0]) if m else None
        if ty == "equation" and t.get("display") == "block":
            m = re.findall(r"E(\d+)", t.get("content") if isinstance(t.get("content"), str) else "")
            return int(m[0]) if m else None
        if ty == "bibliography":
            m = re.findall(r"Bib(\d+)", str(t["content"]))
            return int(m[0]) if m else None
        if ty == "list":
            # the list's id is its \begin event: the event right before its first item
            for c in t["content"]:
                if isinstance(c, dict) and c.get("type") == "item":
                    x = own_id(c)
                    return x - 1 if x else None
            return None
        if ty == "appendix":
            ids = [i for i, e in enumerate(doc, 1) if e["k"] == "appendix" or e["v"] == "appendices"]
            return ids[0] if ids else None
        for c in t["content"] if isinstance(t.get("content"), list) else []:
            if isinstance(c, dict) and c.get("type") == "text":
                m = re.match(r"\s*Env(\d+)", c["content"])
                return int(m.group(1)) if m else None
            break
        return None

    def put(i, rec, p):
        if i in nodes:
            notes.append("element %d appears twice" % i)
        nodes[i] = rec
        order.setdefault(p, []).append(i)

    def visit(t, p):
        if isinstance(t, list):
            for x in t:
                visit(x, p)
            return
        if not isinstance(t, dict):
            return
        ty = t.get("type")
        if ty == "document":
            visit(t["content"], p)
            return
        if ty == "text":
            for w, i in re.findall(r"(Body|T|E|Env|Bib)(\d+)", t["content"]):
                if w == "Body":
                    put(int(i), ("text", p, "", 0, 0), p)
                elif w in ("T", "E", "Bib"):
                    notes.append("content of element %s leaked into running text" % i)
            return
        i = own_id(t) if ty in TYPES else None
        if ty in TYPES and i is None and ty == "equation":
            return
        if i is None:
            if ty in TYPES or ty == "command":
                notes.append("unexpected token %r" % ({k: t[k] for k in t if k in ("type", "name", "command", "title", "content")},))
            if isinstance(t.get("content"), list) and ty not in ("citation", "ref"):
                visit(t["content"], p)
            return
        put(i, (ty, p, t.get("numbering", ""), t.get("level", 0) if ty in ("section", "paragraph") else 0,
                t.get("depth", 0) if ty == "list" else 0), p)
        if ty == "bibliography":
            return
        if isinstance(t.get("content"), list):
            visit(t["content"], i)

    visit(tokens, 0)
    return nodes, order, notes


def check(case, what="all"):
    doc = case["doc"]
    r = rng_for(doc)
    text, _ = render(doc, r)
    pre = "\\documentclass" in text or r.random() < .5
    tokens = parse_build(text, preprocess=pre)
    want = merge_proofs(tokens) if what in ("num", "list") and "{proof}" in text else None
    got, order, notes = abstract(tokens, doc)
    exp = {n["id"]: (n["k"], n["par"], n["num"], n["lvl"], n["dep"]) for n in case["nodes"]}
    prob = list(notes) if what in ("all", "tree") else []
    idx = {"tree": (0, 1, 3), "num": (2,), "list": (0, 1, 4), "all": (0, 1, 2, 3, 4)}[what]
    names = ("kind", "parent", "number", "level", "depth")
    for i in sorted(set(exp) | set(got)):
        if i not in got:
            prob.append("element %d %s is missing from the output" % (i, exp[i]))
        elif i not in exp:
            prob.append("element %d %s should not be in the output" % (i, got[i]))
        else:
            for j in idx:
                if exp[i][j] != got[i][j]:
                    prob.append("element %d (%s): %s should be %r, is %r" % (i, exp[i][0], names[j], exp[i][j], got[i][j]))
    if what in ("all", "tree", "list"):
        for p, ids in order.items():
            if ids != sorted(ids):
                prob.append("children of %d out of document order: %s" % (p, ids))
    if want is not None:
        merged = parse_build(text, preprocess=pre, merge=True)
        if merged != want:
            prob.append("with proofs merged the output is %s, expected %s" % (json.dumps(merged)[:1500], json.dumps(want)[:1500]))
    if prob:
        prob.append("document:\n" + text)
    return prob


def check_tree(case):
    return check(case, "tree")


def check_num(case):
    return check(case, "num")


def check_list(case):
    return check(case, "list")
