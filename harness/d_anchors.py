"""Anchors.tla <-> code: containers, what labels are attached to, and reference leaves."""
import re
from lx import parse_build, rng_for, flat_text, nospace, walk

PREAMBLE = ["\\newtheorem{thm}{Theorem}", "\\newtheorem*{rmk}{Remark}", "\\newtheorem{fact}{Fact}",
            "\\newenvironment{wrapq}{WO \\begin{quote}}{\\end{quote} WC}"]
KEYS = ["%s%d", "eq:%s%d", "fig.%s-%d", "%s_x_%d", "tab:%s %d", "%s--%d", "it's:%s%d", "\u00e9%s%d", "%s%d*",
        "a/b:%s:%d", "%s+%d", "(%s)%d", "sec:%s%d\u00df", "%s@%d", "thm%s.%d.1"]
URLS = ["http://x.org/U%d", "http://x.org/~u/U%d", "https://x.org/a_b/U%d#s_1", "http://x/U%d?q=1&r=2",
        "http://x/%%7Eu/U%d", "https://x.org/U%d/a--b", "http://x.org/U%d/''q", "ftp://x/U%d.tar.gz"]
CITES = ["cite", "citep", "citet", "citealp", "citealt", "citeauthor", "citeyear", "cite*", "citet*", "Citep"]
REFS = ["ref", "eqref", "autoref", "pageref", "ref*", "Ref"]


class Names:
    def __init__(self, r):
        self.r = r
        self.style = r.choice(KEYS)
        self.doc = True
        self.dup = r.random() < .15  # the same key twice in a command

    def label(self, i):
        return self.style % ("L", i)

    def key(self, i, j):
        return self.style % ("K%dj" % (1 if self.dup and j == 3 else j), i)


def wrap_label(r, s):
    return r.choice(["%s", " %s ", "%s\n", "\n%s", "{%s}", " \\textbf{w%s}", "% c\n%s", "\\emph{%s}"]).replace("%s", s)


def wrap_text(r, t):
    return r.choice(["%s", "%s.", "\\textbf{%s}", "%s, $x^2$", "{\\it %s}", "%s % c \\label{no}\n", "``%s''"]).replace("%s", t)


def note_text(r, t):
    return r.choice([(t, t), ("\\textbf{%s}" % t, t), ("%s $q$" % t, t + "q"), ("{%s [a]}" % t, t + "[a]"),
                     ("p.~%s" % t, "p.~" + t), ("{%s}" % t, t)])


def render(case):
    doc, r = case["doc"], rng_for(case["doc"])
    nm, out, notes = Names(r), [], {}
    first = next((n for n in case["nodes"] if n["par"] == 0), None)
    # a fragment: labels before the first heading belong to what they follow
    owned = {l for n in case["nodes"] for l in n["labels"]}
    nm.doc = not (first and first["k"] != "label" and r.random() < .3
                  and not any(e["k"] == "tab" and e["n"] and i not in owned for i, e in enumerate(doc, 1)))
    nodes = {n["id"]: n for n in case["nodes"] if n["k"] != "label"}
    opened = []
    for i, e in enumerate(doc, 1):
        k, v = e["k"], e["v"]
        if k == "txt":
            out.append(" " + wrap_text(r, "Body%d" % i) + r.choice(["", " ", "\n", "\n\n"]))
        elif k == "label":
            lab = "\\label%s{%s}" % (r.choice(["", "", " "]), nm.label(i))
            out.append(wrap_label(r, lab) if nm.doc else lab)
        elif k == "head":
            cmd = {"sectionstar": "section*"}.get(v, v)
            t = r.choice(["T%d", "\\textbf{T%d}", "T%d $q$"]) % i
            if e["n"]:
                lab = "\\label{%s}" % nm.label(i)
                inside = r.random() < .5
                out.append("\\%s{%s%s}%s\n" % (cmd, t, lab if inside else "", "" if inside else r.choice(["", " ", "\n"]) + lab))
            else:
                out.append("\\%s%s{%s}%s" % (cmd, r.choice(["", "[short]"]), t, r.choice(["", "\n"])))
        elif k == "eq":
            body = "E%d" % i
            labs = ["\\label{%s}" % nm.label(i), "\\label{%s}" % nm.label(1000 + i)][:e["n"]]
            name = {"equationstar": "equation*", "alignstar": "align*"}.get(v, v)
            if len(labs) == 2:
                body = body + labs[0] + r.choice([" \\\\ ", " + "]) + "y " + labs[1]
            elif labs:
                body = r.choice([labs[0] + " " + body, body + " " + labs[0], body + "\n" + labs[0] + "\n"])
            out.append("\\begin{%s}%s\\end{%s}" % (name, " " + body, name) if name != "display" else "\\[ %s \\]" % body)
        elif k == "tab":
            lab = "\\label{%s}" % nm.label(i) if e["n"] else ""
            out.append("\\begin{tabular}{lr} C%d %s & x \\\\ y & z \\end{tabular}" % (i, lab))
        elif k == "ref":
            if v in ("ref", "cref", "cite"):
                keys = [nm.key(i, j) for j in range(1, e["n"] + 1)]
                body = r.choice([",", ", ", " , ", ",\n"]).join(keys)
                if r.random() < .2:
                    body = " " + body + " "
                opt = ""
                if e["note"]:
                    src = [note_text(r, "N%d%s" % (i, "ab"[j])) for j in range(e["note"])]
                    if r.random() < .3:
                        src = [src[0]] * len(src)  # the same note twice
                    notes[i] = ", ".join(s[1] for s in src)
                    opt = "".join("[%s]" % s[0] for s in src)
                cmd = r.choice({"ref": REFS, "cref": ["cref", "Cref", "cref*"], "cite": CITES}[v])
                out.append(" \\%s%s{%s} " % (cmd, opt, body))
            elif v == "hyperref":
                s = r.choice([("N%d" % i, "N%d" % i), ("\\emph{N%d} z" % i, "N%dz" % i), ("N%d $q$" % i, "N%dq" % i)])
                notes[i] = s[1]
                out.append(" \\hyperref[%s]{%s} " % (nm.key(i, 1), s[0]))
            else:
                u = r.choice(URLS) % i
                if v == "href":
                    notes[i] = "N%d" % i
                    out.append(" \\href{%s}{%s} " % (u, r.choice(["N%d", "\\textbf{N%d}", "{N%d}"]) % i))
                elif v == "url":
                    out.append(" \\%s{%s} " % (r.choice(["url", "url", "path"]), u))
                else:
                    u = "10.1000/U%d_x" % i
                    out.append(" \\doi{%s} " % u)
                    u = "https://doi.org/" + u
                notes[("url", i)] = u
        elif k == "begin":
            name = {"theoremstar": "theorem*", "figurestar": "figure*"}.get(v, v)
            opened.append(name)
            arg = ""
            if e["title"]:
                s = note_text(r, "Ti%d" % i)
                notes[i], arg = s[1], "[%s]" % s[0]
            elif v in ("figure", "figurestar", "table", "algorithm"):
                arg = r.choice(["", "[ht]", "[!htbp]", "[H]"])
            elif v == "wrapfigure":
                arg = r.choice(["{r}{2cm}", "[10]{l}{0.5\\textwidth}"])
            elif v == "subfigure":
                arg = r.choice(["{0.4\\textwidth}", "[b]{3cm}"])
            elif v == "minipage":
                arg = r.choice(["{3cm}", "[t]{0.5\\textwidth}"])
            elif v in ("itemize", "enumerate", "description"):
                arg = r.choice(["", "", "[noitemsep]", "[label=(\\alph*)]"])
            sp = r.choice(["", "", " "])
            if v == "begingroup":
                out.append("\\begingroup ")
            else:
                out.append("\\begin%s{%s}%s%s" % (sp, name, arg, r.choice(["", "\n", " "])))
            if v not in ("itemize", "enumerate", "description"):
                out.append("Env%d " % i)
        elif k == "item":
            if e["title"]:
                s = note_text(r, "Ti%d" % i)
                notes[i] = s[1]
                out.append("\\item%s[%s]%s" % (r.choice(["", " "]), s[0], r.choice(["", " "])))
            else:
                out.append(r.choice(["\\item ", "\n\\item\n", " \\item\t"]))
            out.append("Env%d " % i)
        elif k == "foot":
            opened.append("}")
            out.append("\\footnote%s{Env%d " % (r.choice(["", "", "[3]"]), i))
        elif k == "cap":
            opened.append("}")
            out.append("\\caption%s{Env%d " % (r.choice(["", "", "*", "[short]"]), i))
        elif k == "end":
            name = opened.pop()
            if name == "}":
                out.append("}")
            elif name == "begingroup":
                out.append("\\endgroup ")
            else:
                out.append("\\end%s{%s}" % (r.choice(["", "", " "]), name))
        out.append(r.choice(["", "", "\n", " % note\n"]))
    body = "".join(out)
    if not nm.doc:
        return "\n".join(PREAMBLE) + "\n" + body, nm, notes
    head = r.choice(["", "\\documentclass{article}\n\\usepackage{hyperref}\n"]) + "\n".join(PREAMBLE) + "\n"
    return head + "\\begin{document}\n" + body + "\n\\end{document}\n", nm, notes


CONT = {"math_env", "environment", "figure", "subfigure", "table", "algorithm", "list", "item", "quote", "group",
        "abstract", "footnote", "caption"}
HEADS = {"section", "paragraph"}


def abstract(tokens, doc, nm):
    """-> ({id: record}, pre-order ids, notes, labels of the document)"""
    got, order, bad, doclabels, loose = {}, [], [], [], []

    def own(t):
        ty = t["type"]
        if ty in HEADS:
            m = re.match(r"T(\d+)", flat_text(t.get("title", "")))
        elif ty == "equation":
            m = re.match(r"\s*E(\d+)", t["content"]) if t.get("display") == "block" else None
        elif ty == "tabular":
            m = re.search(r"C(\d+)", str(t["content"]))
        elif ty in ("ref", "citation"):
            for i, e in enumerate(doc, 1):
                if e["k"] == "ref" and t["content"] and t["content"][0] == nm.key(i, 1):
                    return i
            bad.append("%s with unknown keys %r" % (ty, t["content"]))
            return None
        elif ty == "url":
            m = re.search(r"U(\d+)", t["content"])
        elif ty == "list":
            for c in t["content"]:
                if isinstance(c, dict) and c.get("type") == "item":
                    x = own(c)
                    return ("list", x) if x else None
            return None
        else:
            c = t.get("content")
            c = c[0] if isinstance(c, list) and c else None
            m = re.match(r"\s*Env(\d+)", c["content"]) if isinstance(c, dict) and c.get("type") == "text" else None
        return int(m.group(1)) if m else None

    first_item = {}
    stack = []
    for i, e in enumerate(doc, 1):
        if e["k"] in ("begin", "foot", "cap"):
            stack.append(i)
        elif e["k"] == "end":
            stack.pop()
        elif e["k"] == "item" and stack[-1] not in first_item.values():
            first_item[i] = stack[-1]

    def put(i, rec):
        if i in got:
            bad.append("element %d appears twice" % i)
        got[i] = rec
        order.append(i)

    def visit(t, par):
        if isinstance(t, list):
            for x in t:
                visit(x, par)
            return
        if not isinstance(t, dict):
            return
        ty = t.get("type")
        if ty == "text":
            ids = [int(i) for i in re.findall(r"Body(\d+)", t["content"])]
            for i in ids:
                put(i, dict(k="text", par=par, labels=t.get("labels", [])))
            loose.append((ids, t.get("labels", [])))
            if t.get("labels") and nm.doc:
                bad.append("labels %r attached to running text" % t["labels"])
            return
        if ty == "document":
            doclabels.extend(t.get("labels", []))
            visit(t["content"], 0)
            return
        if ty == "environment" and t.get("name") == "wrapq":
            inner = [c for c in t["content"] if isinstance(c, dict) and c["type"] != "text"]
            txt = [c["content"].strip() for c in t["content"] if isinstance(c, dict) and c["type"] == "text"]
            if len(inner) != 1 or inner[0]["type"] != "quote" or txt != ["WO", "WC"]:
                bad.append("\\newenvironment body should be WO, a quote, WC; is %r %r" % (txt, [c["type"] for c in inner]))
            if t.get("labels"):
                bad.append("labels %r attached around the quote" % t["labels"])
            visit(inner, par)
            return
        if ty == "equation" and t.get("display") != "block":
            loose.append(([], t.get("labels", [])))
            return
        if ty in ("includegraphics",):
            return
        i = own(t)
        if isinstance(i, tuple):
            i = first_item.get(i[1])
        if i is None:
            bad.append("unexpected token %r" % ({k: t[k] for k in t if k != "labels"},))
            return
        put(i, dict(k=ty, par=par, name=t.get("name", ""), num=bool(t.get("numbering")),
                    labels=t.get("labels", []), title=t.get("title"), content=t.get("content")))
        if ty in CONT:
            visit(t["content"], i)
        elif ty in HEADS:
            visit(t["content"], par)

    visit(tokens, 0)
    if not nm.doc:
        doclabels = loose
    return got, order, bad, doclabels


def run(case):
    text, nm, notes = render(case)
    toks = parse_build(text, preprocess="documentclass" in text or rng_for(text).random() < .5)
    return text, nm, notes, abstract(toks, case["doc"], nm)


def report(prob, text):
    return prob + ["document:\n" + text] if prob else []


def expected(case):
    return {n["id"]: n for n in case["nodes"] if n["k"] != "label"}


def check_env(case):
    """C08: containers, their nesting, kind, name, title, whether numbered."""
    text, nm, notes, (got, order, prob, _) = run(case)
    exp = expected(case)
    prob = list(prob)
    for i in sorted(set(exp) | set(got)):
        if i not in got:
            prob.append("element %d (%s) is missing" % (i, exp[i]["k"]))
            continue
        if i not in exp:
            prob.append("element %d (%s) should not be there" % (i, got[i]["k"]))
            continue
        e, g = exp[i], got[i]
        for f in ("k", "par") if e["k"] not in CONT else ("k", "par", "name", "num"):
            if f == "num" and e["k"] == "caption":
                continue
            if g[f] != e[f]:
                prob.append("element %d (%s): %s should be %r, is %r" % (i, e["k"], f, e[f], g[f]))
        if e["k"] in CONT:
            want, have = notes.get(i, ""), nospace(flat_text(g.get("title") or ""))
            if nospace(want) != have:
                prob.append("element %d (%s): title should read %r, is %r" % (i, e["k"], want, have))
    if order != sorted(order):
        prob.append("elements out of document order: %s" % order)
    return report(prob, text)


def fragment_labels(case, nm, exp, got, byhand, loose):
    """In a fragment a label that nothing encloses is attached to some element before it, once."""
    prob = []
    for l in byhand:
        key = nm.label(l)
        owners = [i for i in sorted(got) if key in got[i].get("labels", []) and exp[i]["k"] != "text"]
        texts = [ids for ids, ls in loose if key in ls]
        n = len(owners) + len(texts)
        if n != 1:
            prob.append("label %r is attached to %d elements" % (key, n))
        # the element right before it, with nothing but text in between
        prev = [i for i in sorted(exp) if i < l and exp[i]["par"] == 0]
        # in an abstract, that may be within it
        near = {prev[-1], max(i for i in exp if i < l)} if exp[prev[-1]]["k"] == "abstract" else {prev[-1]}
        if owners and owners[0] not in near or texts and not (not texts[0] or min(texts[0]) <= prev[-1]):
            prob.append("label %r should be on element %d, is on %r" % (key, prev[-1], owners or texts))
    return prob


def check_labels(case):
    """C09: every label on the element it stands in, exactly once, verbatim; keys and notes of references."""
    text, nm, notes, (got, order, prob, doclabels) = run(case)
    exp = expected(case)
    prob = [p for p in prob if "label" in p or "keys" in p]
    owned = {l for n in exp.values() for l in n["labels"]}
    byhand = [i for i, e in enumerate(case["doc"], 1)
              if (e["k"] == "label" or (e["k"] == "tab" and e["n"])) and i not in owned]
    if not nm.doc:
        prob += fragment_labels(case, nm, exp, got, byhand, doclabels)
    elif doclabels != [nm.label(i) for i in byhand]:
        prob.append("labels of the document should be %r, are %r" % ([nm.label(i) for i in byhand], doclabels))
    for i, n in sorted(exp.items()):
        g = got.get(i)
        if g is None:
            if n["labels"] or n["n"]:
                prob.append("element %d (%s) is missing" % (i, n["k"]))
            continue
        if not nm.doc and (n["par"] == 0 or exp[n["par"]]["k"] == "abstract"):
            if n["k"] != "text" and [l for l in g.get("labels", []) if l not in map(nm.label, byhand)] != [nm.label(l) for l in n["labels"]]:
                prob.append("labels of element %d (%s) should be %r, are %r" % (i, n["k"], n["labels"], g.get("labels")))
            continue
        want = [nm.label(l) for l in n["labels"]]
        if g.get("labels", []) != want:
            prob.append("labels of element %d (%s) should be %r, are %r" % (i, n["k"], want, g.get("labels")))
        if n["k"] in ("ref", "citation", "url"):
            keys = [notes[("url", i)]] if n["k"] == "url" else [nm.key(i, j) for j in range(1, n["n"] + 1)]
            have = [g["content"]] if n["k"] == "url" else g["content"]
            if g["k"] != n["k"] or have != keys:
                prob.append("%s %d should carry %r, is %s %r" % (n["k"], i, keys, g["k"], have))
            t = nospace(flat_text(g.get("title") or ""))
            if t != nospace(notes.get(i, "")):
                prob.append("note of %s %d should read %r, is %r" % (n["k"], i, notes.get(i, ""), t))
    return report(prob, text)
