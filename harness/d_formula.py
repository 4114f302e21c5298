"""Formula.tla <-> code: formulas in text, their content, numbers, labels and references."""
import json, re
from lx import rng_for, parse_build

DEFS = (r"\newcommand{\bmac}{\mathbf{m}}" "\n" r"\def\bsym{\beta}" "\n" r"\newcommand{\babs}[1]{\left|#1\right|}" "\n"
        r"\newcommand{\bhat}[1]{\hat{#1}_0}" "\n" r"\newcommand{\be}{\begin{equation}}" "\n" r"\newcommand{\ee}{\end{equation}}" "\n"
        r"\def\bea{\begin{eqnarray}}" "\n" r"\def\eea{\end{eqnarray}}" "\n")
X = ["x_{%d}", "A_{%d}", "\\alpha_{%d}", "y^{%d}", "%d", "z%d", "\\xi %d", "x_{%d}^{*}", "{z}_{%d}"]
OP = ["+", "-", "=", "<", ">", "/", "|", "!", ",", ";", ":", ".", "*", "(", ")", "[", "]", "\\le", "\\cdot", "\\in", "\\to", "\\sum", "\\infty",
      "\\ldots", "\\forall", "\\|", "@", "\"", "`", "~", "--", "?"]
ESC = ["\\$", "\\%", "\\&", "\\#", "\\_", "\\{", "\\}"]
PRIME = ["'", "''", "'''", "^\\prime"]
FUNC = ["\\sin", "\\log", "\\max", "\\operatorname{rank}", "\\mathbb{R}", "\\mathcal{L}", "\\frac12", "\\sqrt2", "\\displaystyle", "\\nonumber",
        "\\limits", "\\mathrm d", "\\frac{a}{b}", "\\binom{n}{k}", "\\partial", "\\nabla", "\\dot{x}", "\\not="]
SPACE = ["\\,", "\\;", "\\!", "\\:", "\\quad", "\\qquad", "\\ ", "\\hspace{1cm}", "{}"]
GROUP = {"^{": ["^{"], "_{": ["_{"], "hat{": ["\\hat{", "\\tilde{", "\\overline{", "\\vec{"], "bb{": ["\\mathbf{", "\\mathrm{", "\\sqrt{", "\\frac{1}{"], "grp{": ["{"]}
ARRAY = {1: ["matrix", "pmatrix", "bmatrix", "smallmatrix", "cases", "aligned", "split", "gathered"], 2: ["array"], 3: ["alignedat"]}
LEFT = {1: [("\\left(", "\\right)"), ("\\bigl(", "\\bigr)"), ("\\left[", "\\right[")], 2: [("\\left\\{", "\\right."), ("\\left\\{", "\\right\\}")],
        3: [("\\left\\langle", "\\right\\rangle"), ("\\langle", "\\rangle")]}
ENVS = {1: ["equation", "dmath", "be"], 2: ["equation*", "dmath*", "displaymath"], 3: ["align", "eqnarray", "flalign", "alignat", "bea"],
        4: ["align*", "eqnarray*", "flalign*", "alignat*"], 5: ["gather", "multline"], 6: ["gather*", "multline*"]}
BOX = {"bf{": ["\\textbf{"], "em{": ["\\textit{"], "note{": ["\\footnote{"], "head{": ["\n\\section{", "\n\\subsection*{"], "{": ["{"], "quote{": ["``"]}
MACEXP = [(r"\bmac", r"\mathbf{m}"), (r"\bsym", r"\beta")]


ARITY = dict.fromkeys(("^", "_", *(f"\\{n}" for n in "hat tilde overline vec mathbf mathrm sqrt mathbb mathcal operatorname dot mathbb text textit textbf textrm mbox fbox "
                                   "footnote hspace eqref ref cite label end section".split())), 1)
ARITY |= {"\\frac": 2, "\\binom": 2, "\\begin": 2, "\\href": 2}


def plain(toks):
    """Without braces that only group, and boxes around nothing but a formula."""
    out, stack, more = [], [], {}     # how many arguments follow
    for t in toks:
        if t == "{":
            prev = out[-1] if out else ""
            n = more.get(len(out), 0) if prev == "}" else ARITY.get(prev, 0)
            stack.append((len(out), n))
            out.append(t)
        elif t == "}" and stack:
            at, n = stack.pop()
            inner = out[at + 1:]
            more = {k: v for k, v in more.items() if k <= at}
            if not n:
                out[at:] = inner
            elif at and out[at - 1] in ("\\mbox", "\\fbox") and len(inner) > 2 and inner[0] == inner[-1] == "$" and "$" not in inner[1:-1]:
                out[at - 1:] = inner[1:-1]
            else:
                out.append(t)
                if n > 1 and (out[at - 1] != "\\begin" or "".join(inner) in ("array", "alignedat")):
                    more[len(out)] = n - 1
        else:
            out.append(t)
    return out


MATHS = ("$", "$$", "\\(", "\\[", "begin")


def norm(s):
    """The tokens TeX sees."""
    s = re.sub(r"(?<!\\)((?:\\\\)*)\\\s", r"\1\\ ", s)
    return re.findall(r"\\[a-zA-Z@]+\*?|\\[\s\S]|___PLACEHOLDER_\d+___|w\d+z|\S", s)


class Writer:
    def __init__(self, case):
        self.case = case
        self.r = rng_for(case)

    def write(self):
        r = self.r
        out, stack, line = [], [], False
        self.exp = {}                     # what the atoms of formulas stand for, by position
        self.dead, self.open_at = set(), []
        for i, a in enumerate(self.case["doc"]):
            k, n = a["k"], a["n"]
            e = None
            dead, depth = line, len(stack)
            gap = r.choice(["", " ", " "])
            if line:
                self.dead.add(i)
                t = {"nl": "\n", "begin": "\\begin{equation}", "end": "\\end{equation}", "pct": "%", "label": "\\label{dead}", "w": "dead"}.get(k, k)
                line = k != "nl"
                gap = "" if k == "nl" else gap
            elif k == "pct":
                t, line, gap = "%", True, r.choice(["", " "])
            elif k == "nl":
                t, gap = "\n", r.choice(["", "  "])
            elif stack and (k, n) == stack[-1]["end"]:
                f = stack.pop()
                t, e = f["t"], f["e"]
                if f["k"] in ("$", "\\("):
                    gap = self.after(i)
                elif f["k"] == "head{":
                    gap = "\n"
                elif f["k"] in ("$$", "\\[", "begin"):
                    gap = r.choice([" ", "\n", ""])
            elif k in ("$", "$$", "\\(", "\\["):
                t = e = k
                close = {"\\(": "\\)", "\\[": "\\]"}.get(k, k)
                stack.append(dict(k=k, end=(close, 0), t=close, e=close))
            elif k == "begin":
                # (macros that open formulas are not seen in quotes)
                name = r.choice([e for e in ENVS[n] if e[:2] != "be" or not any(f["k"] == "quote{" for f in stack)])
                if name in ("be", "bea"):
                    t, close = "\\" + name, "\\e" + name[1:]
                    close = {"be": "\\ee", "bea": "\\eea"}[name]
                else:
                    t, close = "\\begin%s{%s}" % (r.choice(["", "", " "]), name), "\\end%s{%s}" % (r.choice(["", "", " "]), name)
                    if name.startswith("alignat"):
                        t += "{2}"
                stack.append(dict(k=k, end=("end", n), t=close, e=close))
            elif k in BOX:
                t = r.choice(BOX[k])
                gap = ""
                close = "''" if k == "quote{" else "}"
                stack.append(dict(k=k, end=(close, 0), t=close, e=None))
            elif k == "mac1{":
                t, (e, ce) = r.choice([("\\babs{", ("\\left|", "\\right|")), ("\\bhat{", ("\\hat{", "}_0"))])
                stack.append(dict(k=k, end=("}", 0), t="}", e=ce))
            elif k in GROUP or k in ("text{", "mbox{"):
                t = e = r.choice(GROUP.get(k) or {"text{": ["\\text{", "\\textrm{", "\\textit{", "\\textbf{"], "mbox{": ["\\mbox{", "\\fbox{"]}[k])
                stack.append(dict(k=k, end=("}", 0), t="}", e="}"))
            elif k == "array":
                name = r.choice(ARRAY[n])
                t = e = "\\begin{%s}%s" % (name, {"array": "{cc}", "alignedat": "{2}"}.get(name, ""))
                c = "\\end{%s}" % name
                stack.append(dict(k=k, end=("endarray", n), t=c, e=c))
            elif k == "left":
                t, c = r.choice(LEFT[n])
                e = t
                stack.append(dict(k=k, end=("right", n), t=c, e=c))
            elif k == "w":
                t = e = "w%dz" % n
                gap = " "
            elif k == "x":
                t = e = r.choice(X) % n
            elif k in ("op", "esc", "prime", "func", "space"):
                if k == "space" and sum(f["k"] in MATHS for f in stack) > 1:
                    k = "func"        # (not an inner formula with nothing but {})
                t = e = r.choice({"op": OP, "esc": ESC, "prime": PRIME, "func": FUNC, "space": SPACE}[k])
            elif k == "mac":
                t, e = r.choice(MACEXP)
            elif k == "label":
                t = "\\label{eq:%d}" % n
            elif k == "ref":
                t = r.choice(["\\ref{eq:%d}", "\\eqref{eq:%d}"]) % n
            elif k == "cite":
                t = "\\cite{c%d}" % n
            elif k == "pic":
                t = "\\includegraphics%s{p%d.png}" % (r.choice(["", "[width=1cm]"]), n)
            elif k == "link":
                t = "\\href{http://h.org/%d}{t%dz}" % (n, n)
            elif k == "&":
                t = e = "&"
            elif k == "row":
                t = e = r.choice(["\\\\", "\\\\", "\\\\[2pt]"])
            elif k == "dollar":
                t, e, gap = "\\$", "\\$", " "
            elif k == "percent":
                t, e, gap = "5\\%", "5\\%", " "
            else:
                raise ValueError(k)
            if k in MATHS and not dead and depth < len(stack) and sum(f["k"] in MATHS for f in stack) == 1:
                self.open_at.append(i)
            if e is not None:
                self.exp[i] = e
            # a control word does not run into the letters that follow
            if re.search(r"\\[a-zA-Z]+\*?$", t) and gap == "" and not line:
                gap = " "
            if t.endswith("\\\\") and not gap:
                gap = " "
            out.append(t + gap)
        return DEFS + "\\begin{document}\n" + "".join(out) + "\n\\end{document}\n"

    def after(self, i):
        nxt = self.case["doc"][i + 1]["k"] if i + 1 < len(self.case["doc"]) else ""
        return "" if nxt in ("$", "''", "}") else self.r.choice(["", " "])


def expected(case, w):
    """Words and formulas in the order read. The bodies list atoms without positions, so the atoms of
    the document are matched with them in turn."""
    want = []
    pos = -1
    doc = case["doc"]
    for it in case["out"]:
        if it["t"] == "w":
            if it["d"] == "w":
                want.append(("w", "w%dz" % it["n"], it["st"]["em"], it["st"]["bf"]))
            continue
        toks, nref = [], 0
        # the opening of the formula
        pos = w.open_at[len([x for x in want if x[0] == "f"])]
        j = pos
        for a in it["body"]:
            j += 1
            while j in w.dead or (doc[j]["k"], doc[j]["n"]) != (a["k"], a["n"]):
                j += 1
            if a["k"] in ("ref", "cite", "pic", "link"):
                toks.append("___PLACEHOLDER_%d___" % nref)
                nref += 1
            else:
                toks += norm(w.exp[j])
        want.append(("f", plain(toks), it["d"] in ("$$", "\\[", "begin"), str(it["num"]) if it["num"] else None, ["eq:%d" % l for l in it["labels"]],
                     [(a["k"], a["n"]) for a in it["refs"]], it["n"] in (3, 4), it["st"]["em"], it["st"]["bf"]))
    return want


def seen(tokens):
    got = []

    def refs(e):
        out = []
        for key, ts in (e.get("placeholders") or {}).items():
            for t in ts:
                c = t["content"]
                k = {"ref": "ref", "citation": "cite", "includegraphics": "pic", "url": "link"}[t["type"]]
                m = re.search(r"(\d+)(?:\.png)?$", c if isinstance(c, str) else c[0])
                out.append((key, (k, int(m.group(1)))))
        return [x[1] for x in sorted(out, key=lambda x: int(x[0].strip("_").split("_")[1]))]

    def go(t, st):
        if isinstance(t, list):
            for x in t:
                go(x, st)
        elif isinstance(t, str):
            go({"type": "text", "content": t}, st)
        elif isinstance(t, dict):
            st = st | set(t.get("styles") or [])
            flags = ("italic" in st, "bold" in st)
            ty = t.get("type")
            if ty == "equation":
                got.append(("f", plain(norm(t["content"])), t.get("display") == "block", t.get("numbering"), t.get("labels") or [], refs(t),
                            bool(t.get("align"))) + flags)
                if re.search(r"\dzw\d", t["content"]):
                    got.append(("glued", t["content"]))
            elif ty == "text" and isinstance(t["content"], str):
                for x in re.findall(r"w\d+z|[^\s$%5\"`'’“”]+", t["content"]):
                    got.append(("w", x) + flags)
            else:
                go(t.get("title"), st)
                go(t.get("content"), st)
    go(tokens, set())
    return got


def check_formula(case):
    w = Writer(case)
    tex = w.write()
    got = seen(parse_build(tex))
    want = expected(case, w)
    for i in range(max(len(got), len(want))):
        g, e = got[i] if i < len(got) else None, want[i] if i < len(want) else None
        if g != e:
            if g and e and g[0] == e[0] == "f" and g[1] != e[1]:
                j = next((j for j in range(min(len(g[1]), len(e[1]))) if g[1][j] != e[1][j]), min(len(g[1]), len(e[1])))
                g, e = g[1][max(j - 4, 0):j + 8], e[1][max(j - 4, 0):j + 8]
            return ["piece %d reads %r, expected %r\n%s" % (i + 1, g, e, tex[tex.index("\\begin{document}"):])]
    return []
