"""Macro.tla <-> code: render definitions and uses, compare what every use yields."""
import re
from lx import parse_build, rng_for, flat_text, nospace

CS = {"x": "x", "xy": "xy", "f": "f", "fg": "foo", "g": "my@g", "phi": "phi", "varphi": "varphi"}
TABLES = [dict(CS), dict(CS), dict(CS, x="q@", xy="q@y", f="f@@", fg="f@@oo", g="@g"), dict(CS, x="Ab", xy="AbC", f="tex", fg="texts", g="A@b@C")]


def cs(n):
    return "\\" + CS.get(n, n)


def body(atoms, r):
    out = []
    for i, x in enumerate(atoms):
        if x["t"] == "w":
            out.append(r.choice(["%s", "%s", " %s", "%s "]) % x["v"])
        elif x["t"] == "arg":
            out.append(r.choice(["#%d", "#%d ", "{#%d}"]) % x["i"])
        else:
            out.append(call(x, r))
    return "".join(out)


def call(x, r):
    s = cs(x["v"])
    args = [body([a], r).strip() for a in x["a"]]
    if x["fm"] == "(" and args:
        return s + "(" + ",".join(args) + ")"
    if x["op"]:
        s += "[" + body(x["op"], r).strip() + "]"
    if not args:
        return s + ("" if x["op"] else r.choice(["{}", " ", "{}"]))
    return s + r.choice(["", "", " "]) + "".join("{%s}" % a for a in args)


def render(doc, r):
    out = []
    CS.update(r.choice(TABLES))
    if any("@" in CS.get(e["name"], "") for e in doc):
        out.append("\\makeatletter ")
    for e in doc:
        k, nm = e["k"], e["name"]
        if k == "nop":
            continue
        sep = r.choice(["\n", "", " ", " % c\n", "\n\n"])
        if k == "def":
            kind = e["kind"]
            b = body(e["b"], r).strip()
            star = r.choice(["", "", "*"])
            if kind in ("cmd", "provide"):
                word = {"provide": "\\providecommand"}.get(kind) or (
                    r.choice(["\\newcommand", "\\newcommand", "\\DeclareRobustCommand"]) if e["free"] else "\\renewcommand")
                head = word + star + r.choice(["{%s}", "{%s}", "%s"]) % cs(nm)
                if e["n"]:
                    head += "[%d]" % e["n"]
                if e["o"]:
                    head += "[%s]" % e["d"]
                out.append(head + r.choice(["", "", " ", "\n"]) + "{" + b + "}")
            else:
                word = {"def": ["\\def", "\\def", "\\gdef", "\\long\\def"], "ddef": ["\\def", "\\gdef"],
                        "edef": ["\\edef", "\\xdef"]}[kind]
                ps = "".join("#%d" % i for i in range(1, e["n"] + 1))
                if kind == "ddef":
                    ps = "(" + ",".join("#%d" % i for i in range(1, e["n"] + 1)) + ")"
                out.append(r.choice(word) + cs(nm) + ps + "{" + b + "}")
        elif k == "let":
            old = e["atom"]["v"]
            out.append("\\let" + cs(nm) + r.choice(["", "=", " = ", " "]) + cs(old) + r.choice([" ", "\n"]))
        elif k == "txt":
            out.append("T%d%s" % (e["id"], e["atom"]["v"]))
            sep = r.choice([" ", "\n"])
        else:
            u = call(e["atom"], r)
            i = e["id"]
            b, z = "B%d:" % i, ":E%d" % i
            if e["math"]:
                out.append(r.choice(["$%s%s%s$", "$ %s %s %s $", "\\(%s%s%s\\)", "\\[%s%s%s\\]",
                                     "\\begin{equation}%s%s%s\\end{equation}",
                                     "$$%s{%s}%s$$", "\\begin{align*}%s%s%s\\end{align*}"]) % (b, u, z))
            else:
                out.append(r.choice(["%s%s%s", "%s%s%s", "%s {%s} %s", "\\footnote{%s%s%s}", "\\textbf{%s%s%s}",
                                     "\\begin{center}%s%s%s\\end{center}", "\n\\section{%s%s%s}\n",
                                     "\\begin{itemize}\\item %s%s%s \\end{itemize}", "{\\em %s%s%s}",
                                     "\\begin{theorem}%s%s%s\\end{theorem}",
                                     "\\begin{tabular}{c}%s%s%s\\\\ q\\end{tabular}"]) % (b, u, z))
        out.append(sep)
    s = "".join(out)
    if r.random() < .3:
        s = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}" % s
    return s


def check(case):
    doc = case["doc"]
    r = rng_for(case)
    tex = render(doc, r)
    out = parse_build(tex)
    flat = re.sub(r"[{}]", "", nospace(flat_text(out)))
    probs = []
    pos = 0
    for e in doc:
        if e["k"] == "txt":
            m = "T%d%s" % (e["id"], e["atom"]["v"])
            p = flat.find(m, pos)
            if p < 0:
                probs.append("word %s is missing or out of order" % m)
            else:
                pos = p
        elif e["k"] == "use":
            m = re.compile(r"B%d:(.*?):E%d" % (e["id"], e["id"])).search(flat, pos)
            if e["free"]:                       # leads into a refused cycle: any outcome
                continue
            if not m:
                probs.append("use %d of %s is missing or out of order" % (e["id"], cs(e["name"])))
                continue
            pos = m.start()
            want = "".join(e["exp"])
            if m.group(1) != want:
                probs.append("use %d of %s yields %r, definition in force says %r" % (e["id"], cs(e["name"]), m.group(1), want))
    return probs and probs + [tex]
