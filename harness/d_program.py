"""Program.tla <-> code: starred forms, names put together, switches, loops, paired
delimiters, read by the real parser and compared with what the model says is read."""
import re
import json
from lx import rng_for, parse_build

NAMES = [["mac", "macs", "macro"], ["foac", "fo", "foacb"], ["ac", "acq@ac", "acac"], ["xac", "xacx", "yac"]]
DELIMS = {1: ("\\lvert", "\\rvert"), 2: ("\\lfloor", "\\rfloor"), 3: ("\\langle", "\\rangle")}
PAIRS = {1: "abs", 2: "floor", 3: "ang"}
SEEN = re.compile(r"w\d+[snp]?z|\*|\\[lr](?:vert|floor|angle)(?![a-zA-Z])")


def alpha(n):
    return chr(97 + n // 26) + chr(97 + n % 26)


class Doc:
    def __init__(self, case):
        self.case, self.r = case, rng_for(case)
        self.names = self.r.choice(NAMES)
        self.pre = ["\\newcommand{\\nn}{ac}", "\\newbool{sw}\\booltrue{sw}\\newtoggle{tg}\\toggletrue{tg}",
                    "\\def\\mk#1#2{\\expandafter\\def\\csname #1\\endcsname{#2}}"]
        for v, n in PAIRS.items():
            l, r = DELIMS[v]
            self.pre.append(self.r.choice(["\\DeclarePairedDelimiter{\\%s}{%s}{%s}", "\\DeclarePairedDelimiter\\%s{%s}{%s}"]) % (n, l, r))
        self.there = set()
        self.frames = []

    def on(self):
        return all(f[1] for f in self.frames)

    def name(self, m):
        return self.names[m - 1]

    def made(self, m):
        """The name where it is put together."""
        n = self.name(m)
        if "ac" in n and self.r.random() < .4:
            i = n.index("ac")
            rest = n[i + 2:]
            return n[:i] + "\\nn" + (" " if rest[:1].isalpha() or rest[:1] == "@" else "") + rest
        return n

    def helper(self, name, word, arg):
        body = word + ("-#1" if arg else "")
        return self.r.choice(["\\newcommand{\\%s}%s{%s}" % (name, "[1]" if arg else "", body), "\\def\\%s%s{%s}" % (name, "#1" if arg else "", body)])

    def definition(self, it):
        r, v, f, w = self.r, it["v"], it["f"], it["w"]
        before, after = "", ""
        arg = 0
        if f == "plain":
            body = "w%dz" % v
        elif f == "arg":
            body, arg = r.choice(["w%dz-#1", "w%dz (#1)", "w%dz\\textit{}#1"]) % v, 1
        else:
            s, n = "w%dsz" % v, "w%dnz" % v
            if f in ("starh", "stara"):
                hs, hn = "hs" + alpha(v), "hn" + alpha(v)
                helpers = self.helper(hs, s, f == "stara") + r.choice(["", "\n"]) + self.helper(hn, n, f == "stara")
                if r.random() < .5:
                    before = helpers + r.choice(["", "\n"])
                else:
                    after = r.choice(["", "\n"]) + helpers
                body = r.choice(["\\@ifstar\\%s\\%s", "\\@ifstar{\\%s}{\\%s}", "\\@ifstar \\%s \\%s", "\\@ifstar{\\%s}\\%s", "\\@ifstar\\%s{\\%s}"]) % (hs, hn)
            else:
                body = r.choice(["\\@ifstar{%s}{%s}", "\\@ifstar {%s} {%s}", "\\@ifstar{\\textup{%s}}{%s}"]) % (s, n)
            if f == "pre":
                if r.random() < .5:
                    body = "w%dpz" % v + body
                else:
                    before += "\\newcommand{\\pp%s}{w%dpz}" % (alpha(v), v)
                    body = "\\pp%s" % alpha(v) + body
        name, made = self.name(it["m"]), self.made(it["m"])
        params = "#1" if arg else ""
        count = "[1]" if arg else ""
        if w in ("new", "robust"):
            c = "DeclareRobustCommand" if w == "robust" else "renewcommand" if name in self.there else r.choice(["newcommand", "providecommand"])
            d = r.choice(["\\%s{\\%s}%s{%s}", "\\%s\\%s%s{%s}", "\\%s*{\\%s}%s{%s}", "\\%s {\\%s} %s {%s}"]) % (c, name, count, body)
        elif w == "def":
            d = r.choice(["\\def\\%s%s{%s}", "\\gdef\\%s%s{%s}", "\\long\\def\\%s%s{%s}"]) % (name, params, body)
        elif w == "cs":
            d = r.choice(["\\expandafter\\def\\csname %s\\endcsname%s{%s}", "\\expandafter\\gdef\\csname %s\\endcsname%s{%s}",
                          "\\expandafter\\def\\csname  %s\\endcsname%s{%s}"]) % (made, params, body)
        elif w == "csnew":
            c = "renewcommand" if name in self.there else "newcommand"
            d = r.choice(["\\expandafter\\%s\\csname %s\\endcsname%s{%s}", "\\expandafter\\%s\\expandafter{\\csname %s\\endcsname}%s{%s}",
                          "\\expandafter\\%s\\csname %s\\endcsname %s{%s}"]) % (c, made, count, body)
        elif w == "named":
            d = "\\@namedef{%s}%s{%s}" % (made, params, body)
        else:
            d = "\\mk{%s}{%s}" % (name, body)
        if self.on():
            self.there.add(name)
        return before + d + after + r.choice(["", "\n", " "])

    def use(self, it, nxt):
        r, w = self.r, it["w"]
        if w == "direct":
            s = "\\" + self.name(it["m"])
            bare = True
        else:
            s = r.choice(["\\csname %s\\endcsname", "\\csname  %s\\endcsname"]) % self.made(it["m"]) if w == "cs" else "\\@nameuse{%s}" % self.made(it["m"])
            bare = w == "cs"
        if nxt in ("star", "blank", "arg"):
            return s
        return s + (r.choice(["{}", " ", "{} ", "\n"]) if bare else r.choice(["", " "]))

    def render(self):
        r, out = self.r, []
        doc = self.case["doc"]
        takes = False
        for i, it in enumerate(doc):
            k = it["k"]
            if k == "word":
                if takes:
                    out.append("{w%dz}" % it["v"] + r.choice(["", " "]))
                    takes = False
                else:
                    out.append(r.choice(["w%dz ", " w%dz ", "w%dz\n"]) % it["v"])
            elif k == "star":
                out.append("*" + ("" if takes else r.choice([" ", ""])))
            elif k == "blank":
                out.append(r.choice([" ", "\n", "  "]))
            elif k == "def":
                out.append(self.definition(it))
            elif k == "let":
                a, b = self.name(it["m"]), self.name(it["v"])
                if it["w"] == "cs":
                    out.append(r.choice(["\\expandafter\\let\\csname %s\\endcsname\\%s", "\\expandafter\\let\\csname %s\\endcsname=\\%s",
                                         "\\expandafter\\let\\csname %s\\expandafter\\endcsname\\csname %s\\endcsname"]) % (a, b) + "\n")
                else:
                    out.append(r.choice(["\\let\\%s\\%s", "\\let\\%s=\\%s", "\\let\\%s = \\%s"]) % (a, b) + "\n")
                if self.on():
                    self.there.add(a)
            elif k == "use":
                takes = it["f"] in ("arg", "stara")
                n = doc[i + 1]["k"] if i + 1 < len(doc) else ""
                out.append(self.use(it, "arg" if takes and n == "word" else n))
            elif k == "open":
                f, w = it["f"], it["w"]
                end = "}"
                if f == "cond":
                    s = r.choice(["\\%s{%s}{", "\\%s{%s} {"]) % (w, "sw" if "bool" in w else "tg")
                elif f == "loop":
                    s, end = {"foreach": (r.choice(["\\foreach \\x in {1,2}{", "\\foreach \\x/\\y in {1/2,3/4} {", "\\foreach \\x [count=\\xi] in {a,...,c}\n{", "\\foreach\\x in \\mylist {"]), "}"),
                              "semi": ("\\foreach \\x in {1,...,3} \\node at (\\x,0) {", "};"),
                              "nested": ("\\foreach \\x in {1,2}{\\foreach \\y in {a,b} {", "}}"),
                              "forloop": ("\\forloop{ct}{1}{\\value{ct} < 3}{", "}")}[w]
                    end += r.choice(["", " ", "\n"])
                elif f == "math":
                    s, end = {"inline": r.choice([("$", "$ "), ("\\(", "\\)")]), "display": r.choice([("\\[", "\\]"), ("\\begin{equation}", "\\end{equation}\n")])}[w]
                elif f == "bold":
                    s = "\\textbf{"
                else:
                    s = "\\" + PAIRS[it["v"]] + {"": r.choice(["{", " {"]), "star": "*{", "size": r.choice(["[\\big]{", "[\\Bigg]{", "[\\bigg] {"])}[w]
                on = f != "loop" and not (f == "cond" and w.startswith("not"))
                self.frames.append([f, on, end])
                out.append(s)
            elif k == "mid":
                self.frames[-1][1] = not self.frames[-1][1]
                out.append("}" + r.choice(["", " ", "\n"]) + "{")
            elif k == "close":
                out.append(self.frames.pop()[2])
            elif k == "assign":
                v = it["v"]
                out.append({"toks": r.choice(["\\newtoks\\tk%s \\tk%s={{w%dz} w9z} ", "\\newtoks\\tk%s\\tk%s = {w%dz}", "\\newtoks\\tk%s\n\\tk%s{w%dz}\n"]) % (alpha(v), alpha(v), v),
                            "bool": r.choice(["\\setbool{sw}{true}", "\\booltrue{sw}", "\\newbool{b%s}\\boolfalse{b%s}" % (alpha(v), alpha(v)), "\\providebool{b%s}" % alpha(v)]),
                            "toggle": r.choice(["\\settoggle{tg}{true}", "\\toggletrue{tg}", "\\newtoggle{t%s}\\togglefalse{t%s}" % (alpha(v), alpha(v)), "\\providetoggle{t%s}" % alpha(v)])}[w_of(it)])
            else:
                raise ValueError(k)
        return "".join(out)


def w_of(it):
    return it["w"]


def observe(tokens):
    out = []

    def go(t, b):
        if isinstance(t, list):
            for x in t:
                go(x, b)
        elif isinstance(t, str):
            out.extend([m, b, False] for m in SEEN.findall(t))
        elif isinstance(t, dict):
            if t.get("type") == "equation":
                out.extend([m, b or "bold" in (t.get("styles") or []), True] for m in SEEN.findall(str(t.get("content"))))
                return
            if t.get("type") == "command":
                out.append(["command " + str(t.get("command")), b, False])
            go(t.get("content"), b or "bold" in (t.get("styles") or []))

    go(tokens, False)
    return out


def check_program(case):
    d = Doc(case)
    body = d.render()
    pre = "\\makeatletter\n" + "\n".join(d.pre) + "\n"
    tex = d.r.choice([pre + body + "\n", "\\documentclass{article}\n" + pre + "\\begin{document}\n" + body + "\n\\end{document}\n"])
    got = parse_build(tex)
    want = []
    for o in case["out"]:
        k, v = o["k"], o["v"]
        t = "*" if k == "*" else DELIMS[v][0] if k == "L" else DELIMS[v][1] if k == "R" else "w%d%sz" % (v, k if k in "snp" else "")
        want.append([t, o["b"] and not o["m"], o["m"]])
    seen = [[t, b and not m, m] for t, b, m in observe(got)]
    if seen != want:
        i = next((i for i, (a, b) in enumerate(zip(seen, want)) if a != b), min(len(seen), len(want)))
        return ["the reading, at %d: %r, expected %r (what, bold, in a formula)\n%s\n   gives %s" % (i + 1, seen[i:i + 3], want[i:i + 3], tex, json.dumps(got, ensure_ascii=False)[:1500])]
    return []
