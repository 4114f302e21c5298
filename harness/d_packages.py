"""Packages.tla <-> code: a document with its own class, style and input files, written out and
read by the real reader; what has been declared shows in what the body's uses read as."""
import os
import re
import shutil
import tempfile
from lx import rng_for, dump
from latex2json.tex_reader import TexReader

SUFFIX = {"p": ".sty", "c": ".cls", "i": ".tex"}
MACROS = {"x": "mac", "y": "macs"}
COLOURS = {"x": "tint", "y": "tints"}
NOISE = ["\\ProvidesPackage{%s}[2020/01/01 v1.0 its own]\n", "\\NeedsTeXFormat{LaTeX2e}\n", "\\ProcessOptions\\relax\n", "\\ExecuteOptions{final,10pt}\n",
         "\\setlength{\\parindent}{0pt}\n", "\\setlength\\textwidth{6in}", "\\newlength{\\len%s}\n", "\\newcounter{ctr%s}\n", "% \\newtheorem{x}{y} %s\n",
         "\\makeatletter\n", "\\hyphenation{ver-batim}", "\\typeout{Loading %s.}\n", "\\DeclareOption*{}\n", "\\RequirePackage{amsmath}\n", "\\PassOptionsToPackage{draft}{graphicx}\n",
         "\\newif\\ifopt%s \\opt%strue\n", "\\DeclareMathOperator{\\op%s}{op}\n", "\\pagestyle{empty}", "\\renewcommand{\\baselinestretch}{1.2}\n",
         "\\newenvironment{env%s}{\\begin{quote}}{\\end{quote}}\n", "\\definecolor{other%s}{gray}{0.5}\n", "\\newcommand{\\other%s}[2][o]{\\begin{x}#1\\end{x}#2}\n",
         "\n\n", "\\let\\old%s\\section\n", "\\makeatother\n"]
WORD = re.compile(r"w\d+z")


def alpha(n):
    return chr(97 + n // 26) + chr(97 + n % 26)


class Doc:
    def __init__(self, case):
        self.case, self.r = case, rng_for(case)
        self.dir = {f: self.r.choice(["", "sub/", "sub/", "my.sty/", "a/b/", "sub/b/"]) for f in case["files"]}
        self.dir["none"] = ""

    def title(self, v):
        return "Titled%s" % alpha(v)

    def mac(self, it, style):
        r, m = self.r, MACROS[it["m"]]
        a = it["v"] if style else 0
        body = ("code" + "".join(r.choice([" #%d", "{#%d}", "-#%d"]) % (i + 1) for i in range(a))) if style else "s%dz" % it["v"]
        n = "[%d]" % a if a else ""
        if it["w"] == "prov":
            return r.choice(["\\providecommand{\\%s}%s{%s}", "\\providecommand\\%s%s{%s}", "\\providecommand*{\\%s}%s{%s}"]) % (m, n, body)
        if r.random() < .3:
            return r.choice(["\\def\\%s%s{%s}", "\\gdef\\%s%s{%s}"]) % (m, "".join("#%d" % (i + 1) for i in range(a)), body)
        return r.choice(["\\newcommand{\\%s}%s{%s}", "\\newcommand\\%s%s{%s}", "\\renewcommand{\\%s}%s{%s}", "\\newcommand*{\\%s}%s{%s}",
                         "\\DeclareRobustCommand{\\%s}%s{%s}"]) % (m, n, body)

    def at(self, x, f):
        """Name of a file: from the document, or from the folder of the file that names it"""
        if f and SUFFIX[f[0]] != ".tex" and self.dir[f] and x in self.case["files"] and self.dir[x].startswith(self.dir[f]) and self.r.random() < .6:
            return self.dir[x][len(self.dir[f]):] + x
        return self.dir[x] + x

    def item(self, it, f):
        r, k = self.r, it["k"]
        if k == "req":
            fs = [self.at(x, f) for x in it["fs"]]
            use = r.choice(["usepackage", "RequirePackage"]) if f else "RequirePackage" if self.early else "usepackage"
            opt = r.choice(["", "", "[opt]", "[a=b,c]"])
            after = r.choice(["", "", "[2020/01/01]"]) if f else ""
            if f and len(fs) == 1 and r.random() < .2:
                return "\\RequirePackageWithOptions{%s}%s\n" % (fs[0], after)
            if len(fs) == 2 and r.random() < .3:
                return "".join("\\%s%s{%s}%s\n" % (use, opt, x, after) for x in fs)
            return "\\%s%s{%s}%s" % (use, opt, r.choice([",", ", ", " , ", ",\n  "]).join(fs), after) + r.choice(["\n", "", " % them\n"])
        if k == "class":
            if not f:
                if it["w"] == "style":
                    o = [self.at(it["fs"][1], f)] + r.choice([[], ["12pt"], ["twoside", "epsf"]])
                    r.shuffle(o)
                    return "\\documentstyle[%s]{%s}\n" % (r.choice([",", ", ", ",\n "]).join(o), self.at(it["fs"][0], f))
                return "\\documentclass%s{%s}\n" % (r.choice(["", "[12pt]", "[a,\n b]"]), self.at(it["fs"][0], f))
            if r.random() < .3:
                return "\\LoadClassWithOptions{%s}\n" % (self.at(it["fs"][0], f))
            return "\\LoadClass%s{%s}%s\n" % (r.choice(["", "[12pt]"]), self.at(it["fs"][0], f), r.choice(["", "[2020/01/01]"]))
        if k == "input":
            return "\\input{%s%s%s}\n" % (self.dir[it["fs"][0]], it["fs"][0], r.choice(["", ".tex"]))
        if k == "thm":
            d = r.choice(["\\newtheorem{thm%s}{%s}", "\\newtheorem{thm%s}{%s}", "\\newtheorem{thm%s}[equation]{%s}", "\\newtheorem{thm%s}{%s}[section]", "\\newtheorem*{thm%s}{%s}"]) % (alpha(it["v"]), self.title(it["v"]))
            if it["w"] == "begin":
                d = "\\AtBeginDocument{%s%s}" % (r.choice(["", "\\relax ", "\n  "]), d)
            return d + r.choice(["\n", "", " % it\n"])
        if k == "col":
            return "\\definecolor{%s}{gray}{0.%d}\n" % (COLOURS[it["m"]], it["v"])
        if k == "mac":
            return self.mac(it, bool(f)) + r.choice(["\n", "", " % it\n"])
        if k == "open":
            w = it["w"]
            if w in ("true", "false"):
                return "\\if%s%s" % (w, r.choice(["\n", " "]))
            return "\\IfFileExists{%s}{" % (r.choice([self.at("pa", f) + ".sty", self.at("ca", f) + ".cls"]) if w == "there" else "nowhere.sty")
        if k == "mid":
            return "}{" if self.braced else "\\else" + r.choice(["\n", " "])
        if k == "close":
            return ("}" + ("" if self.mid else "{}") if self.braced else "\\fi") + "\n"
        if k == "endinput":
            return "\n\\endinput\n"
        if k == "noise":
            s = r.choice([x for x in NOISE if not (self.inside and "newif" in x)])     # TeX does not know it in a branch it skips
            return s.replace("%s", alpha(it["v"]))
        raise ValueError(k)

    def text(self, items, f):
        out = []
        self.braced = self.mid = self.inside = False
        for it in items:
            self.inside = it["k"] == "open" or self.inside and it["k"] != "close"
            if it["k"] == "open":
                self.braced, self.mid = it["w"] in ("there", "lost"), False
            if not f:
                self.early = all(x["k"] != "class" for x in items[:items.index(it) + 1])
            out.append(self.item(it, f))
            if it["k"] == "mid":
                self.mid = True
        return "".join(out)

    def body(self):
        r, out = self.r, []
        for u in self.case["body"]:
            k = u["k"]
            if k == "word":
                out.append("w%dz" % u["v"])
            elif k == "own":
                out.append("\\%s{}" % MACROS[u["m"]])
            elif k == "style":
                out.append("\\%s%s" % (MACROS[u["m"]], "".join("{arg%d}" % i for i in range(u["v"])) or "{}"))
            elif k == "thm":
                out.append("\\begin{thm%s} inner \\end{thm%s}" % (alpha(u["v"]), alpha(u["v"])))
            elif k == "col":
                out.append("\\textcolor{%s}{w%dz}" % (COLOURS[u["m"]], u["v"]))
        return r.choice([" ", "\n", "\n\n"]).join(out)


def observe(tokens):
    out = []

    def go(t):
        if isinstance(t, list):
            for x in t:
                go(x)
        elif isinstance(t, dict):
            if t.get("type") in ("environment", "math_env"):
                out.append(["env", t.get("name")])
                return
            if t.get("type") == "command":
                out.append(["command", t.get("command")])
            c = t.get("content")
            if isinstance(c, str):
                out.extend(["text", x] for x in c.split())
            else:
                go(c)
    go(tokens)
    return out


def check_packages(case):
    d = Doc(case)
    top = tempfile.mkdtemp(prefix="l2j_pkg_")
    try:
        texts = {}
        for f, items in case["files"].items():
            texts[d.dir[f] + f + SUFFIX[f[0]]] = d.text(items, f)
        texts["main.tex"] = d.text(case["pre"], "") + "\\begin{document}\n" + d.body() + "\n\\end{document}\n"
        for name, text in texts.items():
            path = os.path.join(top, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as fh:
                fh.write(text.replace("\n", d.r.choice(["\n", "\n", "\n", "\r\n", "\r"])).encode())
        res = TexReader().process_file(os.path.join(top, "main.tex"))
        got = observe([dump(t) for t in res.tokens])
        colours = {k: v.get("value") for k, v in (res.color_map or {}).items() if k in COLOURS.values()}
    finally:
        shutil.rmtree(top, ignore_errors=True)
    want = []
    for o in case["out"]:
        v = o["v"]
        want.append({"word": ["text", "w%dz" % v], "said": ["text", "s%dz" % v], "titled": ["env", d.title(v)], "named": ["env", "thm" + alpha(v)]}[o["k"]])
    bad = []
    shown = "\n".join("--- %s\n%s" % x for x in texts.items() if x[1])
    if got != want:
        bad.append("the body reads %r, expected %r\n%s" % (got, want, shown))
    wc = {COLOURS[m]: "0.%d" % v for m, v in case["col"].items() if v}
    if colours != wc:
        bad.append("the colours are %r, expected %r\n%s" % (colours, wc, shown))
    return bad
