"""Splice.tla <-> code: documents spread over files, read by the real reader, against the
model's output and against the same document in one file."""
import contextlib, io, json, os, re, shutil, tempfile
from lx import rng_for, dump, nospace
from latex2json.tex_reader import TexReader

PLACES = ["f%d", "v.cls/f%d", "b.tikz/my.sty/f%d", "sub/f%d", "a.b/f%d", "my sec/f %d", "sub/deep/f.%d", "../side/f%d", "f_%d-x", "F%d"]
ENC = ["utf-8", "utf-8", "utf-8-sig", "latin-1", "cp1252"]
ACC = {"utf-8": ["", "", "é", "ő", "Ł", "ß", "й", "漢", "—"], "latin-1": ["", "é", "ü", "ß", "ñ", "Å"]}
ACC["utf-8-sig"], ACC["cp1252"] = ACC["utf-8"], ACC["latin-1"] + ["š", "€", "–"]
ENVS = {"quote": ("\\begin{quote} o", "\\end{quote}"), "thm": ("\\begin{thm} o", "\\end{thm}"), "list": ("\\begin{itemize}\\item o ", "\\end{itemize}")}
LEVEL = ["", "section", "subsection", "subsubsection"]
KINDS = {"word": "text", "math": "math", "eq": "math", "bold": "bold", "note": "footnote", "caption": "caption", "cell": "cell",
         "rows": "cell", "group": "text", "arg": "text", "code": "code", "head": "head"}
TEMPLATES = {"math": ["$x_1 + \\mathrm{%s}$", "\\(a %s\\)"], "eq": ["\\begin{equation} y = %s \\end{equation}", "\\[%s\\]", "$$z %s$$"],
             "bold": ["\\textbf{%s}", "{\\bf %s}"], "note": ["\\footnote{n %s}"],
             "caption": ["\\begin{figure}\\caption{%s}\\end{figure}", "\\begin{table}\\caption{C %s d}\\begin{tabular}{c}a\\end{tabular}\\end{table}"],
             "cell": ["\\begin{tabular}{cc} a & %s \\\\ b & c \\end{tabular}", "\\begin{tabular}{|c|c|}\\hline %s & a \\\\ \\hline\\end{tabular}"],
             "rows": ["\\begin{tabular}{cc} a & b \\\\ %s e & f \\\\ \\end{tabular}"], "group": ["{%s}", "{\\small g %s}"], "arg": ["\\iden{%s}"]}
WORD = re.compile(r"w(\d+)\w?[—€–]?z")


class Files:
    def __init__(self, case, r):
        self.case, self.r = case, r
        n = len(case["files"])
        self.name = {1: "main"}
        for i in range(2, n + 1):
            self.name[i] = r.choice(PLACES) % i
        self.enc = {i: r.choice(ENC) for i in range(1, n + 1)}
        self.nl = {i: r.choice(["\n", "\n", "\n", "\r\n", "\r"]) for i in range(1, n + 1)}
        self.word = {}          # word number -> spelling, by the file it is written in
        self.atoms = {}         # atom number -> file name
        self.form = {}          # choices that the one-file document has to share
        for i, items in enumerate(case["files"], 1):
            for it in items:
                if it["k"] in ("word", "atom", "code"):
                    self.spell(it["a"], i)
                elif it["k"] in ("head", "def"):
                    self.spell(it["b"], i)

    def spell(self, v, i):
        self.word[v] = "w%d%sz" % (v, self.r.choice(ACC[self.enc[i]]))

    def pick(self, key, options):
        if key not in self.form:
            self.form[key] = self.r.choice(options)
        return self.form[key]

    def named(self, i, how):
        n = self.name[i]
        if how == "include":
            return "\\include{%s}" % n
        if how == "ext":
            return "\\input{%s.tex}" % n
        if how == "macro":
            return "\\inp{%s}" % n
        return self.pick(("in", i), ["\\input{%s}", "\\input{%s}", "\\input {%s}", "\\input{ %s }"]) % n

    def tex(self, it, flat):
        k, a, b, how, r = it["k"], it["a"], it["b"], it["how"], self.r
        w = self.word.get(a)
        if k == "word":
            return w
        if k == "head":
            return "\n\\%s{%s}\n" % (LEVEL[a], self.word[b])
        if k == "def":
            return {"new": "\\newcommand{\\mac%s}{%s}", "renew": "\\renewcommand{\\mac%s}{%s}", "def": "\\def\\mac%s{%s}",
                    "arg": "\\def\\mac%s#1{#1%s}"}[how] % (chr(96 + a), self.word[b]) + "\n"
        if k == "use":
            return "\\mac%s{}" % chr(96 + a)
        if k == "open":
            return ENVS[how][0]
        if k == "close":
            return ENVS[how][1]
        if k == "begin":
            return "\n\\begin{document}\n"
        if k == "atom":
            body = "& %s \\\\ c & d \\\\" % w if how == "rows" else w
            t = self.pick(("t", a), TEMPLATES[how])
            if how == "rows" and not flat or not flat:
                name = self.pick(("a", a), ["at%d", "sub/at%d", "q/r.s/at%d"]) % a
                self.atoms[name] = (a, body)
                body = self.pick(("ai", a), ["\\input{%s}", "\\input{%s.tex}"]) % name
            if how == "rows":
                t = t.replace("\\\\ %s", "\\\\ q %s")
            return t % body
        if k == "code":
            return self.pick(("c", a), ["\n\\begin{verbatim}\n%s \\input{f2}\n\\end{verbatim}\n", "\\verb|%s \\input{f2}|", "\n\\begin{lstlisting}\n\\input{f2} %s\n\\end{lstlisting}\n"]) % w
        if k == "ghost":
            if flat:
                return ""
            n = self.name[a]
            return {"comment": "%% \\input{%s} \\include{%s}\n" % (n, n),
                    "false": self.pick(("g", a), ["\\iffalse \\input{%s} \\fi", "\\iffalse\n\\section{no}\n\\include{%s}\n\\fi\n", "\\begin{comment}\n\\input{%s}\n\\end{comment}\n"]) % n,
                    "missing": "\\input{nofile%d}" % a}[how]
        if k == "in":
            return self.named(a, how)
        if k == "end":
            return "\n\\endinput\n"
        raise ValueError(k)

    def join(self, items, flat):
        out = ""
        for it in items:
            t = self.tex(it, flat)
            sep = "\n" if it["k"] == "ghost" else self.r.choice([" ", " ", "\n", " %c\n", "\n\n"] if it["k"] != "use" else [" "])
            out += t + sep
        return out


PRE = "\\documentclass{article}\n\\newtheorem{thm}{Theorem}\n\\newcommand{\\iden}[1]{#1}\n\\newcommand{\\inp}[1]{\\input{#1}}\n"


def observe(tokens):
    out = []

    def words(s, kind, sec, env):
        for m in WORD.finditer(s):
            out.append([kind, m.group(0), list(sec), list(env)])

    def go(t, kind, sec, env):
        if isinstance(t, list):
            for x in t:
                go(x, kind, sec, env)
            return
        if isinstance(t, str):
            return words(t, kind, sec, env)
        if not isinstance(t, dict):
            return
        ty = t.get("type")
        if ty == "section":
            sec = tuple(int(x) for x in t["numbering"].split(".")) if t.get("numbering") else ("?",)
            go(t.get("title"), "head", sec, env)
            return go(t.get("content"), kind, sec, env)
        if ty == "quote":
            env = env + ("quote",)
        elif ty == "math_env":
            env = env + ("thm",)
        elif ty == "list":
            env = env + ("list",)
        elif ty == "equation":
            kind = "math"
        elif ty in ("code", "footnote", "caption"):
            kind = ty
        elif ty == "tabular":
            kind = "cell"
        elif ty == "text" and "bold" in (t.get("styles") or []):
            kind = "bold"
        go(t.get("title"), kind, sec, env)
        go(t.get("content"), kind, sec, env)

    go(tokens, "text", (), ())
    return out


def norm(t):
    """Tokens without the white space around files; pieces of text in a row are one."""
    if isinstance(t, str):
        return nospace(t)
    if isinstance(t, list):
        out = []
        for x in map(norm, t):
            if isinstance(x, dict) and x.get("type") == "text":
                if not x.get("content"):
                    continue
                if out and isinstance(out[-1], dict) and out[-1].get("type") == "text" and {**out[-1], "content": 0} == {**x, "content": 0}:
                    out[-1]["content"] = out[-1]["content"] + x["content"]
                    continue
            out.append(x)
        return out
    if isinstance(t, dict):
        return {k: norm(v) or "" for k, v in t.items()}
    return t


def check_splice(case):
    top = tempfile.mkdtemp(prefix="l2jsplice_", dir="/tmp")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return run(case, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def write(path, text, enc, nl):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text.replace("\n", nl).encode(enc))


def run(case, top):
    r = rng_for(case)
    fs = Files(case, r)
    root = top + "/" + r.choice(["proj", "my proj", "p.v2"])
    texts = {}
    for i, items in enumerate(case["files"], 1):
        t = fs.join(items, False)
        if i == 1:
            t = PRE + t + "\n\\end{document}\n"
        elif r.random() < .5:
            t = t.rstrip("\n")
        texts[fs.name[i]] = t
        write(os.path.join(root, fs.name[i] + ".tex"), t, fs.enc[i], fs.nl[i])
    for n, (a, body) in fs.atoms.items():
        texts[n] = body
        enc = next(fs.enc[i] for i, items in enumerate(case["files"], 1) if any(it["k"] == "atom" and it["a"] == a for it in items))
        write(os.path.join(root, n + ".tex"), body + r.choice(["", "\n", "%\n"]), enc, r.choice(["\n", "\r\n"]))
    one = PRE + fs.join(case["flat"], True) + "\n\\end{document}\n"
    write(top + "/one/main.tex", one, "utf-8", "\n")
    shown = "\n".join("--- %s.tex\n%s" % kv for kv in texts.items())
    bad = []

    def note(msg):
        bad.append(msg + "\n" + shown)

    def read(path):
        reader = TexReader()
        return json.loads(reader.to_json(reader.process(path)))["tokens"]

    how = r.choice(["abs", "rel", "folder"])
    cwd = os.getcwd()
    try:
        if how == "rel":
            os.chdir(root)
        got = read({"abs": root + "/main.tex", "rel": "main.tex", "folder": root}[how])
    except Exception as e:
        note("reading fails with %r" % (e,))
        return bad
    finally:
        os.chdir(cwd)
    expect = []
    for o in case["out"]:
        sec = o["sec"]
        while sec and sec[-1] == 0:
            sec = sec[:-1]
        expect.append([KINDS[o["k"]], fs.word[o["v"]], sec, o["env"]])
    seen = observe(got)
    # footnotes, captions: wherever they are, in their order
    if seen != expect:
        i = next((i for i, (a, b) in enumerate(zip(seen, expect)) if a != b), min(len(seen), len(expect)))
        note("word %d of the document: read %r, expected %r\n   (kind, word, section, environments)\n%s" % (
            i + 1, seen[i:i + 3], expect[i:i + 3], json.dumps(got, ensure_ascii=False)[:1500]))
        return bad
    whole = read(top + "/one/main.tex")
    if norm(got) != norm(whole):
        note("the files give\n%s\n   the same in one file gives\n%s" % (json.dumps(norm(got), ensure_ascii=False)[:1200], json.dumps(norm(whole), ensure_ascii=False)[:1200]))
    return bad
