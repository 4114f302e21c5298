"""Biblio.tla, Bibitems.tla <-> code: BibTeX databases and lists of bibitems, read directly and
through a document that contains them or names their files."""
import contextlib, io, json, os, re, shutil, tempfile
from lx import rng_for, parse_build, nospace
from latex2json.parser.bib.bib_parser import BibParser
from latex2json.tex_reader import TexReader

KEYS = {1: ["smith99", "Smith:1999", "X", "Doe_2000-A"], 2: ["DBLP:conf/nips/AB17", "doe_2000-a"], 3: ["O'Neil+04", "knuth.art"], 4: ["müller12", "x"]}
NAMES = {1: ["title", "Title", "TITLE"], 2: ["author", "Author"], 3: ["date-added", "Date-Added"], 4: ["bdsk_url-1", "Bdsk_URL-1"]}
MACS = {1: ["jan", "JAN", "Jan"], 2: ["acm-trans", "ACM-Trans"]}
TYPES = {1: ["article", "Book", "INPROCEEDINGS", "misc"], 2: ["string", "STRING", "String"], 3: ["comment", "Comment"], 4: ["preamble", "PREAMBLE"]}
TEXT = {"esc": "\\{a\\}", "acc": "{\\\"o}", "math": "$x_1$", "dollar": "\\$5", "@": "me@b.org", "%": "50\\% of%20", "#": "C#", "\"": "\""}
JUNK = ["See also Smith (2000)", "mail me@b.org", "- - - - -", "Encoding: UTF-8", "old file"]


def squash(s):
    return re.sub(r"\s+", " ", s).strip()


class Writer:
    def __init__(self, case):
        self.r = rng_for(case)
        self.case = case
        self.tidy = self.r.random() < .3          # no white space but where it is needed

    def ws(self):
        return "" if self.tidy else self.r.choice(["", "", " ", "\n", "\n  ", " \t"])

    def gap(self):
        return self.r.choice([" ", " ", "\n", "\n   ", "  "])

    def write(self):
        """The text of the files; every piece of text as it was spelt."""
        r, files, text = self.r, [], ""
        self.spell, self.types, keys = {}, [], []
        inside = skip = False
        mode, doc = "out", self.case["doc"]
        depth, close = 0, "}"
        parts = None
        for i, a in enumerate(doc):
            k, n = a["k"], a["n"]
            if mode in ("brace", "quote", "skip"):
                end = {"brace": "}", "quote": "\"", "skip": close}[mode]
                if k == "cut":
                    text, mode = text + "\n", "out"
                elif k == end and depth == 0:
                    text += k
                    mode = "out" if mode == "skip" else "in"
                else:
                    depth += {"{": 1, "}": -1}.get(k, 0)
                    t = TEXT.get(k, k) if k != "w" else "w%dz" % n
                    self.spell[i] = t + self.r.choice(["", "", " "]) if k in ("{", "}", "(", ")", ",", "=") else t + self.gap()
                    text += self.spell[i]
                continue
            if k == "file":
                files.append(text)
                text = ""
            elif k == "junk":
                text += "\n" + r.choice(JUNK) + "\n"
            elif k in ("@{", "@("):
                t = r.choice(TYPES[n])
                self.types.append(t.lower())
                text = text.rstrip(" \t")
                if text and not text.endswith("\n"):
                    text += "\n"
                text += ("" if r.random() < .8 else "  ") + "@" + t + r.choice(["", "", " "]) + k[1]
                close = "}" if k == "@{" else ")"
                mode = "skip" if n > 2 else "in"
                depth = 0
                # strings are defined inside the delimiters like fields
            elif k == "cut":
                text += "\n"
                mode = "out"
            elif k == "key":
                text += self.ws() + self.key(n) + self.ws()
            elif k == "name":
                text += self.ws() + (r.choice(MACS[n]) if self.is_string(i) else r.choice(NAMES[n])) + self.ws()
            elif k == "ref":
                self.spell[i] = r.choice(MACS[n])
                text += self.ws() + self.spell[i] + self.ws()
            elif k == "num":
                self.spell[i] = str(1000 + n)
                text += self.ws() + self.spell[i] + self.ws()
            elif k in ("{", "\""):
                mode, depth = ("brace" if k == "{" else "quote"), 0
                text += self.ws() + k + r.choice(["", "", " "])
            elif k == close:
                text += self.ws() + k + r.choice(["\n", "\n\n", "", " "])
                mode = "out"
            else:
                text += self.ws() + k + self.ws()
        files.append(text)
        return files

    def is_string(self, i):
        for a in reversed(self.case["doc"][:i]):
            if a["k"] in ("@{", "@("):
                return a["n"] == 2
        return False

    def key(self, n):
        self.keys = getattr(self, "keys", {})
        if n not in self.keys:
            self.keys[n] = self.r.choice(KEYS[n])
        return self.keys[n]

    def pieces(self, v):
        """The same pieces as the value is made of, without the white space around them."""
        out = []
        for a in v:
            k, n = a["k"], a["n"]
            if k == "w":
                out.append("w%dz" % n)
            elif k == "num":
                out.append(str(1000 + n))
            elif k == "ref":
                out.append(MACS[n][0])
            else:
                out.append(TEXT.get(k, k))
        return out


def nows(s):
    return re.sub(r"\s+", "", s)


def same_value(pieces, got, refs):
    """White space is free between pieces, never inside one; words next to each other stay apart."""
    want = nows("".join(pieces))
    have = nows(got)
    if refs:
        want, have = want.lower(), have.lower()
    return want == have


def entry_text(e):
    return "@%s{%s,\n\t%s\n}" % (e["type"], e["key"], ",\n\t".join("%s={%s}" % kv for kv in e["fields"]))


def compare(label, want, got, w, note):
    gk = [g["key"] for g in got]
    wk = [w.key(e["key"]) for e in want]
    if gk != wk:
        note("%s: entries %r, expected %r" % (label, gk, wk))
        return
    for g, e in zip(got, want):
        names = [NAMES[f["n"]][0].lower() for f in e["fields"]]
        gn = [n for n, _ in g["fields"]]
        if g["type"] not in (None, w.types[e["nth"] - 1]):
            note("%s: entry %s is of type %r, expected %r" % (label, g["key"], g["type"], w.types[e["nth"] - 1]))
        if gn != names:
            note("%s: entry %s has the fields %r, expected %r" % (label, g["key"], gn, names))
            continue
        for (n, v), f in zip(g["fields"], e["fields"]):
            p = w.pieces(f["v"])
            if not same_value(p, v, any(a["k"] == "ref" for a in f["v"])):
                note("%s: %s of %s is %r, expected %r" % (label, n, g["key"], v, " ".join(p)))
            if re.search(r"\dzw\d", v) and not glued(w.case):
                note("%s: %s of %s runs words together: %r" % (label, n, g["key"], v))
            if re.search(r"  |\t|\r|^\s|\s$", v) and not glued(w.case):
                note("%s: %s of %s keeps white space that means nothing: %r" % (label, n, g["key"], v))


def glued(case):
    """Whether values are put together with # (what is between the parts is what the writer put there)."""
    return any(a["k"] == "#" for a in case["doc"])


def of_entry(e):
    return {"key": e.citation_key, "type": e.entry_type, "fields": list((e.fields or {}).items()), "content": e.content}


def check_biblio(case):
    w = Writer(case)
    files = w.write()
    r = w.r
    bad = []

    def note(msg):
        bad.append(msg + "\n" + "\n=== next file ===\n".join(files))

    if len(files) == 1:
        es = [of_entry(e) for e in BibParser().parse(files[0])]
        compare("the database", case["out"], es, w, note)
        if not bad and es:
            for e in es:
                if e["content"] != entry_text(e):
                    note("entry %s is spelt %r, its fields are %r" % (e["key"], e["content"], e["fields"]))
            again = [of_entry(e) for e in BibParser().parse("\n".join(e["content"] for e in es))]
            if again != es:
                note("the entries read again: %r, before: %r" % (again, es))
    if bad:
        return bad
    top = tempfile.mkdtemp(prefix="l2jbib_", dir="/tmp")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            names = [r.choice(["f%d", "b/f%d", "my refs%d", "x.y%d"]) % i for i in range(len(files))]
            for n, t in zip(names, files):
                os.makedirs(os.path.dirname(os.path.join(top, n)), exist_ok=True)
                nl = r.choice(["\n", "\n", "\r\n"])
                enc = r.choice(["utf-8", "utf-8", "utf-8-sig", "latin-1"])
                with open(os.path.join(top, n + ".bib"), "wb") as f:
                    f.write(t.replace("\n", nl).encode(enc))
            how = r.choice(["one", "biblatex", "ext"])
            ext = ".bib" if how != "one" else ""
            if how == "biblatex":
                pre, post = "".join("\\addbibresource{%s%s}\n" % (n, ext) for n in names), "\\printbibliography"
            else:
                pre, post = "", "\\bibliographystyle{plain}\n\\bibliography{%s}" % r.choice([",", ", ", " , "]).join(n + ext for n in names)
            tex = "\\documentclass{article}\n%s\\begin{document}\nFirst \\cite{%s}.\n%s\nLast\n\\end{document}\n" % (pre, w.key(1), post)
            with open(top + "/main.tex", "w") as f:
                f.write(tex)
            reader = TexReader()
            got = json.loads(reader.to_json(reader.process(top + "/main.tex")))["tokens"]
    finally:
        shutil.rmtree(top, ignore_errors=True)
    items, text = [], []

    def go(t):
        if isinstance(t, list):
            for x in t:
                go(x)
        elif isinstance(t, dict):
            if t.get("type") == "bibliography":
                items.extend(t["content"])
            elif t.get("type") == "text":
                text.append(t["content"])
            elif t.get("type") == "citation":
                text.append("CITE" + ",".join(t["content"]))
            else:
                go(t.get("content"))
    go(got)
    es = [{"key": t.get("cite_key"), "type": None, "fields": list((t.get("fields") or {}).items()), "content": t.get("content")} for t in items]
    # \addbibresource reads one file after the other
    compare("the document", case["listed"] if how != "biblatex" else per_file(case), es, w, note)
    if squash(" ".join(text)) not in ("First CITE%s . Last" % w.key(1), "First CITE%s. Last" % w.key(1)):
        note("the text of the document is %r" % " ".join(text))
    for t in items:
        if t.get("format") != "bibtex" or t.get("type") != "bibitem":
            note("an entry is %r" % t)
    return bad


def per_file(case):
    """The entries with the first one of each key in each file."""
    out, seen = [], set()
    for e in case["out"]:
        if (e["file"], e["key"]) not in seen:
            seen.add((e["file"], e["key"]))
            out.append(e)
    return out


# --------------------------------------------------------------------------- lists of bibitems
NATIVE = ["\\providecommand{\\href}[2]{BAD}", "\\providecommand{\\url}[1]{\\texttt{BAD#1}}", "\\providecommand{\\textit}[1]{BAD}",
          "\\providecommand \\href [0]{\\begingroup BAD \\@href}"]
SKIP = ["\\small", "\\setlength{\\itemsep}{0pt}", "\\providecommand{\\natexlab}[1]{#1}", "\\frenchspacing",
        "\\expandafter\\ifx\\csname natexlab\\endcsname\\relax\\def\\natexlab#1{#1}\\fi", "\\addtolength{\\leftmargin}{0.2in}"]
DECL = ["\\bibitemdeclare{article}{dead}", "\\providecommand{\\bibitemdeclare}[2]{}"]
STYLE = {"em{": ["\\textit{"], "bf{": ["\\textbf{"]}
OLD = {"em{": ["\\textit{", "{\\em ", "{\\it ", "\\emph{", "{\\itshape "], "bf{": ["\\textbf{", "{\\bf ", "{\\bfseries "]}


def nests(doc):
    """Whether styled groups nest in styled groups."""
    stack, line = [], False
    for a in doc:
        k = a["k"]
        if line:
            line = k != "nl"
        elif k == "pct":
            line = True
        elif k in ("{", "em{", "bf{"):
            if k != "{" and any(x != "{" for x in stack):
                return True
            stack.append(k)
        elif k == "}":
            stack.pop()
    return False


def bare(doc, i):
    """Whether the group opened here starts with a comment (what it starts with is not told by the next atom)."""
    return [b["k"] for b in doc[i + 1:] if b["k"] not in ("nl", "block")][:1] == ["pct"]


def list_tex(case, r):
    doc, out, line, mode = case["doc"], [], False, "out"
    style = STYLE if nests(doc) else OLD
    defs = 0
    for i, a in enumerate(doc):
        k, n = a["k"], a["n"]
        gap = r.choice(["", " ", " "])
        if line:
            t = {"nl": "\n", "item": "\\bibitem{dead%d} x" % n, "end": "\\end{thebibliography}", "w": "dead%d" % n,
                 "key": "{key}", "pct": "% %"}.get(k, k)
            line = k != "nl"
            gap = "" if k == "nl" else gap
        elif k == "pct":
            t, line, gap = "%", True, ""
        elif k == "nl":
            t, gap = "\n", r.choice(["", "  "])
        elif k == "begin":
            t, mode = "\n\\begin{thebibliography}%s" % r.choice(["{9}", "{99}", "{WWW99}", "{10}%"]) + "\n", "pre"
        elif k == "end":
            t = r.choice(["\n", " ", "\n\n", ""]) + "\\end{thebibliography}\n"
            mode = "out"
        elif k == "item":
            t, gap = r.choice(["\n", "\n\n", " "] if mode != "x" else []) + "\\bibitem", r.choice(["", "", " "])
            mode = "head"
        elif k == "[" and mode == "head":
            t, mode = "[", "label"
        elif k == "key":
            t, mode, gap = r.choice(["{k%d}", "{k%d}", "{ k%d }"]) % n, "body", r.choice(["", " ", "\n", "%\n  "])
        elif k in ("def", "prov"):
            defs += 1
            t = ["\\def\\bmac{v%dz}", "\\gdef\\bmac{v%dz}"][r.random() < .3] if k == "def" else "\\providecommand{\\bmac}{v%dz}"
            t, gap = t % n, "\n"
        elif k == "native":
            t, gap = r.choice(NATIVE), r.choice(["\n", "%\n"])
        elif k == "skip":
            t, gap = r.choice(SKIP), "\n"
        elif k == "decl":
            t, gap = r.choice(DECL), "\n"
        elif k == "block":
            t, gap = "\\newblock", " "
        elif k == "mac":
            t, gap = r.choice(["\\bmac{}", "{\\bmac}"]), " "
        elif k == "w":
            t, gap = "w%dz" % n, r.choice([" ", " ", ", "] if mode == "out" else [" "])
            if mode == "out":
                t, gap = "w%dz" % n, "\n"
        elif k in ("em{", "bf{"):
            # {\\bf {x} y} is read as \\bf{x} y
            after = [b["k"] for b in doc[i + 1:] if b["k"] not in ("nl", "pct", "block")][:1]
            t, gap = r.choice(STYLE[k] if after and after[0] in ("{", "mac") or bare(doc, i) else style[k]), ""
        elif k == "math":
            t = r.choice(["$x_{%d}$", "\\(x_{%d}\\)"]) % n
        elif k == "url":
            t = "\\url{http://a.org/u%d~b%%20c#d_e}" % n
        elif k == "mail":
            t = "u%d@b.org" % n
        elif k == "pct%":
            t = "%d\\%%" % n
        elif k == "acc":
            t = r.choice(["J{\\\"o}%d", "J\\\"{o}%d", "J\\\"o%d"]) % n
        elif k == "href":
            t = "\\href{http://h.org/%d}{t%dz}" % (n, n)
        elif k == "dash":
            t = "1--%d" % n
        else:
            t = k
        if mode == "label" and k == "]":
            mode = "body?"
        out.append(t + gap)
    return "".join(out)


def list_expect(body):
    runs = []

    def text(t, em, bf):
        st = (bool(em), bool(bf))
        if runs and runs[-1][0] == "t" and runs[-1][2] == st:
            runs[-1] = ("t", runs[-1][1] + t, st)
        else:
            runs.append(("t", t, st))
    for a in body:
        k, n = a["k"], a["n"]
        if k == "math":
            runs.append(("math", "x_{%d}" % n))
        elif k == "url":
            runs.append(("url", "http://a.org/u%d~b%%20c#d_e" % n, None))
        elif k == "href":
            runs.append(("url", "http://h.org/%d" % n, "t%dz" % n))
        else:
            text({"w": "w%dz", "val": "v%dz", "mail": "u%d@b.org", "pct%": "%d%%", "acc": "Jö%d", "dash": "1--%d"}.get(k, k + "%.0s") % n, a["em"], a["bf"])
    return runs


def list_seen(tokens):
    runs = []

    def go(ts, inherited):
        for t in ts if isinstance(ts, list) else [{"type": "text", "content": ts}]:
            st = set(t.get("styles") or []) | inherited
            ty = t.get("type")
            if ty == "equation":
                runs.append(("math", nospace(t["content"])))
            elif ty == "url":
                title = t.get("title")
                runs.append(("url", t["content"], nospace("".join(x.get("content", "?") for x in title)) if title else None))
            elif ty in ("text", "group") and isinstance(t.get("content"), list):
                go(t["content"], st)
            elif ty == "text":
                c = nospace(t["content"]).replace("–", "--")
                key = ("italic" in st, "bold" in st)
                if not c:
                    continue
                if runs and runs[-1][0] == "t" and runs[-1][2] == key:
                    runs[-1] = ("t", runs[-1][1] + c, key)
                else:
                    runs.append(("t", c, key))
            else:
                runs.append((ty, json.dumps(t)))
    go(tokens, set())
    return runs


def check_list(case):
    r = rng_for(case)
    tex = list_tex(case, r)
    bad = []
    # a list with no item in it is not in any file of its own
    route = r.choice(["inline", "inline", "string", "file", "input"])

    def note(msg):
        bad.append("%s (%s)\n%s" % (msg, route, tex))

    pre = "\\documentclass{article}\n\\begin{document}\n"
    if route == "inline":
        tokens = parse_build(pre + tex + "\n\\end{document}\n")
    elif route == "string":
        tokens = parse_build(tex)
    else:
        top = tempfile.mkdtemp(prefix="l2jbib_", dir="/tmp")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                name = r.choice(["refs", "main", "a.b"])
                with open(os.path.join(top, name + ".bbl"), "w") as f:
                    f.write(tex)
                main = "\\bibliography{%s}" % r.choice([name, name + ".bbl", "missing"]) if route == "file" else "\\input{%s.bbl}" % name
                with open(top + "/paper.tex", "w") as f:
                    f.write(pre + main + "\n\\end{document}\n")
                reader = TexReader()
                tokens = json.loads(reader.to_json(reader.process(top + "/paper.tex")))["tokens"]
        finally:
            shutil.rmtree(top, ignore_errors=True)
    lists, text = [], []

    def go(t):
        if isinstance(t, list):
            for x in t:
                go(x)
        elif isinstance(t, dict):
            if t.get("type") == "bibliography":
                lists.append(t["content"])
            elif t.get("type") == "text":
                text.append(t["content"])
            else:
                go(t.get("content"))
    go(tokens)
    want = {}
    for it in case["out"]:
        want.setdefault(it["list"], []).append(it)
    want = list(want.values())
    if route == "file":
        want = [sum(want, [])]
        text = None
    keys = [[i.get("cite_key") for i in l] for l in lists]
    wkeys = [["k%d" % i["key"] for i in l] for l in want]
    if keys != wkeys:
        note("the lists have the items %r, expected %r" % (keys, wkeys))
        return bad
    for l, wl in zip(lists, want):
        for i, w in zip(l, wl):
            label = "".join("w%dz" % a["n"] if a["k"] == "w" else a["k"] for a in w["label"]) if w["has"] else None
            got = nospace(i["label"]) if i.get("label") is not None else None
            if got != label:
                note("item %s has the label %r, expected %r" % (i["cite_key"], i.get("label"), label))
            if i.get("format") != "bibitem":
                note("item %s has the format %r" % (i["cite_key"], i.get("format")))
            exp, seen = list_expect(w["body"]), list_seen(i["content"])
            if exp != seen:
                note("item %s reads %r, expected %r" % (i["cite_key"], seen, exp))
    if text is not None:
        got = re.findall(r"w\d+z", " ".join(text))
        exp = ["w%dz" % a["n"] for a in case["text"]]
        if got != exp:
            note("around the lists: %r, expected %r" % (" ".join(text), exp))
    return bad
