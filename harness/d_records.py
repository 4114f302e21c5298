"""Records.tla <-> code: \\bib records of amsrefs and .bbl files of biblatex, read directly and
as the bibliography of a document."""
import contextlib, io, json, os, re, shutil, tempfile
from lx import rng_for
from latex2json.parser.bib.bib_parser import BibParser
from latex2json.tex_reader import TexReader

KEYS = {1: ["smith99", "Smith:1999"], 2: ["DBLP:conf/nips/AB17", "X"], 3: ["knuth.art", "O'Neil+04"], 4: ["doe_2000-a", "müller12"]}
TYPES = ["article", "book", "misc", "inproceedings", "online", "thesis"]
AMS = {1: ["title", "Title"], 2: ["author", "Author"], 3: ["editor"], 4: ["date", "DATE"], 5: ["ISBN", "pages", "review"]}
FIELD = {1: ["title"], 2: ["year"], 3: ["journaltitle"], 4: ["howpublished", "booktitle"], 5: ["pages", "note", "eprintclass"]}
VERB = {1: ["doi"], 2: ["url"], 3: ["eprint"]}
PEOPLE = {1: ["author"], 2: ["editor"], 3: ["translator"]}
ITEMS = {1: ["publisher"], 2: ["location", "institution"], 3: ["language"]}
SKIP = {1: ["\\strng{namehash}{%s}", "\\strng{fullhash}{%s}", "\\strng{authornamehash}{%s}"], 2: ["\\field{labelnamesource}{%s}", "\\field{labeltitlesource}{%s}"],
        3: ["\\field{sortinit}{%s}", "\\field{sortinithash}{%s}", "\\field{labelalpha}{%s}", "\\field{extradate}{%s}"]}
CMD = ["\\emph", "\\textbf", "\\textsc", "\\uppercase ", "\\emph "]
SWITCH = ["\\bf ", "\\em ", "\\it ", "\\scshape "]
ACC = ["\\'", "\\\"", "\\~", "\\c ", "\\v "]
MATH = ["$x_{1}$", "$a{b}c$", "$\\alpha{}, \\beta=1$", "$\\mathbb{R}^{n}$"]
ESC = ["\\&", "\\%", "\\$", "\\_", "\\#"]
HEAD = "% $ biblatex auxiliary file $\n\\begingroup\n\\makeatletter\n\\@ifundefined{ver@biblatex.sty}\n  {\\@latex@error\n     {Missing 'biblatex' package}\n     {The bibliography requires the 'biblatex' package.}\n      \\aftergroup\\endinput}\n  {}\n\\endgroup\n\n"
RECJUNK = ["\\keyw{dead,deader}", "\\true{moreauthor}", "\\range{pages}{5}", "\\warn{\\item dead}", "\\true{morelabelname}"]
OUTJUNK = ["\\keyalias{dead}{deader}", "\\missing{dead}", "\\preamble{dead}", "\\refsection{0}", "\\endrefsection"]
AMSJUNK = ["", "\\normalsize", "dead", "\\resetbiblist{99}", "\\setlength{\\itemsep}{0pt}"]
GIVEN = [("W", "W%dz"), ("É", "É%dz"), ("\\'E", "\\'Ew%dz"), ("{\\'E}", "{\\'E}w%dz"), ("\\'{E}", "\\'{E}w%dz"), ("{\\relax Yu}", "{\\relax Yu}w%dz"), ("\\v{C}", "\\v{C}w%dz")]


class Writer:
    def __init__(self, case):
        self.r, self.case = rng_for(case), case
        self.keys, self.types, self.names, self.spell, self.inits, self.gaps = {}, [], {}, {}, {}, set()

    def name(self, kind, n):
        """The same name for the same field all over the document."""
        table = AMS if self.case["fmt"] == "ams" else {"field": FIELD, "verb": VERB, "people": PEOPLE, "items": ITEMS}[kind]
        if (kind, n) not in self.names:
            self.names[kind, n] = self.r.choice(table[n])
        return self.names[kind, n]

    def meant_name(self, kind, n):
        name = self.name(kind, n).lower()
        return "journal" if name == "journaltitle" else name

    def key(self, n):
        if n not in self.keys:
            self.keys[n] = self.r.choice(KEYS[n])
        return self.keys[n]

    def text(self, a, given):
        k, n = a["k"], a["n"]
        if n in self.spell and k not in "{},=":
            return self.spell[n]
        r = self.r
        if k == "w" and given:
            self.inits[n], t = r.choice(GIVEN)
            t = t % n
        elif k == "w":
            t = "w%dz" % n
        elif k == "num":
            t = r.choice(["%d", "%d-01"]) % (1000 + n)
        else:
            t = {"cmd": CMD, "sw": SWITCH, "acc": ACC, "math": MATH, "esc": ESC, "dash": ["\\bibrangedash "], "delim": ["\\bibnamedelima ", "\\bibnamedelimb ", "\\bibnamedelimi "]}.get(k, [k])
            t = r.choice(t)
        if k not in ("{", "}", ",", "="):
            self.spell[n] = t
        return t

    def write(self):
        r, doc = self.r, self.case["doc"]
        ams = self.case["fmt"] == "ams"
        out, mode, back, depth, given, first = [], "out", "", 0, False, False
        tidy = r.random() < .3
        eol = "" if ams else "%"

        def ws():
            return "" if tidy else r.choice(["", "", " ", "\n      "])
        for i, a in enumerate(doc):
            k, n = a["k"], a["n"]
            if mode == "line":
                if k == "nl":
                    out.append("\n")
                    mode = back
                else:
                    out.append({"rec": "\\bib{dead}{book}{" if ams else "\\entry{dead}{book}{}", "name": "title={dead},", "field": "\\field{title}{dead}"}.get(k, k if k != "w" else "dead"))
                continue
            if mode == "value":
                if k == "}" and depth == 0:
                    out.append("}" + after)
                    mode = back
                    continue
                depth += {"{": 1, "}": -1}.get(k, 0)
                t = self.text(a, given and first)
                first = False
                if k in ("{", "}", "acc", "cmd", "sw", "dash", "delim"):
                    out.append(t)
                else:
                    nxt = doc[i + 1]["k"]
                    gap = "" if nxt in ("}", "dash", "delim") or (k, nxt) == ("esc", "{") else r.choice(["", " "]) if k in (",", "=", "math", "esc") or nxt in (",", "{", "math") else r.choice([" ", " ", "\n   "])
                    out.append(t + gap)
                    if gap and k not in ",=":
                        self.gaps.add(n)
                continue
            if mode == "raw":
                if k == "endverb":
                    out.append("\n    \\endverb\n")
                    mode = "rec"
                else:
                    t = {"w": "w%dz" % n, "pct%": "%20", "us": "_", "tilde": "~", "hash": "#"}.get(k, k)
                    self.spell[n] = t
                    out.append(t)
                continue
            if k == "pct":
                out.append(r.choice(["%", "% ", "  % "]))
                back, mode = mode, "line"
            elif k == "junk":
                out.append("\n" + r.choice(AMSJUNK if ams else OUTJUNK if mode == "out" else RECJUNK) + "\n")
            elif k == "rec":
                t = r.choice(TYPES)
                self.types.append(t)
                if ams:
                    out.append("\n\\bib%s{%s}%s{%s}%s{\n" % (r.choice(["", "", "", "*"]), self.key(n), r.choice(["", "", " "]), t, r.choice(["", "", "%\n"])))
                    mode = "names"
                else:
                    out.append("\n  \\entry{%s}{%s}{%s}\n" % (self.key(n), t, r.choice(["", "", "skipbib=false"])))
                    mode = "rec"
            elif k == "name":
                out.append(ws() + self.name("field", n) + ws())
            elif k == "=":
                out.append("=" + ws())
            elif k == "num":
                out.append(self.text(a, False) + ws())
            elif k == ",":
                out.append("," + r.choice(["\n", "\n    ", " ", ""]))
            elif k == "{":
                out.append("{")
                mode, back, depth, given, after = "value", "names", 0, False, ws()
            elif k == "}":
                out.append("\n}\n")
                mode = "out"
            elif k == "field":
                out.append("    \\field{%s}{" % self.name("field", n))
                mode, back, depth, given, after = "value", "rec", 0, False, "\n"
            elif k == "skip":
                a_, b_ = r.choice(SKIP[n]).split("%s")
                out.append("    " + a_)
                mode, back, depth, given, after = "value", "rec", 0, False, "\n"
            elif k == "verb":
                out.append("    \\verb{%s}\n    \\verb " % self.name("verb", n))
                mode = "raw"
            elif k == "people":
                out.append("    \\name{%s}{%d}{%s}{%%\n" % (self.name("people", n), self.count(i, "person", "endpeople"), r.choice(["", "", "un=0"])))
            elif k == "person":
                out.append("      {{%shash=ab%d}{%%\n" % (r.choice(["", "un=0,uniquepart=base,"]), i))
            elif k == "part":
                out.append("         %s={" % ["prefix", "family", "given"][n - 1])
                p = ["prefix", "family", "given"][n - 1]
                after = ",\n" + r.choice(["", "         %si={D\\bibinitperiod},\n" % p, "         %si={D\\bibinitperiod\\bibinitdelim D\\bibinitperiod},\n" % p])
                if n == 3:
                    after += r.choice(["", "         givenun=0,\n"])
                mode, back, depth, given, first = "value", "rec", 0, n == 3, True
            elif k == "endperson":
                out.append("      }}%\n")
            elif k == "endpeople":
                out.append("    }\n")
            elif k == "items":
                out.append("    \\list{%s}{%d}{%%\n" % (self.name("items", n), self.count(i, "item", "enditems")))
            elif k == "item":
                out.append("      {")
                mode, back, depth, given, after = "value", "rec", 0, False, "%\n"
            elif k == "enditems":
                out.append("    }\n")
            elif k == "end":
                out.append("  \\endentry\n")
                mode = "out"
        body = "".join(out)
        if ams:
            return r.choice(["", "% \\bib, bibdiv, biblist are defined by the amsrefs package.\n"]) + "\\begin{bibdiv}\n\\begin{biblist}%s\n%s\n\\end{biblist}\n\\end{bibdiv}\n" % (r.choice(["", "[\\normalsize]"]), body)
        a_, b_ = r.choice([("\\datalist[entry]{nty/global//global/global}\n", "\\enddatalist\n"), ("\\sortlist[entry]{nty/global/}\n", "\\endsortlist\n"), ("", "")])
        return r.choice(["", HEAD]) + a_ + body + b_ + r.choice(["", "\\endinput\n"])

    def count(self, i, k, end):
        n = 0
        for a in self.case["doc"][i:]:
            if a["k"] == end:
                break
            n += a["k"] == k
        return n

    def meant(self, v):
        """What the value should look like but for white space."""
        out = []
        for a in v:
            k, n = a["k"], a["n"]
            if k == "init":
                out.append(self.inits[n] + ".")
            else:
                out.append({"and": " and ", "inits": ", ", "dash": "--", "delim": " ", "sp": " "}.get(k) or self.spell.get(n if k not in "{},=" else None) or k)
                if n in self.gaps and k not in "{},=":
                    out.append(" ")
        return "".join(out)


def nows(s):
    return re.sub(r"\s+", "", s)


def glued(s):
    """For words next to each other, whether they are apart."""
    return [bool(x) for x in re.findall(r"(?<=\dz)(\s*)(?=w\d)", s)]


def entry_text(e):
    return "@%s{%s,\n\t%s\n}" % (e["type"], e["key"], ",\n\t".join("%s={%s}" % kv for kv in e["fields"]))


def compare(label, case, got, w, note):
    want = case["out"]
    gk, wk = [g["key"] for g in got], [w.key(e["key"]) for e in want]
    if gk != wk:
        note("%s: entries %r, expected %r" % (label, gk, wk))
        return
    for i, (g, e) in enumerate(zip(got, want)):
        if g["type"] not in (None, w.types[i]):
            note("%s: entry %s is of type %r, expected %r" % (label, g["key"], g["type"], w.types[i]))
        names = [w.meant_name(f["kind"], f["n"]) for f in e["fields"]]
        gn = [n for n, _ in g["fields"]]
        if (gn != names) if case["fmt"] == "ams" else (sorted(gn) != sorted(names)):
            note("%s: entry %s has the fields %r, expected %r" % (label, g["key"], gn, names))
            continue
        d = dict(g["fields"])
        for f, n in zip(e["fields"], names):
            t = w.meant(f["v"])
            if nows(d[n]) != nows(t):
                note("%s: %s of %s is %r, expected %r" % (label, n, g["key"], d[n], t))
            elif glued(d[n]) != glued(t):
                note("%s: %s of %s runs words together: %r" % (label, n, g["key"], d[n]))
            elif any(a["k"] == "and" for a in f["v"]) and d[n].count(" and ") != sum(a["k"] == "and" for a in f["v"]):
                note("%s: %s of %s does not put apart what it lists: %r" % (label, n, g["key"], d[n]))


def of_entry(e):
    return {"key": e.citation_key, "type": e.entry_type, "fields": list((e.fields or {}).items()), "content": e.content}


def check_records(case):
    w = Writer(case)
    tex = w.write()
    r, bad = w.r, []

    def note(msg):
        bad.append(msg + "\n" + tex)
    es = [of_entry(e) for e in BibParser().parse(tex)]
    compare("the records", case, es, w, note)
    for e in es:
        if not bad and e["content"] != entry_text(e):
            note("entry %s is spelt %r, its fields are %r" % (e["key"], e["content"], e["fields"]))
    if bad or r.random() < .7:
        return bad
    top = tempfile.mkdtemp(prefix="l2jrec_", dir="/tmp")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            name, cmd = r.choice([("refs.bbl", "\\bibliography{refs}"), ("refs.bbl", "\\bibliography{refs.bbl}"), ("main.bbl", "\\bibliography{refs}"), ("main.bbl", "\\printbibliography")])
            pre = "\\addbibresource{refs.bib}\n" if cmd == "\\printbibliography" else ""
            with open(os.path.join(top, name), "w", newline=r.choice(["\n", "\n", "\r\n"])) as f:
                f.write(tex)
            with open(top + "/main.tex", "w") as f:
                f.write("\\documentclass{article}\n%s\\begin{document}\nFirst \\cite{%s}.\n%s\nLast\n\\end{document}\n" % (pre, w.key(1), cmd))
            reader = TexReader()
            got = json.loads(reader.to_json(reader.process(top + "/main.tex")))["tokens"]
    finally:
        shutil.rmtree(top, ignore_errors=True)
    items = []

    def go(t):
        if isinstance(t, list):
            for x in t:
                go(x)
        elif isinstance(t, dict):
            if t.get("type") == "bibliography":
                items.extend(t["content"])
            else:
                go(t.get("content"))
    go(got)
    compare("the document", case, [{"key": t.get("cite_key"), "type": None, "fields": list((t.get("fields") or {}).items())} for t in items], w, note)
    return bad
