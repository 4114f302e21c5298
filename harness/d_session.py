"""Session.tla <-> code: one document after (or during) the other, on one or several readers."""
import contextlib, io, json, os, pathlib, re, shutil, subprocess, sys, tarfile, tempfile, threading, zipfile
import core
from lx import rng_for, dump, LatexParser, TokenBuilder
from latex2json.tex_reader import TexReader, TexProcessingError

VAL = "v%dv"
# feature: (definition, use); %s is the value
PLAIN = {
    "macro": (["\\newcommand{\\fa}{%s}", "\\def\\fa{%s}", "\\renewcommand{\\fa}{%s}", "\\DeclareRobustCommand{\\fa}{%s}", "\\newcommand*\\fa{%s}"], ["\\fa{}", "\\fa{} \\fa{}"]),
    "args": (["\\newcommand{\\fb}[1]{%s #1}", "\\def\\fb#1{#1 %s}", "\\newcommand{\\fb}[2][q]{%s #2}"], ["\\fb{x}"]),
    "provide": (["\\providecommand{\\fc}{%s}"], ["\\fc{}"]),
    "math": (["\\newcommand{\\fm}{%s}", "\\DeclareMathOperator{\\fm}{%s}", "\\def\\fm{%s}", "\\DeclareMathOperator*{\\fm}{%s}"], ["$\\fm$", "\\[ \\fm + x \\]", "\\begin{equation*}\\fm\\end{equation*}"]),
    "env": (["\\newenvironment{fenv}{%s }{}", "\\renewenvironment{fenv}{}{ %s}"], ["\\begin{fenv}z\\end{fenv}"]),
    "thm": (["\\newtheorem{fthm}{%s}", "\\newtheorem*{fthm}{%s}", "\\newtheorem{fthm}{%s}[section]"], ["\\begin{fthm}z\\end{fthm}"]),
    "alias": (["\\defcitealias{fkey}{%s}"], ["\\citetalias{fkey}", "\\citepalias{fkey}"]),
    "box": (["\\newsavebox{\\fbx}\\sbox{\\fbx}{%s}", "\\sbox{\\fbx}{%s}", "\\savebox{\\fbx}{%s}", "\\setbox\\fbx=\\hbox{%s}"], ["\\usebox{\\fbx}", "\\usebox\\fbx"]),
    "float": (["\\floatname{ffl}{%s}"], ["\\begin{ffl}z\\end{ffl}"]),
    "key": (["\\define@key{fam}{k}{\\def\\fk{#1}}\\setkeys{fam}{k=%s}"], ["\\fk{}"]),
    "let": (["\\def\\fl{%s}\\let\\fz\\relax\\let\\flx=\\fl"], ["\\flx{}"]),
    "color": (["\\definecolor{c%s}{rgb}{1,0,0}", "\\definecolor{c%s}{HTML}{FF0000}"], []),
}
FILES = {"sty": ("fsty.sty", "\\newtheorem{fsthm}{%s}", "\\usepackage{fsty}", "\\begin{fsthm}z\\end{fsthm}"),
         "input": ("fin.tex", "%s", "", "\\input{fin}"),
         "bib": ("fb.bib", "@article{k, title={%s}, year=1999}", "", "\\bibliography{fb}")}
BBL = "\\begin{thebibliography}{9}\\bibitem{k} %s\\end{thebibliography}"
NUM = {"section": "\\section{s}", "figure": "\\begin{figure}x\\caption{c}\\end{figure}", "table": "\\begin{table}x\\caption{c}\\end{table}",
       "equation": "\\begin{equation}x\\end{equation}"}


class Fault(Exception):
    pass


def texts(case, r):
    """The document of every id, and the files that belong to it."""
    docs = {}
    for i, e in enumerate(case["hist"], 1):
        if e["k"] == "begin":
            docs[e["id"]] = dict(route=e["f"], slot=e["v"], body=[], files={})
        elif e["k"] in ("def", "use", "num"):
            d, f, v = docs[e["id"]], e["f"], VAL % i
            if e["k"] == "def" and f in FILES:
                name, content, load, _ = FILES[f]
                if f == "bib" and r.random() < .5:
                    name, content = r.choice(["fb.bbl", "main.bbl"]), BBL
                d["files"][name] = content % v
                s = load
            elif e["k"] == "def":
                s = r.choice(PLAIN[f][0]) % v
            else:
                s = FILES[f][3] if f in FILES else r.choice(PLAIN[f][1]) if e["k"] == "use" else NUM[f]
                s = "b%db %s e%de" % (i, s, i)
            d["body"].append(s + r.choice(["\n", "\n\n", " "]))
    for d in docs.values():
        # what is read as a whole document has to look like one
        d["text"] = "".join(d["body"])
        if d["route"] in ("zip", "tar", "folder") or r.random() < .5:
            d["text"] = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n" % d["text"]
    return docs


def lay(d, top, route, src=None):
    """Write a document's files; the path to hand to the reader."""
    if src is None:
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top)
        open(top + "/main.tex", "w", encoding="utf-8").write(d["text"])
        for n, s in d["files"].items():
            open(top + "/" + n, "w", encoding="utf-8").write(s)
        src = top
    main = src + "/main.tex"
    if route in ("file", "parser", "fresh"):
        return main
    if route == "folder":
        return src
    if route == "zip":
        with zipfile.ZipFile(top + ".zip", "w") as z:
            for n in os.listdir(src):
                z.write(src + "/" + n, n)
        return top + ".zip"
    with tarfile.open(top + ".tar.gz", "w:gz") as t:
        for n in os.listdir(src):
            t.add(src + "/" + n, n)
    return top + ".tar.gz"


def call(reader, route, path, r):
    """-> (tokens as JSON data, colours, the result held on to)"""
    if route == "parser":
        reader.clear()
        p = reader.parser
        toks = reader.token_builder.build(p.parse_file(path))
        return [dump(t) for t in toks], p.get_colors(), None
    if route == "fresh":        # a parser and a builder of one's own
        p, b = LatexParser(), TokenBuilder()
        return [dump(t) for t in b.build(p.parse_file(path))], p.get_colors(), None
    path = r.choice([str, pathlib.Path])(path)
    if route == "file" and r.random() < .5:
        res = reader.process_file(path)
    else:
        res = reader.process(path, cleanup=True)
    d = json.loads(reader.to_json(res))
    return d["tokens"], d["color_map"], res


def strings(t, out):
    if isinstance(t, str):
        out.append(t)
    elif isinstance(t, list):
        for x in t:
            strings(x, out)
    elif isinstance(t, dict):
        if "numbering" in t:
            out.append(" n[%s:%s] " % (t.get("type") if t.get("type") != "section" else "section", t["numbering"]))
        for k in ("name", "title", "command", "content", "fields"):
            if k in t:
                strings(list(t[k].values()) if isinstance(t[k], dict) else t[k], out)
    return out


class Slices:
    """Runs calls in threads of which one at a time moves, a given number of calls at a time."""

    def __init__(self):
        self.cv = threading.Condition()
        self.threads, self.budget, self.state = {}, {}, {}

    def start(self, r, fn):
        self.state[r], self.budget[r] = "waiting", 0

        def tracer(frame, event, arg):
            if event == "call" and core.REPO in frame.f_code.co_filename:
                self.budget[r] -= 1
                if self.budget[r] < 0:
                    self.pause(r)
            return None

        def body():
            self.pause(r)
            sys.settrace(tracer)
            try:
                fn()
            finally:
                sys.settrace(None)
                with self.cv:
                    self.state[r] = "done"
                    self.cv.notify_all()
        t = threading.Thread(target=body, daemon=True)
        t.start()
        self.threads[r] = t
        self.settle(r)

    def pause(self, r):
        with self.cv:
            self.state[r] = "waiting"
            self.cv.notify_all()
            while self.budget[r] <= 0:
                self.cv.wait()
            self.state[r] = "running"

    def settle(self, r):
        with self.cv:
            while self.state[r] == "running" or (self.state[r] == "waiting" and self.budget[r] > 0):
                self.cv.wait()

    def go(self, r, n):
        if self.state.get(r) == "waiting":
            with self.cv:
                self.budget[r] = n
                self.cv.notify_all()
            self.settle(r)

    def finish(self, r):
        self.go(r, 10 ** 9)
        self.threads[r].join()


def with_fault(fn, n):
    """Run fn; let the n-th call into the code under test raise."""
    left = [n]

    def tracer(frame, event, arg):
        if event == "call" and core.REPO in frame.f_code.co_filename and frame.f_code.co_name not in ("clear",):
            left[0] -= 1
            if left[0] == 0:
                raise Fault("planned")
        return None
    sys.settrace(tracer)
    try:
        fn()
    except Exception:
        pass
    finally:
        sys.settrace(None)


def check_session(case):
    top = tempfile.mkdtemp(prefix="l2jses_", dir="/tmp")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return run(case, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run(case, top):
    r = rng_for({"hist": case["hist"], "done": case["done"]})
    docs = texts(case, r)
    want = {d["id"]: d for d in case["done"]}
    readers, sl = {}, Slices()
    live, got, held, bad = set(), {}, [], []
    order = case["hist"]
    overlap = any(e["k"] == "begin" and any(x["k"] in ("begin", "end", "fail") and x["r"] != e["r"] and x["id"] < e["id"] and
                  not any(y["k"] in ("end", "fail") and y["id"] == x["id"] for y in order[:i]) for x in order[:i]) for i, e in enumerate(order))

    def note(msg):
        bad.append("%s\n   history %s\n   documents %s" % (msg, [(e["r"], e["k"], e["id"], e["f"], e["v"]) for e in order],
                                                           {k: (d["text"], d["files"]) for k, d in docs.items()}))

    def reader(k):
        if k not in readers:
            readers[k] = TexReader()
        return readers[k]

    def process(k, did, route, path):
        try:
            toks, colors, res = call(reader(k), route, path, r)
            got[did] = (toks, colors)
            if res is not None:
                held.append((k, did, res, json.dumps([toks, colors], sort_keys=True)))
        except Exception as e:
            got[did] = e

    for i, e in enumerate(order):
        k, did = e["r"], e["id"]
        if e["k"] == "begin":
            d = docs[did]
            d["path"] = lay(d, "%s/slot%d" % (top, d["slot"]), d["route"])
            reader(k)
            if overlap:
                sl.start(k, lambda k=k, did=did, d=d: process(k, did, d["route"], d["path"]))
        elif e["k"] in ("def", "use", "num"):
            if overlap:
                sl.go(k, r.choice([1, 10, 60, 300, 1500]))
        elif e["k"] == "end":
            if overlap:
                sl.finish(k)
            else:
                process(k, did, docs[did]["route"], docs[did]["path"])
        elif e["k"] == "fail":
            d = docs[did]
            if overlap:
                sl.finish(k)
            with_fault(lambda: call(reader(k), d["route"], d["path"], r), int(e["v"] * r.choice([.5, 1, 1.3])) or 1)
        elif e["k"] == "reject":
            empty = top + "/empty%d" % did
            os.makedirs(empty)
            open(empty + "/bad.zip", "w").write("no archive")
            open(empty + "/a.tex", "w").write("no main file")
            path = {"missing": empty + "/none.tex", "nomain": empty, "corrupt": empty + "/bad.zip", "nozip": empty + "/none.zip"}[e["f"]]
            try:
                reader(k).process(path)
                note("processing %s (%s) gives a result" % (path, e["f"]))
            except (FileNotFoundError, TexProcessingError) as x:
                if e["f"] != "corrupt" and not isinstance(x, FileNotFoundError):
                    note("processing %s (%s) raises %r" % (path, e["f"], x))
        elif e["k"] == "lib":
            lib = case["libs"][e["v"] - 1]
            d = dict(text=lib["text"], files={})
            route = e["f"]
            if lib.get("path"):
                path = lib["path"]
                route = "file" if os.path.isdir(path) or route == "parser" else route
                process(k, did, "path", path)
            else:
                if route in ("zip", "tar", "folder") and "\\begin{document}" not in re.sub(r"(?m)%.*", "", d["text"]):
                    route = "file"
                process(k, did, route, lay(d, "%s/lib%d" % (top, did), route))

    for did, w in want.items():
        g = got.get(did)
        if isinstance(g, Exception) or g is None:
            note("document %d: %r" % (did, g))
            continue
        toks, colors = g
        if any(o["k"] == "lib" for o in w["outs"]):
            ref = case["libs"][w["outs"][0]["v"] - 1]["out"]
            have = json.dumps(toks, sort_keys=True)
            if have != json.dumps(ref["tokens"], sort_keys=True) or (colors or {}) != (ref["color_map"] or {}):
                a, b = have, json.dumps(ref["tokens"], sort_keys=True)
                p = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                note("document %d (library %d) differs from what a fresh process makes of it:\n   %s\n   %s" % (
                    did, w["outs"][0]["v"], a[max(0, p - 200):p + 200], b[max(0, p - 200):p + 200]))
            continue
        text = " ".join(strings(toks, []))
        if sorted(colors or {}) != sorted("c" + VAL % v for v in w["colors"]):
            note("document %d: colours %s, expected %s" % (did, sorted(colors or {}), ["c" + VAL % v for v in w["colors"]]))
        for o in w["outs"]:
            m = re.search(r"b%db(.*?)e%de" % (o["at"], o["at"]), text, re.S)
            if not m:
                note("document %d: nothing of event %d in %r" % (did, o["at"], text[:500]))
                break
            if o["k"] == "num":
                have = re.findall(r"n\[%s:([^\]]*)\]" % o["f"], m.group(1))
                if have != [str(o["v"])]:
                    note("document %d, event %d: %s numbered %s, expected %d" % (did, o["at"], o["f"], have, o["v"]))
            else:
                have = set(re.findall(r"v\d+v", m.group(1)))
                if have != ({VAL % o["v"]} if o["v"] else set()):
                    note("document %d, event %d: %s yields %s, expected %s (%r)" % (
                        did, o["at"], o["f"], sorted(have), VAL % o["v"] if o["v"] else "nothing", m.group(1)[:200]))
    # results that were handed out stay as they were
    for k, did, res, was in held:
        d = json.loads(reader(k).to_json(res))
        if json.dumps([d["tokens"], d["color_map"]], sort_keys=True) != was:
            note("the result of document %d has changed since" % did)
    return bad


# ------------------------------------------------------------------ library documents
def library(groups, per):
    """Documents made by the other specifications' generators, and the repository's papers."""
    libs = []
    for mod, cases in groups:
        m = __import__(mod)
        for c in cases[:per]:
            r = rng_for(c)
            t = m.render(c["doc"] if mod in ("d_outline", "d_macro") else c, r) if mod in ("d_outline", "d_macro", "d_prose", "d_cond") else m.render(c)
            libs.append(dict(text=t if isinstance(t, str) else t[0]))
    data = core.REPO + "/tests/test_data"
    for n in sorted(os.listdir(data)):
        libs.append(dict(text="", path=data + "/" + n))
    return libs


CHILD = r"""
import sys, json, logging, warnings, os, contextlib, io
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
logging.disable(logging.CRITICAL); warnings.simplefilter("ignore")
from latex2json.tex_reader import TexReader
libs, top = json.load(open(sys.argv[2])), sys.argv[3]
out = []
for i, l in enumerate(libs):
    pid = None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                p = l.get("path")
                if not p:
                    p = "%s/d%d/main.tex" % (top, i)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w", encoding="utf-8").write(l["text"])
                rd = TexReader()
                res = rd.process(p, cleanup=True)
                s = rd.to_json(res)
        except BaseException as e:
            s = json.dumps({"error": repr(e)})
        os.close(r)
        with os.fdopen(w, "w", encoding="utf-8") as f:
            f.write(s)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, encoding="utf-8") as f:
        out.append(f.read())
    os.waitpid(pid, 0)
json.dump(out, open(sys.argv[4], "w"))
"""


def references(libs, seeds):
    """Every document in a process of its own, once per hash seed -> JSON texts per seed."""
    top = tempfile.mkdtemp(prefix="l2jlib_", dir="/tmp")
    try:
        json.dump(libs, open(top + "/libs.json", "w"))
        ps = []
        for s in seeds:
            env = dict(os.environ, PYTHONHASHSEED=str(s), PYTHONDONTWRITEBYTECODE="1")
            ps.append(subprocess.Popen([core.VENV_PY, "-c", CHILD, core.REPO, top + "/libs.json", "%s/s%d" % (top, s), "%s/out%d.json" % (top, s)],
                                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        outs = []
        for s, p in zip(seeds, ps):
            _, err = p.communicate(timeout=800)
            if p.returncode:
                raise core.MachineryError("reference run failed: %s" % err.decode()[-800:])
            outs.append(json.load(open("%s/out%d.json" % (top, s))))
        return outs
    finally:
        shutil.rmtree(top, ignore_errors=True)
