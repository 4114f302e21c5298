"""Archive.tla <-> code: archives, the file chosen in them, temporary directories.

Everything happens below one scratch directory, as an unprivileged user: the paths the
archives try to reach outside of the extraction directory are inside the scratch directory."""
import contextlib, gzip, io, os, pathlib, random, shutil, stat, tarfile, tempfile, zipfile
from lx import rng_for, dump, flat_text
from core import MachineryError
from latex2json.tex_reader import TexReader, TexProcessingError

DIRS = ["", "Sec", "a..b", "fig s", "zé"]
NAMES = ["", "1st", "Main", "a..b", "main", "paper v2", "é"]
_READY = []


def drop_privileges():
    """Workers are processes of their own: this one will not need root again."""
    if not _READY:
        if os.getuid() == 0:
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError as e:
                raise MachineryError("cannot become an unprivileged user: %s" % e)
        _READY.append(1)


def text_of(kind, i, r):
    w = "w%dx" % i
    if kind == "full":
        return r.choice(["\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n",
                         "%% comment\n\\documentclass[12pt]{amsart}\n\\usepackage{amsmath}\n\\begin{document}%s\\end{document}",
                         "  \\documentclass [a4paper] {article}\n\n\\begin{document}\nété %s\n\\end{document}\n",
                         "\\NeedsTeXFormat{LaTeX2e}\n\\documentclass{article}\\begin{document} 5\\%% of %s \\end{document}"]) % w
    if kind == "bare":
        return r.choice(["\\begin{document}\n%s\n\\end{document}\n", "\\input epsf\n100\\%% \\begin{document}%s\\end{document}",
                         "\\def\\x{y}\\begin{document}\n%s \\end{document}"]) % w
    if kind == "commented":
        return r.choice(["%% \\documentclass{article}\n%s\n", "text %s %%\\begin{document}\n",
                         "\\section{A}\n  %%%% \\documentclass{article} \\begin{document}\n%s", "a\\\\%%\\documentclass{article}\n%s"]) % w
    if kind == "note":
        return r.choice(["%s\n", "\\section{S} %s documentclass", "\\newcommand{\\x}{%s}\n", "", "%s \\begin{documents}"]).replace("%s", w)
    raise ValueError(kind)


def encode(s, r):
    return s.encode(r.choice(["utf-8", "utf-8", "latin-1"]))


def rel(m):
    return "/".join([DIRS[d] for d in m["dirs"]] + [NAMES[m["name"]] + "." + m["ext"]])


def member_name(m, r, scratch):
    if m["t"] in ("sym", "hard"):
        return "lnk%d" % m["name"]
    if m["t"] == "through":
        return "lnk%d/t.txt" % m["name"]
    if m["t"] == "fifo":
        return "/".join([DIRS[d] for d in m["dirs"]] + ["0fifo.tex"])
    if m["t"] == "dir":
        return "/".join(DIRS[d] for d in m["dirs"])
    p = rel(m)
    if m["esc"] == "up":
        return r.choice(["../%s", "../../%s", "../../../%s", "./../%s", "d/../../%s"]) % p
    if m["esc"] == "side":      # a folder whose name begins like the temporary directory's is outside, too
        return "../%s" % r.choice(["tmp", "sib"]) + "/" + p
    if m["esc"] == "abs":
        return r.choice([scratch + "/out/%s", "/" + scratch + "/w/%s", scratch + "/%s"]) % p
    return r.choice(["", "", "./"]) + p


def build(case, r, scratch):
    fmt, mem = case["fmt"], case["mem"]
    data = [encode(text_of(m["c"], i, r), r) if m["c"] else b"" for i, m in enumerate(mem, 1)]
    out = scratch + "/in"
    os.makedirs(out)
    if fmt == "folder":
        root = out + "/" + r.choice(["proj", "my proj.v1", "x.tex"])
        os.makedirs(root)
        for m, d in zip(mem, data):
            p = os.path.join(root, member_name(m, r, scratch))
            if m["t"] == "dir":
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(d)
        return root
    if fmt == "gz":
        path = out + "/" + r.choice(["p.gz", "p.tex.gz", "arXiv-1.2v3.gz", "p.tar.gz", "my p.gz"])
        with gzip.open(path, "wb") as f:
            f.write(data[0])
    elif fmt == "zip":
        path = out + "/" + r.choice(["p.zip", "my p.v2.zip"])
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with zipfile.ZipFile(path, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
                for m, d in zip(mem, data):
                    n = member_name(m, r, scratch)
                    z.writestr(zipfile.ZipInfo(n + "/" if m["t"] == "dir" else n), d)
    else:
        path = out + "/" + r.choice(["p.tar.gz", "p.tgz", "my p.v2.tar.gz"])
        with tarfile.open(path, "w:gz", format=r.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])) as t:
            for i, (m, d) in enumerate(zip(mem, data)):
                ti = tarfile.TarInfo(member_name(m, r, scratch))
                ti.mode = r.choice([0o644, 0o600, 0o755, 0o444])
                if m["t"] == "dir":
                    ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                elif m["t"] == "fifo":
                    ti.type = tarfile.FIFOTYPE
                elif m["t"] in ("sym", "hard"):
                    ti.type = tarfile.SYMTYPE if m["t"] == "sym" else tarfile.LNKTYPE
                    ti.linkname = {"out": r.choice(["../out", "../../out", "../out/secret.tex"] if m["t"] == "sym" else ["../out/secret.tex"]),
                                   "abs": scratch + r.choice(["/out", "/out/secret.tex"] if m["t"] == "sym" else ["/out/secret.tex"]),
                                   "in": "."}[m["to"]]
                    if m["t"] == "hard" and m["to"] == "in":
                        prev = [x for x in mem[:i] if x["t"] == "file" and x["esc"] == "in"]
                        if not prev:
                            continue
                        ti.linkname = t.getnames()[[x["t"] == "file" and x["esc"] == "in" for x in mem].index(True)] if len(t.getnames()) == i else None
                        if ti.linkname is None:
                            continue
                else:
                    ti.size = len(d)
                    t.addfile(ti, io.BytesIO(d))
                    continue
                t.addfile(ti)
    if case["bad"]:
        raw = open(path, "rb").read()
        raw = r.choice([raw[:len(raw) // 2], raw[:len(raw) // 3], b"", b"no archive at all", b"\\documentclass{article}\\begin{document}x\\end{document}"])
        open(path, "wb").write(raw)
    return path


def snapshot(top, skip):
    seen = {}
    for root, dirs, files in os.walk(top):
        if root == skip:
            dirs[:] = []
            continue
        for n in dirs + files:
            p = os.path.join(root, n)
            st = os.lstat(p)
            seen[os.path.relpath(p, top)] = (stat.S_IFMT(st.st_mode), open(p, "rb").read() if stat.S_ISREG(st.st_mode) else "", st.st_nlink if stat.S_ISREG(st.st_mode) else 0)
    return seen


class Fault(Exception):
    pass


def check_archive(case):
    drop_privileges()
    scratch = tempfile.mkdtemp(prefix="l2jarch_", dir="/tmp")
    saved = tempfile.tempdir
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return run(case, scratch)
    finally:
        tempfile.tempdir = saved
        for root, dirs, _ in os.walk(scratch):
            for d in dirs:
                if not os.path.islink(os.path.join(root, d)):
                    os.chmod(os.path.join(root, d), 0o700)
        shutil.rmtree(scratch, ignore_errors=True)


def run(case, scratch):
    r = rng_for(case)
    tmp = scratch + "/w/x/y/z"
    os.makedirs(tmp)
    os.makedirs(scratch + "/out")
    for d in ("w", "w/x", "w/x/y"):
        os.makedirs(scratch + "/" + d + "/out")
        open(scratch + "/" + d + "/out/secret.tex", "w").write("\\documentclass{article}\\begin{document}secret\\end{document}")
    open(scratch + "/out/secret.tex", "w").write("\\documentclass{article}\\begin{document}secret\\end{document}")
    path = build(case, r, scratch)
    before = snapshot(scratch, tmp)
    tempfile.tempdir = tmp
    reader, results, bad = TexReader(), [], []
    what = lambda: "archive %s of %s" % (os.path.basename(path), [(m["t"], member_name_log(m), m["c"], m["esc"], m["to"]) for m in case["mem"]])

    def note(msg):
        bad.append("%s\n   %s, operations %s" % (msg, what(), [(o["k"], o["api"], o["cleanup"], o["fault"], o["on"]) for o in case["ops"]]))

    fs = {rel(f): f for f in case["fs"]}
    main = case["fs"][case["main"] - 1] if case["main"] else None
    for i, op in enumerate(case["ops"]):
        if op["k"] == "cleanup":
            res = results[op["on"] - 1]
            if res is None:
                return bad
            try:
                res.cleanup()
            except Exception as e:
                note("operation %d: cleanup of the result fails: %r" % (i + 1, e))
        else:
            if op["fault"]:
                def fail(*a, **k):
                    raise Fault("the builder fails")
                reader.token_builder.build = fail
            known = set(os.listdir(tmp))
            try:
                if op["api"] == "process":
                    res = reader.process(path if r.random() < .5 else pathlib.Path(path), cleanup=op["cleanup"])
                else:
                    res = reader.process_compressed(path, cleanup=op["cleanup"])
            except Fault:
                note("operation %d: an internal error gets out as it is" % (i + 1))
                res = None
            except (TexProcessingError, FileNotFoundError, RuntimeError) as e:
                if op["api"] == "process" and type(e) not in (TexProcessingError, FileNotFoundError):
                    note("operation %d: process raises %r" % (i + 1, e))
                res = None
                if case["usable"] and not op["fault"]:
                    note("operation %d: fails with %s" % (i + 1, str(e)[:300]))
            finally:
                reader.token_builder.__dict__.pop("build", None)
            expect = case["usable"] and not op["fault"]
            if res is not None and not expect:
                note("operation %d: gives a result where an error was due" % (i + 1))
            results.append(res)
            if res is not None and expect:
                text = "".join(flat_text(dump(t)) for t in res.tokens)
                if "w%dx" % main["id"] not in text or any("w%dx" % f["id"] in text for f in case["fs"] if f is not main):
                    note("operation %d: processed the wrong file, text %r, expected the one of %s" % (i + 1, text[:100], rel(main)))
                if case["fmt"] not in ("folder", "gz"):
                    if not str(res.main_tex_path).endswith("/" + rel(main)):
                        note("operation %d: main file given as %s, expected %s" % (i + 1, res.main_tex_path, rel(main)))
                if case["fmt"] == "folder" and os.path.realpath(res.main_tex_path) != os.path.realpath(os.path.join(path, rel(main))):
                    note("operation %d: main file given as %s, expected %s" % (i + 1, res.main_tex_path, rel(main)))
                if case["fmt"] != "folder" and not op["cleanup"]:
                    new = set(os.listdir(tmp)) - known
                    if len(new) != 1 or str(res.temp_dir) != os.path.join(tmp, list(new)[0]):
                        note("operation %d: temporary directory said to be %s, in fact %s" % (i + 1, res.temp_dir, sorted(new)))
                        return bad
                    check_extracted(case, str(res.temp_dir), fs, r, note, i)
        n = len(os.listdir(tmp))
        if n != case["live"][i]:
            note("operation %d (%s): %d temporary directories left, expected %d" % (i + 1, op["k"], n, case["live"][i]))
            return bad
        after = snapshot(scratch, tmp)
        if after != before:
            diff = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
            note("operation %d: files outside the temporary directory were touched: %s" % (i + 1, diff[:6]))
            return bad
    return bad


def member_name_log(m):
    return member_name(m, random.Random(0), "/SCRATCH")


def check_extracted(case, top, fs, r, note, i):
    r = rng_for(case)       # the same choices as when the files were written
    found = {}
    for root, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(root, n)
            if os.path.islink(p):
                if not os.path.realpath(p).startswith(os.path.realpath(top) + "/") and os.path.realpath(p) != os.path.realpath(top):
                    note("operation %d: a link %s that leads outside was extracted" % (i + 1, os.path.relpath(p, top)))
            elif n in files:
                st = os.lstat(p)
                if not stat.S_ISREG(st.st_mode):
                    note("operation %d: a special file %s was extracted" % (i + 1, os.path.relpath(p, top)))
                    continue
                found[os.path.relpath(p, top)] = open(p, "rb").read()
    if case["fmt"] == "gz":
        return
    for name, f in fs.items():
        data = found.pop(name, None)
        if data is None:
            note("operation %d: %s was not extracted" % (i + 1, name))
        elif f["c"] in ("full", "bare", "commented") and b"w%dx" % f["id"] not in data:
            note("operation %d: %s has the wrong content %r" % (i + 1, name, data[:80]))
    extra = [n for n in found if not n.split("/")[-1].startswith("lnk") and n != "t.txt" and not n.startswith("lnk")]
    if extra:
        note("operation %d: extracted beyond the files of the archive: %s" % (i + 1, extra[:5]))
