"""Plants the bugs described in tools/bugs/*.py: for each, in a scratch copy of /repo, apply the edit, run the
stable tests, run the demonstration with and without, write seeded/<id>/, and (with --check) run the
property's quick check against the copy.   plant.py [--check] [--keep-going] [ID-or-prefix ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "bff3a4d"
BUGS = []


def B(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


PRE = '''import os, sys, logging
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
def conv(text, preprocess=True):
    p = LatexParser()
    return [t if isinstance(t, str) else t.model_dump(mode="json", exclude_none=True) for t in TokenBuilder().build(p.parse(text, preprocess=preprocess))]
def flat(t):
    if isinstance(t, str): return t
    if isinstance(t, list): return "".join(flat(x) for x in t)
    if isinstance(t, dict): return flat(t.get("title", "")) + flat(t.get("content", ""))
    return ""
def find(t, **kw):
    out = []
    def go(x):
        if isinstance(x, list):
            for y in x: go(y)
        elif isinstance(x, dict):
            if all(x.get(k) == v for k, v in kw.items()): out.append(x)
            for k in x: go(x[k])
    go(t)
    return out
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check, allp = "--check" in sys.argv, "--all" in sys.argv
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(B=B))
    work = tempfile.mkdtemp(prefix="plant_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    basefiles = {}
    for b in BUGS:
        if args and not any(b["id"].startswith(a) for a in args):
            continue
        d = os.path.join(work, "repo")
        shutil.rmtree(d, ignore_errors=True)
        sh(["cp", "-a", "/repo", d])
        ok, msg = True, []
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                ok = False
                msg.append("edit matches %d times: %s" % (s.count(old), old[:60]))
                continue
            base = sh(["git", "-C", "/repo", "show", BASE + ":" + f]).stdout
            if old not in base and not any(l.strip() and l in base.splitlines() for l in old.splitlines() if l not in new.splitlines()):
                msg.append("NOTE: changed lines are not in the original file")
            open(p, "w").write(s.replace(old, new))
        if not ok:
            print(b["id"], "BAD", msg)
            continue
        diff = sh(["git", "-C", d, "diff"]).stdout
        out = os.path.join(V, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(PRE + b["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=env).stdout
        failed = re.findall(r"^FAILED (\S+)", t, re.M)
        norm = lambda x: x.replace(".py::", "::").replace("/", ".")
        failed = [x for x in failed if norm(x) in STABLE or norm(x).replace("::", ".", norm(x).count("::") - 1) in STABLE]
        if failed or ("passed" not in t and "%]" not in t):
            msg.append("TESTS FAIL: %s" % failed[:3])
        d0 = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo")
        d1 = sh(["bash", os.path.join(out, "demo.sh")], cwd=d)
        if d0.returncode != 0:
            msg.append("DEMO fails on the unchanged tree: " + d0.stdout[-300:])
        if d1.returncode == 0:
            msg.append("DEMO passes with the patch")
        if check:
            props = [b["prop"]]
            if allp:
                props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
            for pr in props:
                e = dict(env, L2J_REPO=d, L2J_EVIDENCE=os.path.join(work, "ev"), VERIF_SEED="1")
                c = sh(["timeout", "900", PY, os.path.join(V, "harness", "check.py"), pr], env=e)
                lines = [l for l in c.stdout.splitlines() if l.startswith("    ") or "rror" in l]
                msg.append("%s: %s %s" % (pr, {0: "missed", 1: "CAUGHT"}.get(c.returncode, "NO ANSWER"), (lines[0].strip()[:110] if lines else "")))
        print(b["id"], "; ".join(msg) or "ok", flush=True)
    shutil.rmtree(work, ignore_errors=True)


STABLE = set()
try:
    bl = json.load(open("/opt/vp/BASELINE.json"))
    def coll(x):
        if isinstance(x, str): STABLE.add(x)
        elif isinstance(x, dict):
            for k, v in x.items(): coll(k); coll(v)
        elif isinstance(x, list):
            for v in x: coll(v)
    coll(bl)
except OSError:
    pass
if __name__ == "__main__":
    main()
