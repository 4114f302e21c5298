"""Writes DESIGN.md from tools/design_head.md, tools/props, spec, harness and tools/caught.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
PROPS = []
for f in sorted(glob.glob(os.path.join(V, "tools", "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(P=lambda *a, **k: PROPS.append(a), NA=[]))
PROPS.sort()
suite = {}
for f in glob.glob(os.path.join(V, "harness", "s_*.py")):
    s = open(f).read()
    mods = re.findall(r'module="(\w+)"|sims\("(\w+)"', s)
    inv = re.findall(r'(?:INV|invariants) ?= ?\[([^]]*)\]', s)
    drv = re.findall(r'replay\("(\w+)"', s)
    for m in re.finditer(r'@prop\("(C\d+)"', s):
        suite[m.group(1)] = (sorted({a or b for a, b in mods}), sorted(set(re.findall(r'"(\w+)"', " ".join(inv)))), sorted(set(drv)))
caught = {}
for l in rd("tools", "caught.txt").splitlines():
    m = re.match(r"(b\w+) (.*)", l)
    if m:
        caught[m.group(1)] = m.group(2)
out = [rd("tools", "design_head.md").rstrip() + "\n\n| change | needs | breaks | result |\n|---|---|---|---|\n"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    b = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = caught.get(b, "")
    out.append("| %s | %s | %s | %s |\n" % (b, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
               "caught by " + m["property"] if "CAUGHT" in r else "missed" if "missed" in r else "see vcheck"))
out.append("\n## Defects found in mrlooi/latex2json and repaired\n\nEach is one \"fix:\" commit, entry in known_findings.jsonl; none is left unrepaired that a claimed property covers.\n\n")
cnt = {}
for l in rd("known_findings.jsonl").splitlines():
    k = json.loads(l)
    cnt.setdefault(k["property"], []).append("`%s` %s" % (k.get("commit", "known"), k["what"]))
for p in sorted(cnt):
    out.append("- **%s**: %s\n" % (p, "; ".join(cnt[p])))
out.append("\n## Properties and models\n")
for a in PROPS:
    pid, title, statement, over, text, why, files, mech, technique, note = a[:10]
    mods, inv, drv = suite.get(pid, ([], [], []))
    out.append("\n### %s. %s\n\n%s\n\n" % (pid, title, statement))
    for m in mods:
        s = rd("spec", m + ".tla")
        h = re.match(r"-+ MODULE.*?\n((?:\(\*.*?\*\)\n)+)", s)
        c = " ".join(re.findall(r"\(\* ?(.*?) *\*\)", h.group(1))) if h else ""
        out.append("- Specified in `spec/%s.tla`: %s\n" % (m, c))
    out.append("- Invariants: %s.\n- Bound to the code by `harness/%s.py`, over %s.\n- %s\n- Why tests cannot settle it: %s.\n- Code: %s.\n" % (
        ", ".join(inv), "`, `harness/".join(d + "" for d in drv), text, note, why, ", ".join("`%s`" % f for f in files)))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
