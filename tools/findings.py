"""Writes known_findings.jsonl: FIXED (property, commit subject prefix, what failed) and KNOWN."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
exec(open(os.path.join(V, "tools", "findings_table.py")).read())
with open(os.path.join(V, "known_findings.jsonl"), "w") as fh:
    for prop, subj, what in FIXED:
        h = [c for c, s in log if s.startswith("fix: " + subj)]
        assert len(h) == 1, (subj, h)
        fh.write(json.dumps(dict(property=prop, kind="fixed", commit=h[0], what=what,
                                 entry="fixed: property=%s %s %s" % (prop, h[0], what))) + "\n")
    for prop, key, what in KNOWN:
        fh.write(json.dumps(dict(property=prop, kind="known", key=key, what=what)) + "\n")
rest = [s for c, s in log if s.startswith("fix:") and not any(s.startswith("fix: " + f[1]) for f in FIXED)]
print("unlisted fix commits:", rest)
