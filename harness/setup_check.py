"""setup_cmd: nothing is compiled; make sure the tools the checks rely on are there and
that every specification parses."""
import glob, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.quiet_repo()
import latex2json  # noqa
bad = 0
for f in sorted(glob.glob(os.path.join(core.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", core.TLA_JAR + ":" + core.TLA_CM, "tla2sany.SANY", os.path.basename(f)],
                       cwd=core.SPEC, capture_output=True, text=True)
    ok = r.returncode == 0 and "error" not in r.stdout.lower().replace("semantic errors:\n\n", "")
    print(os.path.basename(f), "ok" if ok else "FAILED\n" + r.stdout)
    bad |= not ok
sys.exit(bad)
