"""check.py PROPERTY [--tier quick|thorough]   |   check.py --replay FILE   |   check.py --all
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: machinery error."""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import *

REGISTRY = {}


def prop(pid, level="model_checking"):
    def deco(fn):
        REGISTRY[pid] = (fn, level)
        return fn
    return deco


class Ctx:
    def __init__(self, pid, tier, level):
        self.rep = Report(pid, tier, level)
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def generate(self, runs):
        """Run TLC jobs; an invariant violated inside the spec is a machinery error."""
        caps = {id(kw): kw.pop("cap", None) for kw in runs}
        rs = run_all(runs)
        self.rep.tlc(rs)
        out = []
        for r, kw in zip(rs, runs):
            e, cap = r.emitted, caps.get(id(kw))
            if cap and len(e) > cap:          # evenly spaced sample of an exhaustive enumeration
                e = [e[i * len(e) // cap] for i in range(cap)]
            out += e
        return dedupe(out)

    def replay(self, mod, fn, cases, key=None):
        bad, n = map_cases(mod, fn, cases)
        self.rep.replayed(n)
        for c in cases[:2]:
            self.rep.sample(c)
        for case, probs in bad:
            self.rep.fail("%s.%s" % (mod, fn), case, probs, key(case, probs) if key else None)
        return n


def run_check(pid, tier):
    fn, level = REGISTRY[pid]
    c = Ctx(pid, tier, level)
    fn(c)
    return c.rep.finish()


def load_suites():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("s_") and f.endswith(".py"):
            importlib.import_module(f[:-3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    sys.modules["check"] = sys.modules["__main__"]
    if a.replay:
        d = json.load(open(a.replay))
        mod, fn = d["checker"].rsplit(".", 1)
        core._init(mod, fn)
        res = core._call(d["case"])
        for p in res or ["no problem: the code now agrees with the specification"]:
            print(p)
        return 1 if res else 0
    load_suites()
    if a.all:
        rc = 0
        for p in sorted(REGISTRY):
            try:
                rc |= run_check(p, a.tier)
            except MachineryError as e:
                print("ERROR", p, e)
                rc |= 2
        return rc
    try:
        return run_check(a.prop, a.tier)
    except MachineryError as e:
        print("machinery error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
