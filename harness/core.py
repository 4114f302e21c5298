"""Shared machinery: run TLC on a module of /verif/spec, collect the behaviours it
emits, push them through the real code of /repo in worker processes, and report.

Nothing in here knows what a correct result is: expected values always come out of
the TLA+ specification (the "@@..." lines TLC prints)."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, logging
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("L2J_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
VENV_PY = "/opt/venv/bin/python"
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("L2J_NPROC", str(os.cpu_count() or 4)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CASE_LIMIT = 20          # seconds one document may take before it counts as hanging


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    if isinstance(v, range):
        return "{" + ", ".join(str(x) for x in v) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    raise TypeError(v)


class TLCRun:
    """One TLC process. mode='bfs' (exhaustive) or mode='sim' (random walks)."""

    def __init__(self, module, consts, invariants=(), properties=(), mode="bfs", num=0,
                 depth=60, seed=1, workers=1, extra_cfg="", heap="2g", keep_files=(), env=None,
                 spec="Spec", timeout=600, label=None, postcondition=None):
        self.module, self.mode, self.label = module, mode, label or module
        self.dir = tempfile.mkdtemp(prefix="tlc_")
        self.timeout = timeout
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(self.dir, f))
        for name, data in keep_files:
            with open(os.path.join(self.dir, name), "w") as fh:
                fh.write(data)
        cfg = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE"]
        if consts:
            # values TLC's cfg grammar cannot express (sequences) go through a wrapper module
            cfg.append("CONSTANTS")
            mc = []
            for k, v in consts.items():
                if isinstance(v, (list, tuple)):
                    mc.append((k, v))
                    cfg.append("  %s <- MC_%s" % (k, k))
                else:
                    cfg.append("  %s = %s" % (k, tla_value(v)))
            root = module
            if mc:
                root = "MCW"
                with open(os.path.join(self.dir, "MCW.tla"), "w") as fh:
                    fh.write("---- MODULE MCW ----\nEXTENDS %s\n" % module)
                    for k, v in mc:
                        fh.write("MC_%s == %s\n" % (k, tla_value(v)))
                    fh.write("====\n")
        else:
            root = module
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        for p in properties:
            cfg.append("PROPERTY %s" % p)
        if postcondition:
            cfg.append("POSTCONDITION %s" % postcondition)
        if extra_cfg:
            cfg.append(extra_cfg)
        with open(os.path.join(self.dir, root + ".cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m",
               "-cp", TLA_JAR + ":" + TLA_CM, "tlc2.TLC", "-nowarning", "-workers", str(workers),
               "-metadir", os.path.join(self.dir, "md"), "-config", root + ".cfg"]
        if mode == "sim":
            cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
        cmd.append(root + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        self.out = open(os.path.join(self.dir, "out.txt"), "w+", encoding="utf-8", errors="replace")
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=self.dir, stdout=self.out, stderr=subprocess.STDOUT, env=e)

    def wait(self):
        try:
            rc = self.p.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise MachineryError("TLC timed out on %s" % self.label)
        self.out.flush()
        self.out.seek(0)
        emitted, text = [], []
        for line in self.out:
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
            else:
                text.append(line)
        self.out.close()
        self.text = "".join(text)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.emitted = emitted
        self.rc = rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.text)
        n = lambda s: int(s.replace(",", ""))
        self.generated = n(m[-1][0]) if m else 0
        self.distinct = n(m[-1][1]) if m else 0
        if self.mode == "sim":
            m = re.findall(r"The number of states generated: ([\d,]+)", self.text)
            if m:
                self.generated = n(m[-1])
            self.distinct = self.distinct or self.generated
        self.wall = time.time() - self.t0
        if rc != 0:
            raise MachineryError("TLC failed (rc=%s) on %s:\n%s" % (rc, self.label, self.text[-6000:]))
        return self


def run_all(runs_kw, parallel=None):
    """Start TLC runs (dicts of TLCRun kwargs), at most `parallel` at a time."""
    parallel = parallel or NPROC
    done, live, todo = [], [], list(runs_kw)
    order = {id(k): i for i, k in enumerate(runs_kw)}
    res = [None] * len(runs_kw)
    while todo or live:
        while todo and len(live) < parallel:
            k = todo.pop(0)
            live.append((order[id(k)], TLCRun(**k)))
        i, r = live.pop(0)
        res[i] = r.wait()
    return res


def sims(module, consts, num, depth, shards, seed=None, **kw):
    seed = SEED if seed is None else seed
    per = max(1, num // shards)
    return [dict(module=module, consts=consts, mode="sim", num=per, depth=depth,
                 seed=seed * 1000 + i * 7919 + 13, heap="1500m", label="%s/sim%d" % (module, i), **kw)
            for i in range(shards)]


# --------------------------------------------------------------------------- workers
class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def quiet_repo():
    """Make /repo importable in this process, silence its loggers."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


_FN = None


def _init(fn_mod, fn_name):
    global _FN
    quiet_repo()
    signal.signal(signal.SIGALRM, _alarm)
    import importlib
    _FN = getattr(importlib.import_module(fn_mod), fn_name)


def _call(case):
    limit = CASE_LIMIT
    signal.alarm(limit)
    try:
        return _FN(case)
    except CaseTimeout:
        return ["no answer within %d s (does not terminate?)" % limit]
    except MachineryError:
        raise
    except RecursionError as e:
        return ["uncaught RecursionError"]
    except Exception as e:
        tb = traceback.format_exc()
        return ["uncaught %s: %s\n%s" % (type(e).__name__, str(e)[:300], tb[-1500:])]
    finally:
        signal.alarm(0)


def _work(fn_mod, fn_name, k, nproc, cases, cur, t0, done, conn):
    """Worker k takes every nproc-th case and reports the ones with problems."""
    try:
        _init(fn_mod, fn_name)
        for i in range(k, len(cases), nproc):
            cur[k], t0[k] = i, time.time()
            res = _call(cases[i])
            cur[k] = -1
            if res:
                conn.send((i, res))
            done[k] += 1
        conn.send(None)
    except BaseException as e:
        try:
            conn.send(("error", "%s: %s" % (type(e).__name__, e)))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def map_cases(fn_mod, fn_name, cases, stop_after=40, nproc=None):
    """Apply fn to every case in worker processes; returns ([(case, problems)...], cases done).
    A worker that is stuck beyond reach of its alarm (inside a regular expression, say)
    is found from here, and its case counts as not terminating.  Workers share no locks,
    so that ending them at any point is safe."""
    bad = []
    if not cases:
        return bad, 0
    nproc = min(nproc or NPROC, len(cases))
    quiet_repo()
    import importlib
    from multiprocessing.connection import wait
    getattr(importlib.import_module(fn_mod), fn_name)     # fail here, not in every worker
    ctx = mp.get_context("fork")
    cur, t0 = ctx.Array("l", [-1] * nproc, lock=False), ctx.Array("d", [0.0] * nproc, lock=False)
    done = ctx.Array("l", [0] * nproc, lock=False)
    procs, conns = [], {}
    for k in range(nproc):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_work, args=(fn_mod, fn_name, k, nproc, cases, cur, t0, done, w), daemon=True)
        p.start()
        w.close()
        procs.append(p)
        conns[r] = k
    try:
        while conns and len(bad) < stop_after:
            for r in wait(list(conns), timeout=5):
                try:
                    m = r.recv()
                except EOFError:
                    raise MachineryError("worker %d died at case %d" % (conns[r], cur[conns[r]]))
                if m is None:
                    del conns[r]
                elif m[0] == "error":
                    raise MachineryError("worker failed: %s" % m[1])
                else:
                    bad.append((cases[m[0]], m[1]))
            stuck = [k for k in conns.values() if cur[k] >= 0 and time.time() - t0[k] > CASE_LIMIT + 10]
            if stuck:
                bad += [(cases[cur[k]], ["no answer within %d s (does not terminate?)" % CASE_LIMIT]) for k in stuck]
                break
    finally:
        for p in procs:
            p.kill()
        for p in procs:
            p.join()
    return bad, sum(done)


def dedupe(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


# --------------------------------------------------------------------------- verdicts
def load_known():
    """known_findings.jsonl: {"property","kind":"known"|"fixed","match":..., "what":...}"""
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


class Report:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.known = [k for k in load_known() if k["property"] == prop and k.get("kind") == "known"]

    def tlc(self, runs):
        for r in runs:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov.setdefault("tlc_runs", []).append(
                dict(label=r.label, mode=r.mode, distinct=r.distinct, generated=r.generated,
                     emitted=len(r.emitted), wall_s=round(r.wall, 1)))

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x if isinstance(x, str) else json.dumps(x)[:1500])

    def replayed(self, n):
        self.cov["traces_validated_against_impl"] += n

    def fail(self, checker, case, problems, key=None):
        """key identifies a known finding (exact match on the listed key)."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return False
        self.violations.append((checker, case, problems))
        return True

    def finish(self):
        ev = os.environ.get("L2J_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        replays = []
        for old in glob.glob(os.path.join(ev, "replay", self.prop + "_*.json")):
            os.remove(old)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            rd = os.path.join(ev, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (checker, case, problems) in enumerate(self.violations[:5]):
                path = os.path.join(rd, "%s_%d.json" % (self.prop, i))
                with open(path, "w") as fh:
                    json.dump(dict(property=self.prop, checker=checker, case=case, problems=problems),
                              fh, indent=1, default=str)
                replays.append(path)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                for p in (problems if isinstance(problems, list) else [problems])[:4]:
                    print("   ", str(p)[:1200])
            if len(self.violations) > 5:
                print("    ... and %d more" % (len(self.violations) - 5))
        if not self.violations and self.cov["traces_validated_against_impl"] == 0:
            raise MachineryError("nothing was replayed against the implementation")
        doc = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                   wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                   violations=len(self.violations))
        with open(os.path.join(ev, self.prop + ".json"), "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        print("%s %s: %d spec states, %d behaviours replayed, %d violations, %.1fs" % (
            self.prop, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"],
            len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
