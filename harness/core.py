"""Property-based testing engine: Hypothesis (CPython) generates and shrinks, a PyPy
worker process executes the code of /repo, oracles live in checks/*.py."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYPY = "/opt/pypyvenv/bin/python"


class Violation(Exception):
    """the property does not hold on this case"""


class HarnessError(Exception):
    """the machinery itself failed"""


class StopShrinking(BaseException):
    pass


class RemoteExc(object):
    def __init__(self, rep):
        self.exc, self.mro, self.msg, self.tb = rep["exc"], rep["mro"], rep["msg"], rep["tb"]

    def __repr__(self):
        return "%s(%s)" % (self.exc, self.msg)


def _decode(x):
    import numpy as np
    if isinstance(x, dict):
        if "__nd__" in x:
            shape, dtype, data = x["__nd__"]
            if dtype == "object":
                a = np.empty(len(data), dtype=object)
                for i, v in enumerate(data):
                    a[i] = v
            else:
                a = np.array(data, dtype=dtype)
            return a.reshape(shape)
        return {k: _decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_decode(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_decode(v) for v in x)
    return x


def _plain(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    raise TypeError(repr(x))


class Worker(object):
    """client of one PyPy process"""
    CPU = 60.0

    def __init__(self):
        self.p = None
        self.history = []       # requests since the process was started

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/")
        self.history = []
        try:
            rep = self._recv(120)
        except HarnessError:
            err = self.p.stderr.read().decode(errors="replace")[-3000:]
            self.stop()
            raise ImportFailure(err)
        self.where = rep["value"]

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                try:
                    f.close()
                except Exception:
                    pass
            self.p.wait()
            self.p = None

    def _read(self, n, deadline):
        buf = b""
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            left = deadline - time.time()
            if left <= 0:
                raise TimeoutError()
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                d = os.read(fd, min(1 << 20, n - len(buf)))
                if not d:
                    raise HarnessError("worker died")
                buf += d
        return buf

    def _recv(self, timeout):
        deadline = time.time() + timeout
        n = struct.unpack(">I", self._read(4, deadline))[0]
        return pickle.loads(self._read(n, deadline))

    def request(self, fn, case, seed=0, cpu=None):
        """-> decoded value or RemoteExc"""
        if self.p is None:
            self.start()
        cpu = cpu or self.CPU
        case = json.loads(json.dumps(case, default=_plain))      # no numpy types: the worker has another numpy
        req = {"fn": fn, "case": case, "seed": seed, "cpu": cpu}
        self.history.append(req)
        data = pickle.dumps(req, 4)
        try:
            self.p.stdin.write(struct.pack(">I", len(data)) + data)
            self.p.stdin.flush()
            rep = self._recv(cpu * 3 + 60)
        except TimeoutError:
            self.stop()
            return RemoteExc({"exc": "WallTimeout", "mro": ["WallTimeout"], "msg": "no answer", "tb": ""})
        except (HarnessError, BrokenPipeError, OSError):
            err = ""
            rc = None
            try:
                rc = self.p.wait(5)
                err = self.p.stderr.read().decode(errors="replace")[-500:]
            except Exception:
                pass
            self.stop()
            return RemoteExc({"exc": "WorkerDied", "mro": ["WorkerDied"], "msg": "exit %s %s" % (rc, err), "tb": ""})
        return _decode(rep["value"]) if rep["ok"] else RemoteExc(rep)


class ImportFailure(Exception):
    pass


class Ctx(object):
    """what a check function talks to"""

    def __init__(self, worker):
        self.w = worker

    def run(self, fn, case, seed=0, cpu=None):
        r = self.w.request(fn, case, seed, cpu)
        if isinstance(r, RemoteExc) and r.exc in ("CpuTimeout", "WallTimeout", "WorkerDied"):
            raise Violation("%s: %s" % (r.exc, r.msg))
        if isinstance(r, RemoteExc) and "adapter bug" in r.msg:
            raise HarnessError(r.msg)
        return r

    def ok(self, fn, case, seed=0, cpu=None):
        r = self.run(fn, case, seed, cpu)
        if isinstance(r, RemoteExc):
            raise Violation("unexpected %s: %s\n%s" % (r.exc, r.msg, r.tb))
        return r

    def raises(self, fn, case, names, seed=0):
        r = self.run(fn, case, seed)
        if not isinstance(r, RemoteExc):
            raise Violation("expected %s, got a result: %s" % ("/".join(names), str(r)[:300]))
        if not any(n in r.mro for n in names):
            raise Violation("expected %s, got %s: %s" % ("/".join(names), r.exc, r.msg))
        return r


class Facet(object):
    def __init__(self, name, strategy, check, quick, thorough=None, examples=(), shards=None,
                 shrink_s=60, rule="", exhaustive=False):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 20
        self.examples, self.shards = list(examples), shards
        self.shrink_s, self.rule, self.exhaustive = shrink_s, rule, exhaustive


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def judge(facet, ctx, case):
    """the verdict on one case; an answer that breaks the oracle (wrong shape, not a number ...) is a violation"""
    try:
        return facet.check(ctx, case)
    except (Violation, HarnessError, ImportFailure):
        raise
    except Exception:
        raise Violation("the answer has an unexpected form: " + traceback.format_exc()[-1500:])


def canon(case):
    return json.dumps(case, sort_keys=True)


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def _shard(job):
    """run one shard of one facet; returns plain data"""
    pid, fname, idx, n, seed, first, deadline = job
    import numpy as np
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    try:        # the cases depend on the seed alone, not on the literals of the modules that happen to be loaded
        from hypothesis.internal.conjecture import providers
        none = providers.Constants(**{k: set() for k in ("integers", "floats", "bytes", "strings")})
        providers._get_local_constants = lambda: none
    except Exception:
        pass
    try:        # near-copies of the last case after every fourth fresh one only: more different cases
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        mutate, fresh = ConjectureRunner.generate_mutations_from, [0]

        def sparing(self, data):
            fresh[0] += 1
            if fresh[0] % 4 == 0:
                mutate(self, data)
        ConjectureRunner.generate_mutations_from = sparing
    except Exception:
        pass
    mod = load(pid)
    facet = [f for f in mod.FACETS if f.name == fname][0]
    w = Worker()
    ctx = Ctx(w)
    st = {"n": 0, "keys": set(), "samples": [], "fail": [], "t0": None, "cut": False}

    def one(case):
        if st["fail"] and time.time() - st["t0"] > facet.shrink_s:
            raise StopShrinking()
        if not st["fail"]:
            if time.time() > deadline:
                st["cut"] = True
                raise StopShrinking()
            st["n"] += 1
        c = canon(case)
        start = len(w.history)
        try:
            nontrivial = judge(facet, ctx, json.loads(c))
        except Violation as v:
            if not st["fail"]:
                st["t0"] = time.time()
            st["fail"].append((len(c), c, str(v), [pickle.dumps(r) for r in w.history[-400:start]]))
            st["fail"] = sorted(st["fail"], key=lambda t: t[0])[:4]
            raise
        if nontrivial and not st["fail"]:
            h = hashlib.sha1((fname + c).encode()).digest()[:10]
            if h not in st["keys"]:
                st["keys"].add(h)
                if len(st["samples"]) < 2:
                    st["samples"].append({"facet": fname, "case": json.loads(c),
                                          "note": nontrivial if isinstance(nontrivial, str) else ""})
        return nontrivial

    res, began = {"facet": fname, "error": None}, time.time()
    try:
        if first:
            for ex in facet.examples:
                try:
                    one(ex)
                except Violation:
                    break
        if not st["fail"] and n > 0:
            @hypothesis.seed(int.from_bytes(hashlib.sha256(
                ("%s/%s/%d/%d" % (pid, fname, idx, seed)).encode()).digest()[:8], "big"))
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink) if facet.shrink_s else (Phase.generate,))
            @given(facet.strategy)
            def prop(case):
                one(case)
            try:
                prop()
            except StopShrinking:
                pass
            except Violation:
                pass
            except BaseException as e:  # Flaky and friends: only with a recorded failure
                if not st["fail"]:
                    raise
    except ImportFailure as e:
        res["error"] = None
        st["fail"] = [(0, canon({"import": True}), "the package cannot be imported: " + str(e)[-800:], [])]
    except StopShrinking:
        pass
    except BaseException:
        res["error"] = traceback.format_exc()[-3000:]
    finally:
        w.stop()
    res.update(secs=time.time() - began, n=st["n"], keys=st["keys"], samples=st["samples"], cut=st["cut"],
               fail=[(c, msg, hist) for _, c, msg, hist in st["fail"]])
    return res


def _try_case(pid, fname, case, history=()):
    """run one case in a fresh worker, after the given requests; -> message or None"""
    mod = load(pid)
    facet = [f for f in mod.FACETS if f.name == fname][0]
    w = Worker()
    try:
        for r in history:
            w.request(r["fn"], r["case"], r["seed"], r["cpu"])
        judge(facet, Ctx(w), case)
        return None
    except Violation as v:
        return str(v)
    except ImportFailure as e:
        return "the package cannot be imported: " + str(e)[-800:]
    finally:
        w.stop()


def confirm(pid, fname, fails, budget=240):
    """-> (case, message, history) of a confirmed failure, or None"""
    t0 = time.time()
    for c, msg, _ in fails:
        case = json.loads(c)
        m = _try_case(pid, fname, case)
        if m is not None:
            return case, m, []
        if time.time() - t0 > budget:
            break
    if "Timeout" in fails[0][1]:
        return None
    # the failure needs what was run before it
    for c, msg, hist in fails:
        case = json.loads(c)
        hist = [pickle.loads(h) for h in hist]
        if not hist or time.time() - t0 > budget:
            continue
        m = _try_case(pid, fname, case, hist)
        if m is None:
            continue
        # shrink the history
        size = max(1, len(hist) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(hist) and time.time() - t0 < budget:
                cand = hist[:i] + hist[i + size:]
                mm = _try_case(pid, fname, case, cand)
                if mm is not None:
                    hist, m = cand, mm
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        return case, m, hist
    c, msg, _ = fails[0]
    return json.loads(c), msg + " (seen once, not reproduced in a fresh process)", []


def run_check(pid, tier, seed, procs=None):
    t0 = time.time()
    procs = procs or max(1, min(8, os.cpu_count() or 1))
    mod = load(pid)
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hypothesis")
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        return _run_check(pid, tier, seed, procs, mod, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# the cheap checks generate more cases in the quick tier
QUICK_SCALE = {"C01": 3, "C02": 4, "C03": 5, "C04": 4, "C05": 4, "C06": 8, "C07": 6, "C08": 6, "C09": 3, "C10": 4, "C11": 6, "C12": 5,
               "C13": 4, "C14": 2.5, "C15": 2, "C16": 1.5, "C17": 6, "C18": 6, "C19": 4, "C23": 4, "C25": 4}


def _run_check(pid, tier, seed, procs, mod, t0):
    jobs = []
    limit = 720 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    for f in mod.FACETS:
        total = f.quick if tier == "quick" else f.thorough
        if tier == "quick" and total > 10:
            total = int(total * QUICK_SCALE.get(pid, 1))
        k = f.shards or max(1, min(8, total // 40))      # not the machine's cores: the same cases everywhere
        if tier != "quick":
            k = max(k, 8, procs)
        for i in range(k):
            n = total // k + (1 if i < total % k else 0)
            jobs.append((pid, f.name, i, n, seed, i == 0, deadline))
    # the expensive facets first
    with mp.get_context("spawn").Pool(procs, maxtasksperchild=1) as pool:
        results = pool.map(_shard, jobs, chunksize=1)
    errors = [r for r in results if r["error"]]
    keys = set()
    per = {}
    samples = []
    for r in results:
        keys |= r["keys"]
        d = per.setdefault(r["facet"], {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += r["n"]
    for f in per:
        ks = set()
        for r in results:
            if r["facet"] == f:
                ks |= r["keys"]
                if len([s for s in samples if s["facet"] == f]) < 2:
                    samples.extend(r["samples"][:1])
        per[f]["distinct_nontrivial"] = len(ks)
    found = None
    for r in results:
        if r["fail"]:
            c = confirm(pid, r["facet"], r["fail"])
            if c is not None:
                found = (r["facet"],) + c
                break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["n"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples,
            "facets": per,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if found else 0,
    }
    if any(r["cut"] for r in results):
        ev["coverage"]["time_limit_reached"] = True
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    if found:
        fname, case, msg, hist = found
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, fname))
        with open(path, "w") as fh:
            json.dump({"property": pid, "facet": fname, "case": case, "message": msg,
                       "history": hist}, fh, indent=1)
        print("facet %s: %s" % (fname, msg))
        print("case: %s" % json.dumps(case))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for r in errors[:3]:
            print("ERROR in facet %s:\n%s" % (r["facet"], r["error"]))
        return 2
    unconfirmed = [r["facet"] for r in results if r["fail"]]
    if unconfirmed:
        print("note: unconfirmed time-outs in %s" % unconfirmed)
    print("%s: held on %d cases (%d distinct non-trivial, digest %s) in %.1f s" % (
        pid, ev["coverage"]["evaluations"], len(keys), hashlib.sha1(b"".join(sorted(keys))).hexdigest()[:8],
        time.time() - t0))
    for f in per:
        print("   %-28s %6d cases, %6d distinct non-trivial, %6.1f s" % (
            f, per[f]["evaluations"], per[f]["distinct_nontrivial"], sum(r["secs"] for r in results if r["facet"] == f)))
    return 0


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    m = _try_case(r["property"], r["facet"], r["case"], r.get("history", ()))
    if m is None:
        print("the case passes")
        return 0
    print("facet %s: %s" % (r["facet"], m))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1
