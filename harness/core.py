"""
core.py - the monitoring harness.

A check module (checks/<id>.py) declares *tasks*.  A task is a function
`case(c)` that drives the real pytracer code once (one workload case) and
reports what its monitors observed through the context `c`:

    c.check(cond, mech, msg, **witness)   one oracle verdict on one event
    c.event(name)                         an event was observed (counted)
    c.sig(*values)                        signature of a non-trivial case

Every case has its own PRNG, seeded from (VERIF_SEED, property, task, index),
so that a replay file naming (task, index) reproduces it exactly.

Verdicts are three-valued: violated (exit 1), held (exit 0), inconclusive
(exit 3: a monitor was never reached, or the watchdog fired on the harness).
"""
import os
import sys
import json
import time
import math
import zlib
import signal
import random
import hashlib
import traceback
import collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

CASE_LIMIT = int(os.environ.get("VERIF_CASE_LIMIT", "200"))      # CPU seconds, or twice that of waiting; cases take a few: a hang is lack of progress
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))   # stop at the first violation (mutation trials)
PER_MECH = 3          # witnesses kept per mechanism


class Task(object):
    def __init__(self, fn, quick, thorough, min_events, name):
        self.fn = fn
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.min_events = min_events


def tasklist():
    """Returns (TASKS, decorator)"""
    tasks = []

    def task(quick=100, thorough=None, min_events=1, name=None):
        def deco(fn):
            tasks.append(Task(fn, quick, thorough if thorough is not None else quick * 20,
                              min_events, name or fn.__name__))
            return fn
        return deco
    return tasks, task


class StopCase(Exception):
    """raised by c.require: this case cannot go on (verdict already recorded)"""


class NoProgress(BaseException):
    pass


def _short(v, depth=0):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            if v.size > 40:
                return "array%s %s..." % (v.shape, [_short(x, depth + 1) for x in v.ravel()[:8].tolist()])
            return v.tolist()
        if isinstance(v, np.generic):
            return v.item()
    except Exception:
        pass
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, float):
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, dict) and depth < 4:
        return {str(k): _short(x, depth + 1) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple)) and depth < 4:
        return [_short(x, depth + 1) for x in list(v)[:40]]
    return repr(v)[:300]


class Ctx(object):
    def __init__(self, pid, task, index, seed, tier, acc):
        self.pid = pid
        self.task = task
        self.index = index
        self.tier = tier
        key = "%s|%s|%s|%d" % (seed, pid, task.name, index)
        h = int(hashlib.sha256(key.encode()).hexdigest()[:16], 16)
        self.rng = random.Random(h)
        self.np_seed = h & 0x7fffffff
        self.acc = acc
        self.desc = {}

    # -- reporting
    def event(self, name, n=1):
        self.acc.events[self.task.name + "." + name] += n

    def sig(self, *vals):
        s = repr([_short(v) for v in vals])
        self.acc.sigs.add(zlib.crc32(s.encode()) | (len(s) << 32))

    def note(self, **kw):
        """description of the current case (goes to samples / witnesses)"""
        self.desc.update(kw)

    def check(self, cond, mech, msg="", **wit):
        self.acc.events[self.task.name + "." + mech] += 1
        self.acc.task_events[self.task.name] += 1
        try:
            okay = bool(cond)
        except Exception:
            okay = False
        if not okay:
            self.acc.violate(self, mech, msg, wit)
        return okay

    def require(self, cond, mech, msg="", **wit):
        if not self.check(cond, mech, msg, **wit):
            raise StopCase()

    def close(self, a, b, mech, msg="", tol=1e-7, rel=None, **wit):
        """|a-b| <= tol*(1+max) elementwise"""
        import numpy as np
        try:
            aa = np.asarray(a, dtype=float)
            bb = np.asarray(b, dtype=float)
            if aa.shape != bb.shape:
                ok = False
            else:
                scale = 1. + np.maximum(np.abs(aa), np.abs(bb)) if rel is None else rel
                with np.errstate(all='ignore'):
                    ok = bool(np.all((np.abs(aa - bb) <= tol * scale) | (aa == bb)))
        except Exception as e:
            ok = False
            wit['compare_error'] = repr(e)
        return self.check(ok, mech, msg, got=a, want=b, **wit)


class Acc(object):
    """what one worker observed"""
    def __init__(self):
        self.events = collections.Counter()
        self.task_events = collections.Counter()
        self.cases = collections.Counter()
        self.sigs = set()
        self.samples = {}
        self.viol = {}
        self.nviol = collections.Counter()

    def violate(self, c, mech, msg, wit):
        key = c.task.name + ":" + mech
        self.nviol[key] += 1
        lst = self.viol.setdefault(key, [])
        if len(lst) < PER_MECH:
            lst.append({"property": c.pid, "task": c.task.name, "index": c.index,
                        "mechanism": key, "message": msg,
                        "case": _short(c.desc), "witness": _short(wit)})

    def merge(self, o):
        self.events.update(o.events)
        self.task_events.update(o.task_events)
        self.cases.update(o.cases)
        self.sigs |= o.sigs
        for k, v in o.samples.items():
            cur = self.samples.setdefault(k, [])
            cur.extend(v)
            cur.sort(key=lambda s: s.get('index', 0))
            del cur[2:]
        for k, v in o.viol.items():
            cur = self.viol.setdefault(k, [])
            cur.extend(v)
            cur.sort(key=lambda s: s['index'])
            del cur[PER_MECH:]
        self.nviol.update(o.nviol)


def _where(tb):
    """innermost pytracer frame of a traceback (module.function)"""
    loc = "harness"
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        if "pytracer" in fn:
            p = fn.split("pytracer", 1)[1].lstrip("/").replace("/", ".")
            if p.endswith(".py"):
                p = p[:-3]
            p = p.replace(".__init__", "")
            loc = "%s.%s" % (p, fr.f_code.co_name)
    return loc


def run_case(pid, task, index, seed, tier, acc):
    import numpy as np
    c = Ctx(pid, task, index, seed, tier, acc)
    random.seed(c.np_seed)
    np.random.seed(c.np_seed)

    def onalarm(signum, frame):
        raise NoProgress()
    # spinning is measured in processor time, so that a busy machine is not taken for a hang; blocking by the clock
    signal.signal(signal.SIGALRM, onalarm)
    signal.signal(signal.SIGPROF, onalarm)
    signal.alarm(2 * CASE_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    acc.cases[task.name] += 1
    try:
        task.fn(c)
    except StopCase:
        pass
    except NoProgress:
        acc.violate(c, "no-progress", "no result after %d s of computing, or %d s of waiting (cases take a few)" % (CASE_LIMIT, 2 * CASE_LIMIT), {})
        return False
    except Exception as e:
        tb = sys.exc_info()[2]
        acc.violate(c, "exception:%s@%s" % (type(e).__name__, _where(tb)),
                    "%s: %s" % (type(e).__name__, e),
                    {"trace": traceback.format_exc().splitlines()[-12:]})
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    if len(acc.samples.setdefault(task.name, [])) < 1 and c.desc:
        acc.samples[task.name].append({"task": task.name, "index": index, "case": _short(c.desc)})
    return True


def worker(args):
    pid, mod, items, seed, tier = args
    acc = Acc()
    tasks = {t.name: t for t in mod.TASKS}
    hung = 0
    for name, idxs in items:
        for i in idxs:
            if not run_case(pid, tasks[name], i, seed, tier, acc):
                hung += 1
                if hung >= 1:
                    return acc
            if FAILFAST and acc.viol:
                return acc
    return acc


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv):
    import importlib
    pid = argv[0]
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    sys.path.insert(0, HERE)
    try:
        import numpy as np
        np.seterr(all='ignore')
    except Exception:
        traceback.print_exc()
        return 3
    try:
        mod = importlib.import_module("checks." + pid.lower())
    except Exception as e:
        tb = sys.exc_info()[2]
        if _where(tb) != "harness" or isinstance(e, ImportError):
            # the code under test cannot even be imported
            traceback.print_exc()
            return emit(pid, seed, tier, t0, None, {"import": [{
                "property": pid, "task": "import", "index": 0, "mechanism": "import",
                "message": "%s: %s" % (type(e).__name__, e), "case": {},
                "witness": {"trace": traceback.format_exc().splitlines()[-12:]}}]})
        traceback.print_exc()
        return 3

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        acc = Acc()
        tasks = {t.name: t for t in mod.TASKS}
        for v in rep["violations"]:
            run_case(pid, tasks[v["task"]], v["index"], rep["seed"], rep["tier"], acc)
        print(json.dumps(acc.viol, indent=1))
        return 1 if acc.viol else 0

    only = os.environ.get("VERIF_TASK")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    nproc = int(os.environ.get("VERIF_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))
    # shards: interleave so each worker meets every task; small chunks for balance
    jobs = []
    for t in mod.TASKS:
        if only and t.name not in only.split(","):
            continue
        n = t.quick if tier == "quick" else t.thorough
        n = max(1, int(n * scale))
        k = min(n, nproc * 2)
        for s in range(k):
            jobs.append((pid, mod, [(t.name, range(s, n, k))], seed, tier))
    acc = Acc()
    limit = int(os.environ.get("VERIF_QLIMIT", "840")) if tier == "quick" else int(os.environ.get("VERIF_LIMIT", "7200"))
    incomplete = False
    if nproc == 1:
        for j in jobs:
            acc.merge(worker(j))
            if FAILFAST and acc.viol:
                break
    else:
        lost = {}
        incomplete = True
        for i, r in run_jobs(jobs, nproc, t0 + limit):
            if i < 0:
                incomplete = False
                break
            if r is None:
                # the process running these cases ended without an answer
                lost[i] = lost.get(i, 0) + 1
                continue
            if isinstance(r, str):
                print(r)
                break
            acc.merge(r)
            if FAILFAST and acc.viol:
                break
        for i in sorted(k for k, n in lost.items() if n > 1):
            name, idxs = jobs[i][2][0]
            acc.viol["process-ended"] = [{
                "property": pid, "task": name, "index": idxs[0], "mechanism": "process-ended",
                "message": "the process running these cases ended by itself, twice", "case": {"indices": list(idxs)[:20]}, "witness": {}}]
            incomplete = False
    return emit(pid, seed, tier, t0, acc, None, mod, incomplete, only)


def run_jobs(jobs, nproc, deadline):
    """yields (job, result) as they come: an Acc, None when the process ended without answering (the job is then tried once
    more), a string when the harness itself failed; stops early, without the last element, when time runs out"""
    import gc
    from multiprocessing.connection import Pipe, wait
    todo = list(range(len(jobs)))[::-1]
    tries = [0] * len(jobs)
    live = {}

    def start():
        a, b = Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        pid = os.fork()
        if pid:
            b.close()
            live[a] = [pid, None]
            return a
        try:
            for x in list(live):
                x.close()
            a.close()
            # the code under test prints warnings; only verdicts belong on stdout
            sys.stdout = open(os.devnull, "w")
            while True:
                i = b.recv()
                try:
                    r = worker(jobs[i])
                except BaseException:
                    r = "harness failure\n" + traceback.format_exc()
                b.send(r)
        except (EOFError, OSError, KeyboardInterrupt):
            pass
        finally:
            os._exit(0)

    def feed(conn):
        if not todo:
            return
        i = todo.pop()
        live[conn][1] = i
        conn.send(i)

    def reap(conn):
        pid, i = live.pop(conn)
        conn.close()
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        return i

    try:
        for _ in range(min(nproc, len(jobs))):
            feed(start())
        while todo or any(v[1] is not None for v in live.values()):
            left = deadline - time.time()
            ready = wait(list(live), timeout=max(0., left)) if left > 0 else []
            if not ready:
                return
            for conn in ready:
                i = live[conn][1]
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    reap(conn)
                    if i is not None:
                        tries[i] += 1
                        if tries[i] < 2:
                            todo.append(i)
                        yield i, None
                    if todo:
                        feed(start())
                    continue
                live[conn][1] = None
                feed(conn)
                yield i, r
        yield -1, Acc()
    finally:
        for conn in list(live):
            reap(conn)


def emit(pid, seed, tier, t0, acc, viol=None, mod=None, incomplete=False, only=None):
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    nviol = {}
    if acc is not None:
        viol = acc.viol
        nviol = acc.nviol
    new = {}
    seen_known = {}
    for k, lst in sorted(viol.items()):
        m = [f for f in known if f["mechanism"] == k]
        if m:
            seen_known[k] = m[0]
        else:
            new[k] = lst
    ev_dir = os.environ.get("VERIF_EV") or os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    if acc is not None:
        samples = []
        for t in mod.TASKS:
            samples.extend(acc.samples.get(t.name, [])[:1])
        cov = {"evaluations": int(sum(acc.cases.values())),
               "distinct_nontrivial": len(acc.sigs),
               "rule": getattr(mod, "RULE", ""),
               "samples": samples or [{"none": True}],
               "oracle_verdicts": int(sum(acc.task_events.values())),
               "cases_per_task": dict(acc.cases),
               "events_observed": {k: int(v) for k, v in sorted(acc.events.items())}}
    ev = {"property": pid, "tier": tier, "seed": int(seed) if str(seed).lstrip('-').isdigit() else 0,
          "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) if mod else [],
          "wall_s": round(time.time() - t0, 2),
          "violations": int(sum(nviol.get(k, 1) for k in new)),
          "known_findings_seen": sorted(seen_known)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    # every listed finding is printed, whether or not this run's sample met it
    for f in known:
        print("KNOWN-FINDING: property=%s %s%s" % (
            pid, f["what"], "" if f["mechanism"] in seen_known else " (not met in this run)"))
    print("%s tier=%s seed=%s cases=%d distinct=%d verdicts=%d wall=%.1fs" % (
        pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"],
        cov.get("oracle_verdicts", 0), time.time() - t0))
    if new:
        rdir = os.path.join(ev_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, tier, seed))
        flat = [v for lst in new.values() for v in lst]
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "violations": flat,
                       "counts": {k: int(nviol.get(k, 1)) for k in new}}, f, indent=1)
        for k, lst in new.items():
            v = lst[0]
            print("  %s x%d: %s case=%s witness=%s" % (
                k, nviol.get(k, 1), v["message"], json.dumps(v["case"])[:600], json.dumps(v["witness"])[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if incomplete:
        print("INCONCLUSIVE: watchdog ended the workload")
        return 3
    if acc is not None and not only:
        for t in mod.TASKS:
            if os.environ.get('VERIF_FLOORS') and acc.task_events[t.name] < 1.7 * t.min_events:
                print("FLOOR %s %s %d of %d" % (pid, t.name, acc.task_events[t.name], t.min_events))
            if acc.task_events[t.name] < t.min_events:
                print("INCONCLUSIVE: monitor of task %s reached %d times (needs %d)" % (
                    t.name, acc.task_events[t.name], t.min_events))
                return 3
    return 0
