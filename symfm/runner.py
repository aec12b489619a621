"""Explores the cases of one property in a process pool, writes evidence, reports."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

G = {}      # per-process globals


# ----------------------------------------------------------------------------
# replay client
# ----------------------------------------------------------------------------
def start_zygote():
    """Process that has the real package loaded and forks replay servers."""
    path = os.path.join(os.environ.get("SYMFM_TMP") or "/tmp", "replay-%d.sock" % os.getpid())
    p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "symfm", "replay.py"), path],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL if not os.environ.get("SYMFM_DEBUG") else None,
                         start_new_session=True)
    return p, path


def stop_zygote(z):
    import signal
    try:
        os.killpg(z[0].pid, signal.SIGKILL)
    except OSError:
        pass
    z[0].wait()
    try:
        os.unlink(z[1])
    except OSError:
        pass


class Replayer:
    def __init__(self, path):
        self.path = path
        self.f = None
        self.n = 0
        self.t = 0.0

    def start(self):
        import socket
        t0 = time.time()
        while True:
            try:
                self.s = socket.socket(socket.AF_UNIX)
                self.s.connect(self.path)
                break
            except OSError:
                self.s.close()
                if time.time() - t0 > 120:
                    raise RuntimeError("replay process did not start")
                time.sleep(0.05)
        self.s.settimeout(90)
        self.f = self.s.makefile("rw")

    def __call__(self, case, inputs, ties=False):
        t0 = time.time()
        try:
            if self.f is None:
                self.start()
                t0 = time.time()
            self.f.write(json.dumps(dict(prop=case.prop, case=case.name, inputs=inputs, ties=ties)) + "\n")
            self.f.flush()
            line = self.f.readline()
            self.n += 1
            if not line:
                self.stop()
                return dict(status="dead", fails=[])
            return json.loads(line)
        except Exception as e:
            self.stop()
            return dict(status="error", fails=[], error=str(e))
        finally:
            self.t += time.time() - t0

    def stop(self):
        try:
            self.f.close()
        except Exception:
            pass
        try:
            self.s.close()
        except Exception:
            pass
        self.f = None


# ----------------------------------------------------------------------------
# coverage of the package's code objects
# ----------------------------------------------------------------------------
def watch_functions(found, lines):
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, "symfm")
    except ValueError:
        return
    root = os.path.join(os.path.abspath(REPO), "src") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            found.add("%s:%s" % (code.co_filename[len(root):], code.co_qualname))
            mon.set_local_events(tool, code, mon.events.LINE)
        return mon.DISABLE

    def line(code, ln):
        lines.add((code.co_filename[len(root):], ln))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.PY_START)


# ----------------------------------------------------------------------------
def load_symbolic():
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    sys.path.insert(0, os.path.join(REPO, "src"))
    from symfm import pandas_patch, shims
    pandas_patch.install()
    shims.install(shims.table())
    import fibermat as fm
    assert os.path.abspath(fm.__file__).startswith(os.path.abspath(REPO) + "/"), fm.__file__
    import props  # noqa: F401
    return fm


def new_rec(cfg):
    return dict(violations=[], undecided=[], spurious=[], raised={}, labels={}, mismatch=[],
                validated=0, samples=[], dead=set(), notes=[], replay=G["replay"],
                known=[], known_rules=cfg["known"],
                validate_left=G["validate_left"], cvc5_every=cfg["cvc5_every"],
                cvc5_i=G.setdefault("cvc5_i", 0))


def init_worker(cfg):
    from symfm.core import Ctx
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpriority(os.PRIO_PROCESS, 0, 5)
    if not os.environ.get("SYMFM_DEBUG"):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)     # progress bars of the code under test
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (int(cfg["mem_gb"] * 2 ** 30),) * 2)
    except Exception:
        pass
    G["cfg"] = cfg
    G["replay"] = Replayer(cfg["replay_path"])
    G["validate_left"] = {}
    G["ctxs"] = {}
    G["funcs"], G["lines"] = set(), set()
    watch_functions(G["funcs"], G["lines"])


def work(task):
    """Explore from some prefixes for a time slice."""
    key, prefixes, tslice, validate = task
    from symfm.core import Ctx, Stats
    from symfm.harness import CASES
    from symfm.symv import run_path
    cfg = G["cfg"]
    case = CASES[key]
    ctx = G["ctxs"].get(key)
    if ctx is None:
        o = case.opts
        ctx = G["ctxs"][key] = Ctx(timeout_ms=o.get("branch_ms", cfg["branch_ms"]),
                                   assert_ms=o.get("assert_ms", cfg["assert_ms"]),
                                   max_branches=o.get("branches", 4000))
    ctx.stats = Stats()
    ctx.deadline = cfg["deadline"]
    ctx.todo = [list(p) for p in prefixes]
    G["validate_left"] = {case.id: validate}
    rec = new_rec(cfg)
    t0 = time.time()
    r0 = G["replay"].t
    err = None
    while ctx.todo and time.time() - t0 < tslice and time.time() < cfg["deadline"]:
        p = ctx.todo.pop()
        try:
            run_path(ctx, case, cfg["fm"], rec, p)
        except MemoryError:
            rec["notes"].append("memory")
            ctx.stats.unexplored += 1
        except Exception:
            err = traceback.format_exc()
            break
        if rec["violations"]:
            break
        if len(ctx.cache) > 20000:
            ctx.cache.clear()
            ctx.zcache.clear()
            Ctx._vcache.clear()
    if len(Ctx._vcache) > 50000:
        Ctx._vcache.clear()
        ctx.cache.clear()
        ctx.zcache.clear()
    G["cvc5_i"] = rec["cvc5_i"]
    rec["unvalidated"] = max(rec["validate_left"].get(case.id, 0), 0)
    for k in ("replay", "validate_left", "dead", "cvc5_every", "cvc5_i", "known_rules"):
        rec.pop(k, None)
    rec["last_spurious"] = None
    return dict(key=key, stats=ctx.stats.dict(), rec=rec, rest=ctx.todo, wall=time.time() - t0,
                replay_s=G["replay"].t - r0, funcs=sorted(G["funcs"]), lines=sorted(G["lines"]), err=err)


def explore(cases, cfg):
    """Master loop."""
    from symfm.core import Stats
    t0 = time.time()
    ncpu = cfg["jobs"]
    total = {c.id: dict(stats=Stats().dict(), labels={}, wall=0.0, rest=0, pending=0, done=False)
             for c in cases}
    agg = dict(violations=[], known=[], undecided=[], spurious=[], raised={}, mismatch=[], validated=0,
               samples=[], notes=[], funcs=set(), lines=set(), errs=[], replay_s=0.0)
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(ncpu, initializer=init_worker, initargs=(cfg,))
    queue = []          # tasks not yet submitted
    for c in sorted(cases, key=lambda c: -c.weight):
        queue.append((c, [[]]))
        total[c.id]["pending"] += 1
    validate = {c.id: c.opts.get("validate", cfg["validate"]) for c in cases}
    running = []
    stop = False
    try:
        while (queue or running) and not stop:
            while queue and len(running) < ncpu:
                c, pref = queue.pop(0)
                v = min(validate[c.id], 1) if len(pref) == 1 and pref != [[]] else min(validate[c.id], 2)
                validate[c.id] -= v
                running.append((c, pool.apply_async(work, (((c.prop, c.name), pref, cfg["slice"], v),)), len(pref)))
            time.sleep(0.01)
            still = []
            for c, r, npref in running:
                if not r.ready():
                    still.append((c, r, npref))
                    continue
                T = total[c.id]
                T["pending"] -= 1
                try:
                    o = r.get()
                except Exception as e:
                    agg["errs"].append("%s: worker: %r" % (c.id, e))
                    continue
                for k, v in o["stats"].items():
                    T["stats"][k] += v
                T["wall"] += o["wall"]
                rec = o["rec"]
                for l, n in rec["labels"].items():
                    T["labels"][l] = T["labels"].get(l, 0) + n
                for v in rec["violations"]:
                    v["case"] = c.name
                    agg["violations"].append(v)
                for v in rec["known"]:
                    v["case"] = c.name
                    agg["known"].append(v)
                agg["undecided"] += ["%s:%s" % (c.name, u) for u in rec["undecided"]]
                agg["spurious"] += [dict(s, case=c.name) for s in rec["spurious"]]
                agg["mismatch"] += rec["mismatch"]
                agg["validated"] += rec["validated"]
                agg["samples"] += rec["samples"]
                agg["notes"] += rec["notes"]
                agg["replay_s"] += o["replay_s"]
                agg["funcs"] |= set(o["funcs"])
                agg["lines"] |= set(map(tuple, o["lines"]))
                for k, v in rec["raised"].items():
                    a = agg["raised"].setdefault(c.name + " " + k, dict(n=0, where=v["where"], replayed=0, real_ok=0))
                    for f in ("n", "replayed", "real_ok"):
                        a[f] += v[f]
                if o["err"]:
                    agg["errs"].append("%s: %s" % (c.id, o["err"]))
                validate[c.id] += rec["unvalidated"]
                rest = o["rest"]
                if rest:
                    if time.time() >= cfg["deadline"]:
                        T["rest"] += len(rest)
                    else:
                        idle = ncpu - len(still) - len(queue)
                        k = max(1, min(len(rest), max(idle, 2)))
                        for i in range(k):
                            part = rest[i::k]
                            if part:
                                queue.append((c, part))
                                T["pending"] += 1
                if agg["violations"]:
                    stop = True
            running = still
            if time.time() > cfg["deadline"] + 45:
                agg["notes"].append("workers still busy at the deadline were stopped")
                for c, r, n in running:
                    total[c.id]["rest"] += n
                break
            if time.time() >= cfg["deadline"]:
                for c, pref in queue:
                    total[c.id]["rest"] += len(pref)
                queue = []
    finally:
        pool.terminate()
        pool.join()
    agg["wall"] = time.time() - t0
    return total, agg
