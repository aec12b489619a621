"""Runs harnesses on concrete inputs against the real package (separate process)."""
import json
import os
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(REPO, "src"))
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from symfm import shims_conc
    shims_conc.install()
    import fibermat as fm
    assert os.path.abspath(fm.__file__).startswith(os.path.abspath(REPO) + "/"), fm.__file__
    import props  # noqa: F401
    return fm


class _Timeout(Exception):
    pass


def run_one(fm, prop, name, inputs, limit=60, ties=False):
    from symfm.harness import AssumeFailed, CASES, ConcV
    c = CASES[(prop, name)]
    V = ConcV(inputs, ties=ties)

    def onalarm(*a):
        raise _Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        c.fn(V, fm, **c.params)
        status = "ok"
    except AssumeFailed:
        status = "assumption"       # what was checked before it counts
    except _Timeout:
        status = "timeout"
        V.fails = []
    except Exception as e:
        status = "raised"
        V.fails.append(("raised %s: %s" % (type(e).__name__, str(e)[:200]),
                        "".join(traceback.format_exc()[-800:])))
    finally:
        signal.alarm(0)
        V.done()
    return dict(status=status, fails=V.fails, reached=V.reached, obs=V.obs)


def zygote(path):
    """Load the real package once, then fork one server per connection."""
    import gc
    import socket
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    fm = load()
    gc.freeze()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    parent = os.getppid()
    s.settimeout(1.0)
    while True:
        try:
            c, _ = s.accept()
        except socket.timeout:
            if os.getppid() != parent:
                os._exit(0)
            continue
        if os.fork() == 0:
            s.close()
            c.setblocking(True)
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            f = c.makefile("rw")
            for line in f:
                req = json.loads(line)
                r = run_one(fm, req["prop"], req["case"], req["inputs"], ties=req.get("ties", False))
                f.write(json.dumps(r) + "\n")
                f.flush()
            os._exit(0)
        c.close()


if __name__ == "__main__":
    zygote(sys.argv[1])
