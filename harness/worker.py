"""Runs under PyPy: executes the code under test for the checks.

Protocol on fds 0/1: 4-byte big-endian length + pickle (plain Python data only).
Request  {"fn": name of a function of targets.py, "case": ..., "seed": int, "cpu": seconds}
Reply    {"ok": True, "value": ...} | {"ok": False, "exc": name, "mro": [...], "msg": str, "tb": str}
"""
import os
import sys
import struct
import pickle
import signal
import traceback
import warnings
import resource

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class CpuTimeout(BaseException):
    pass


def _on_timer(*_):
    raise CpuTimeout()


def main():
    inp = os.fdopen(os.dup(0), "rb")
    out = os.fdopen(os.dup(1), "wb")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    lim = 3 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import numpy as np
    import targets
    signal.signal(signal.SIGVTALRM, _on_timer)

    def send(obj):
        data = pickle.dumps(obj, 4)
        out.write(struct.pack(">I", len(data)) + data)
        out.flush()

    send({"ok": True, "value": targets.where()})
    os.dup2(devnull, 2)
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        req = pickle.loads(inp.read(struct.unpack(">I", head)[0]))
        try:
            np.random.seed(req["seed"])
            signal.setitimer(signal.ITIMER_VIRTUAL, req["cpu"])
            value = getattr(targets, req["fn"])(req["case"])
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            rep = {"ok": True, "value": targets.plain(value)}
        except CpuTimeout:
            rep = {"ok": False, "exc": "CpuTimeout", "mro": ["CpuTimeout"],
                   "msg": "no answer after %s s of CPU time" % req["cpu"], "tb": ""}
        except BaseException as e:  # noqa
            rep = {"ok": False, "exc": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__],
                   "msg": str(e)[:500], "tb": traceback.format_exc()[-1500:]}
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        send(rep)


if __name__ == "__main__":
    main()
