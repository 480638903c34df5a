"""Run a function in a forked copy of this (still pristine) process."""
import os
import pickle
import sys

from dst.common import outcome


def _safe(st, res):
    if st == "err":
        return ("err", type(res).__name__, str(res)[:500])
    return ("ok", res, None)


def fresh(fn, *a):
    """(status, value or exception name, text) computed in a child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sys.settrace(None)
            try:
                data = pickle.dumps(_safe(*outcome(fn, *a)))
            except BaseException as e:
                data = pickle.dumps(("bad", type(e).__name__, str(e)[:500]))
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if not chunks:
        return ("bad", "ProcessDied", "")
    return pickle.loads(b"".join(chunks))
