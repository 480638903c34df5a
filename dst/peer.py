"""Further processes that know nothing of the case: same code, another hash
seed.  `python -m dst.peer SOCKET PROP` serves calls of functions of the
property's module, each in a fork of the pristine process."""
import importlib
import os
import pickle
import signal
import socket
import struct
import sys
import threading

HASH_SEEDS = (11, 22, 33, 44, 55)


def path(k):
    return os.path.join(os.environ["DST_SCRATCH"], "peer%d.sock" % k)


def recv(s, n):
    out = b""
    while len(out) < n:
        b = s.recv(min(1 << 20, n - len(out)))
        if not b:
            raise EOFError
        out += b
    return out


def send_obj(s, o):
    b = pickle.dumps(o)
    s.sendall(struct.pack("<Q", len(b)) + b)


def recv_obj(s):
    return pickle.loads(recv(s, struct.unpack("<Q", recv(s, 8))[0]))


def ask(k, fn, *args):
    """(status, value, text) of prop_module.fn(*args) in peer k."""
    s = socket.socket(socket.AF_UNIX)
    try:
        s.connect(path(k))
        send_obj(s, (fn, args))
        return recv_obj(s)
    except (OSError, EOFError) as e:
        return ("bad", type(e).__name__, str(e))
    finally:
        s.close()


def serve(sock, pid):
    from dst import engine, sim      # noqa: F401
    from dst.fresh import fresh
    engine.warm_import()
    prop = importlib.import_module("dst.props." + pid.lower())
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock)
    srv.listen(64)
    print("ready", flush=True)
    # ends with its parent
    threading.Thread(target=lambda: (sys.stdin.read(), os._exit(0)),
                     daemon=True).start()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = srv.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                srv.close()
                fn, args = recv_obj(c)
                send_obj(c, fresh(getattr(prop, fn), *args))
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2])
