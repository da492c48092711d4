"""Replay server: a clean process that imports the untouched package from /repo, listens on a unix
socket and forks one handler per connection.  It never sees the symbolic loader."""
import importlib
import json
import os
import signal
import socket
import struct
import sys


class Hang(BaseException):
    pass


def recv_msg(s):
    hdr = b""
    while len(hdr) < 4:
        b = s.recv(4 - len(hdr))
        if not b:
            return None
        hdr += b
    n = struct.unpack("<I", hdr)[0]
    buf = bytearray()
    while len(buf) < n:
        b = s.recv(min(1 << 16, n - len(buf)))
        if not b:
            return None
        buf += b
    return json.loads(bytes(buf))


def send_msg(s, obj):
    d = json.dumps(obj).encode()
    s.sendall(struct.pack("<I", len(d)) + d)


def handle(conn, guard):
    from symex import api

    def on_alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    while True:
        req = recv_msg(conn)
        if req is None:
            os._exit(0)
        h = api.REGISTRY[req["harness"]]
        out = []
        for inputs in req["inputs"]:
            guard.restore()
            signal.setitimer(signal.ITIMER_REAL, req.get("timeout", 30))
            try:
                r = api.run_concrete(h, req["param"], inputs)
            except Hang:
                r = {"failed": ["hang"], "exc": "Hang", "tb": None, "infeasible": False, "obs": {}}
            except BaseException as e:
                r = {"failed": [], "exc": type(e).__name__, "tb": repr(e), "infeasible": False,
                     "obs": {}}
            signal.setitimer(signal.ITIMER_REAL, 0)
            out.append(r)
        send_msg(conn, out)


def main():
    sock_path, module = sys.argv[1], sys.argv[2]
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SX_DEBUG"):
        os.dup2(devnull, 2)
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(module)
    for m in getattr(mod, "PRELOAD", ()):
        importlib.import_module(m)
    from symex.loader import StateGuard
    guard = StateGuard()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock_path + ".tmp")
    srv.listen(64)
    os.rename(sock_path + ".tmp", sock_path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ppid = os.getppid()
    srv.settimeout(5)
    while True:
        try:
            conn, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != ppid:
                return
            continue
        if os.fork() == 0:
            srv.close()
            conn.settimeout(None)
            handle(conn, guard)
        conn.close()


if __name__ == "__main__":
    main()
