"""A replica process: started with its own environment, imports the library its own way and
then forks one copy of itself per life.  Usage: replica.py SOCKET (configuration on stdin)"""
import gc
import json
import os
import random
import resource
import signal
import socket
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot                                     # noqa: E402


def identity(cfg):
    """who and where the process believes it is"""
    import getpass
    import platform
    import uuid
    name = cfg["node"]
    os.getpid = lambda: cfg["pid"]
    os.getppid = lambda: 1
    os.cpu_count = lambda: 1 + cfg["pid"] % 16
    socket.gethostname = lambda: name
    platform.node = lambda: name
    getpass.getuser = lambda: name
    uuid.getnode = lambda: cfg["pid"] * 7919
    uuid._generate_time_safe = None


def life(conn, env):
    f = conn.makefile("rwb")
    plan = json.loads(f.readline())
    resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
    from sim import ops
    import locale
    import time
    boot.CLOCK.wall = plan["clock"]
    boot.RNG.seed(plan["random"])
    random.seed(plan["random"])
    identity(plan)
    for k, v in plan["env"].items():
        os.environb[k.encode()] = v.encode()
    if plan["tz"]:
        os.environ["TZ"] = plan["tz"]
        time.tzset()
    if plan["setlocale"]:
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    if plan["gc"] == "off":
        gc.disable()
    elif plan["gc"] == "often":
        gc.set_threshold(20, 2, 2)
    if plan["streams"] == "none":
        sys.stdin = sys.stdout = sys.stderr = None
    if plan["digits"]:
        sys.set_int_max_str_digits(plan["digits"])
    box = []

    def go():
        box.append(serve(plan, ops))
    w = plan["where"]
    body = go
    if "loop" in w:
        import asyncio

        def body():
            loop = asyncio.new_event_loop()
            asyncio._set_running_loop(loop)         # as inside a task; the loop itself need not turn
            try:
                go()
            finally:
                asyncio._set_running_loop(None)
    if "thread" in w:
        import threading
        t = threading.Thread(target=body, name="worker")
        t.start()
        t.join()
    else:
        body()
    f.write(json.dumps(box[0]).encode() + b"\n")
    f.flush()


def serve(plan, ops):
    out = []
    keep = []
    try:
        for what, x in plan["steps"]:
            if what == "op":
                del keep[:]
                o = ops.outcome(x, keep=keep)
                out.append([o, ops.probe(keep[0]) if keep else None])
            elif what == "jump":
                boot.CLOCK.advance(x)
            elif what == "reseed":
                random.seed(x)
            elif what == "collect":
                gc.collect()
        return {"ok": out, "reads": boot.CLOCK.reads, "seams": boot.SEAM_USE}
    except BaseException:
        return {"error": traceback.format_exc()}


def main():
    cfg = json.loads(sys.stdin.buffer.readline())
    boot.install()
    boot.CLOCK.wall = cfg["clock"]
    boot.RNG.seed(cfg["random"])
    random.seed(cfg["random"])
    identity(cfg)
    ballast = [[str(k)] for k in range(cfg["ballast"])]
    if cfg["setlocale"]:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    if boot.REPO not in sys.path:
        sys.path.insert(0, boot.REPO)
    import importlib
    for m in cfg["imports"]:
        importlib.import_module(m)
    boot.load()
    from sim import ops
    ops.lib()
    import asyncio, threading                            # noqa: E401,F401  lives may need them
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sys.argv[1])
    srv.listen(64)
    gc.collect()
    gc.freeze()
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    import select
    while True:
        r, _, _ = select.select([srv, 0], [], [])
        if 0 in r:
            os._exit(0)             # the check has ended
        conn, _ = srv.accept()
        if os.fork() == 0:
            try:
                srv.close()
                life(conn, cfg)
            except BaseException:
                conn.sendall(json.dumps({"error": traceback.format_exc()}).encode() + b"\n")
            finally:
                os._exit(0)
        conn.close()
    return ballast


if __name__ == "__main__":
    main()
