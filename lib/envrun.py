"""Child interpreter for the environment monitor: runs a battery of calls and
reports results, side effects and changes to process-wide settings.
Usage: python [options] envrun.py MODE FD < pickle; the report goes to FD"""
import sys

sys.dont_write_bytecode = True
mode = sys.argv[1]
import gc
import os
import pickle

inp = sys.stdin.buffer.read()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import decimal
import locale
import logging
import random
import signal
import socket
import threading
import warnings

import icupy.icu  # noqa: F401
import harness as H
import cases_b as B

sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, H.SRC)

WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
BAD = ("socket.", "subprocess.", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chmod", "os.chown", "os.chdir",
       "os.putenv", "os.unsetenv", "os.link", "os.symlink", "os.truncate", "os.utime", "os.kill", "shutil.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "syslog.",
       "pty.", "signal.", "sqlite3.", "webbrowser.", "faulthandler.")
effects = []
watch = [False]


def hook(ev, args):
    if not watch[0]:
        return
    if ev == "open":
        p, md, fl = args
        if isinstance(fl, int) and fl & WRITES:
            effects.append("open %r for writing" % (p,))
    elif ev.startswith(BAD):
        effects.append(ev)


def state():
    r = logging.getLogger()
    return {
        "locale": locale.setlocale(locale.LC_ALL), "warning filters": repr(warnings.filters), "showwarning": warnings.showwarning, "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(), "int digits": sys.get_int_max_str_digits(), "gc": (gc.get_threshold(), gc.isenabled()), "cwd": os.getcwd(), "environ": dict(os.environ),
        "signals": {s: signal.getsignal(s) for s in signal.Signals}, "excepthook": sys.excepthook, "displayhook": sys.displayhook, "trace": (sys.gettrace(), sys.getprofile()),
        "random": random.getstate(), "decimal": repr(decimal.getcontext()), "socket timeout": socket.getdefaulttimeout(), "threads": threading.active_count(),
        "root logger": (r.level, list(r.handlers), r.manager.disable, logging.getLoggerClass(), logging.lastResort, logging.raiseExceptions),
        "umask": _umask(), "fds": len(os.listdir("/proc/self/fd")), "sys.path": list(sys.path), "stdout": (sys.stdout, sys.stderr, sys.stdin), "encodings": (sys.getdefaultencoding(), sys.getfilesystemencoding()),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def battery(jobs, base):
    P, E = H.load()
    rec, url = P.parse_url(base), P.URL(base)
    return [B._plain(B._job_env(P, E, j, rec, url)) for j in jobs]


def main():
    jobs, base = pickle.loads(inp)
    sys.addaudithook(hook)
    if mode == "nostd":
        sys.stdin = sys.stdout = sys.stderr = None
    elif mode == "gc":
        gc.set_threshold(1, 1, 1)
    elif mode == "nogc":
        gc.disable()
    before = state()
    watch[0] = True
    try:
        if mode == "thread":
            out = []
            threading.stack_size(256 * 1024)
            t = threading.Thread(target=lambda: out.append(battery(jobs, base)))
            t.start()
            t.join()
            res = out[0] if out else None
        elif mode == "fork":
            H.load()
            battery(jobs[:20], base)
            watch[0] = False
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    b = pickle.dumps(battery(jobs, base))
                    with os.fdopen(w, "wb") as f:
                        f.write(b)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                b = f.read()
            os.waitpid(pid, 0)
            res = pickle.loads(b) if b else None
        elif mode == "trace":
            sys.settrace(lambda *a: None)
            try:
                res = battery(jobs, base)
            finally:
                sys.settrace(None)
        else:
            res = battery(jobs, base)
    finally:
        watch[0] = False
    after = state()
    changed = [(k, repr(before[k])[:200], repr(after[k])[:200]) for k in before if before[k] != after[k]]
    with os.fdopen(int(sys.argv[2]), "wb") as f:
        f.write(pickle.dumps({"res": res, "effects": effects[:5], "changed": changed}))


if __name__ == "__main__":
    main()
