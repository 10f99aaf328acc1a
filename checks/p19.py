"""P19: a daemon serves detached, and its pid file names it while it does."""
import os
import random
import signal
import socket
import subprocess
import threading
import time

import peek
from build import build, preload
from client import Closed, Late, Malformed, request
from drive import Skip, compare, fetch, judge_stopped
from p03 import judge, make_site, play
from p18 import descriptors
from server import Server

LEVEL = "exploration"
RULE = ("a case is one observation of the life of a daemon (its start, its pid file, its session and descriptors, a response, its end) or one run of the program "
        "that only has to print something; distinct by (build, options, state of the files before, observation, signal)")
ASSUMPTIONS = ["the folder of the pid file and the one of the logs exist", "one daemon at a time uses a pid file", "what happens below /var is redirected to a scratch folder",
               "starting and ending take less than 30 seconds (bounded progress)"]

PID = "var/run/viriatum.pid"
LOG = "var/log/viriatum.log"
ERR = "var/log/viriatum.err"
SIGNALS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT]


def state(pid):
    """(state letter, parent, session) of a process, or None."""
    try:
        with open("/proc/%d/stat" % pid) as handle:
            fields = handle.read().rsplit(")", 1)[1].split()
        return fields[0], int(fields[1]), int(fields[3])
    except OSError:
        return None


def living(pid):
    found = state(pid)
    return found is not None and found[0] not in "ZX"


def settle(condition, wait=30):
    end = time.time() + wait
    while True:
        value = condition()
        if value or time.time() > end:
            return value
        time.sleep(0.01)


class Daemon(Server):
    """A server whose command ends at once and leaves the daemon running."""

    def __init__(self, *args, **kw):
        kw["env"] = {"LD_PRELOAD": preload("redirect")}
        super().__init__(*args, **kw)
        self.env["VERIF_ROOT"] = self.dir
        self.pid = None

    def path(self, name):
        return os.path.join(self.dir, name)

    def read(self, name):
        try:
            with open(self.path(name), "rb") as handle:
                return handle.read()
        except FileNotFoundError:
            return None

    def relatives(self):
        """The live processes that run the binary of this folder."""
        out = []
        for name in os.listdir("/proc"):
            if name.isdigit():
                if (peek.exe(int(name)) or "").startswith(self.binary) and living(int(name)):
                    out.append(int(name))
        return sorted(out)

    def alive(self):
        return self.pid is not None and living(self.pid)

    def stop(self, sig=signal.SIGTERM, timeout=60):
        if self.pid is None:
            return None, self.log_text()
        if living(self.pid):
            os.kill(self.pid, sig)
            if not settle(lambda: not living(self.pid), timeout):
                os.kill(self.pid, signal.SIGKILL)
                return "timeout", self.log_text()
        # the exit code of a process that is not a child can't be known
        return 0, self.log_text()

    def kill(self):
        super().kill()
        for pid in self.relatives():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass


def connected(port):
    try:
        socket.create_connection(("127.0.0.1", port), 5).close()
        return True
    except OSError:
        return False


def launch(ctx, server, label):
    """Runs the command; its exit code."""
    server.launch()
    try:
        return server.proc.wait(30)
    except subprocess.TimeoutExpired:
        ctx.violation("attached:" + label, "%s: the command that starts a daemon does not end" % label)
        raise Skip()


def report(ctx, server, label):
    text = server.log_text()
    if "LeakSanitizer has encountered a fatal error" in text:
        ctx.unsure("leak checking is not possible here")
    elif text.strip():
        judge_stopped(ctx, label, False, 0, text, server.stdio_text())
        raise Skip()


def life(ctx, rng, index):
    backend = rng.choice(["asan", "asan", "select", "prefork"])
    workers = rng.choice([0, 1, 3]) if backend == "prefork" else 0
    site = make_site(rng)
    previous = {name: rng.choice([None, None, b"old contents\n", b"4194000\n", b"x" * 5000]) for name in (PID, LOG, ERR)}
    sealed = rng.choice([None] * 5 + ["var/run", "var/log"])
    number = rng.choice(SIGNALS)
    label = "daemon/%s%s%s" % (backend, "/%d" % workers if workers else "", "/" + sealed if sealed else "")
    built = build(backend)
    with_server = Daemon(built, site.ini(), files=site.files, args=["--daemon"] + (["--workers=%d" % workers] if workers else []),
                         etc={name: data for name, data in previous.items() if data is not None})
    with_server.args = rng.sample(with_server.args, len(with_server.args))
    server = with_server
    holder = None
    busy = rng.random() < 0.12
    # a start that fails does not release what it had so far
    server.leaks = not busy
    try:
        def case(*what):
            ctx.case((backend, workers, sealed, tuple(sorted(n for n, d in previous.items() if d))) + what)

        for name in (PID, LOG, ERR):
            os.makedirs(os.path.dirname(server.path(name)), exist_ok=True)
            os.chown(os.path.dirname(server.path(name)), server.uid, server.uid)
        if sealed:
            # what it has to write there cannot be
            for name in (PID, LOG, ERR):
                if name.startswith(sealed) and previous[name] is not None:
                    os.unlink(server.path(name))
                    previous[name] = None
            os.chown(server.path(sealed), 0, 0)
            os.chmod(server.path(sealed), 0o555)
        server.port = free()
        if busy:
            holder = socket.socket()
            holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 0)
            holder.bind(("127.0.0.1", server.port))
            holder.listen(5)
        code = launch(ctx, server, label)
        if sealed != "var/run" and code != 0:
            ctx.violation("start-code", "%s: the command that starts the daemon ended with %s: %s" % (label, code, server.log_text()[:1500] or server.stdio_text()[-500:]))
            raise Skip()
        case("launched", code)
        if busy:
            # it can't serve: it ends, and nothing says that it is there
            if not settle(lambda: not server.relatives()):
                ctx.violation("busy-runs", "%s: the daemon keeps running without its address" % label)
            report(ctx, server, label)
            if server.read(PID) not in (None,) and sealed is None:
                ctx.violation("busy-pid", "%s: the pid file remains after a start that failed" % label)
            case("busy")
            ctx.count("failed_starts")
            return
        if sealed == "var/run" and not settle(lambda: connected(server.port), 5):
            # a daemon whose pid can't be recorded may refuse to run
            if not settle(lambda: not server.relatives()):
                ctx.violation("sealed-hangs", "%s: the daemon neither serves nor ends" % label)
            report(ctx, server, label)
            case("sealed", code)
            return
        if not settle(lambda: connected(server.port)):
            report(ctx, server, label)
            ctx.violation("not-serving:" + label, "%s: the daemon does not accept connections; processes %s" % (label, server.relatives()))
            raise Skip()
        processes = server.relatives()
        if sealed == "var/run":
            heads = [pid for pid in processes if state(pid) and state(pid)[2] == pid]
        else:
            data = server.read(PID)
            if data is None or not data.strip().isdigit() or data != b"%d\n" % int(data):
                ctx.violation("pid-file", "%s: the pid file has %r" % (label, data))
                raise Skip()
            heads = [int(data)]
        if len(heads) != 1 or heads[0] not in processes:
            ctx.violation("pid-other", "%s: the pid file names %s, the processes are %s" % (label, heads, processes))
            raise Skip()
        server.pid = heads[0]
        settle(lambda: len(server.relatives()) == 1 + workers, 10)
        if not server.alive():
            report(ctx, server, label)
            ctx.violation("ended", "%s: the daemon ended by itself" % label)
            raise Skip()
        if len(server.relatives()) != 1 + workers:
            ctx.violation("processes", "%s: %d processes, expected %d" % (label, len(server.relatives()), 1 + workers))
        _letter, parent, session = state(server.pid)
        if session != server.pid or parent == os.getpid() or parent == server.proc.pid:
            ctx.violation("session", "%s: session %d and parent %d of the daemon %d" % (label, session, parent, server.pid))
        links = descriptors(server.pid)
        for fd, name in ((1, LOG), (2, ERR)):
            if sealed != "var/log" and links.get(str(fd)) != server.path(name):
                ctx.violation("output", "%s: descriptor %d is %r" % (label, fd, links.get(str(fd))))
        case("detached")
        ctx.count("daemons_observed")

        errors, threads = [], []
        for i in range(4):
            t = threading.Thread(target=play, args=(ctx, server, site, label, "%s/%d/%d" % (ctx.seed, index, i), ctx.n(8, 20), errors))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        judge(ctx, rng, server, site, label, errors)
        if sealed != "var/run" and server.read(PID) != b"%d\n" % server.pid:
            ctx.violation("pid-changed", "%s: the pid file has %r while %d serves" % (label, server.read(PID), server.pid))
        kids = [pid for pid in server.relatives() if pid != server.pid]
        if kids and rng.random() < 0.7:
            victim = rng.choice(kids)
            os.kill(victim, rng.choice(SIGNALS))
            if not settle(lambda: not living(victim)):
                ctx.violation("worker-stays", "%s: a worker does not end when asked to" % label)
            if living(server.pid) and server.read(PID) != b"%d\n" % server.pid and sealed != "var/run":
                ctx.violation("pid-lost", "%s: the pid file has %r after the end of a worker, while %d serves" % (label, server.read(PID), server.pid))
                raise Skip()
            case("worker")
            ctx.count("workers_ended")
            response = fetch(server, request(b"GET", b"/one", keep=False))
            if isinstance(response, Exception) or response.body != b"1":
                ctx.violation("after-worker", "%s: after the end of a worker: %r" % (label, response))

        rc, text = server.stop(number)
        judge_stopped(ctx, label, False, rc, text, server.stdio_text())
        if not settle(lambda: not server.relatives()):
            ctx.violation("remains", "%s: processes remain after signal %d: %s" % (label, number, server.relatives()))
        if server.read(PID) is not None:
            ctx.violation("pid-remains", "%s: the pid file remains after the end: %r" % (label, server.read(PID)))
        if connected(server.port):
            ctx.violation("listening", "%s: the address accepts connections after the end" % label)
        for name in (LOG, ERR):
            data = server.read(name)
            if sealed != "var/log" and (data is None or not data.startswith(previous[name] or b"")):
                ctx.violation("log", "%s: what the log %s had before is gone: %r" % (label, name, (data or b"")[:80]))
        case("ended", int(number))
        ctx.count("ends_observed")
        ctx.sample({"backend": backend, "workers": workers, "sealed": sealed, "signal": int(number), "before": {n: (d or b"")[:20] for n, d in previous.items()}})
    finally:
        if holder:
            holder.close()
        server.cleanup()


def free():
    with socket.socket() as sock:
        sock.bind(("127.0.0.1", 0))
        return sock.getsockname()[1]


def prints(ctx, rng):
    """Runs that only print: they serve nothing and touch nothing."""
    option, words = rng.choice([("--help", [b"usage", b"--port", b"--daemon"]), ("--version", [b"viriatum"])])
    extra = rng.sample(["--daemon", "--local", "--workers=2", "--handler=file", "--unknown", "plain", "-x"], rng.randrange(0, 4))
    server = Daemon(build("asan"), "[general]\n", args=[option] + extra)
    try:
        server.args = rng.sample(server.args, len(server.args))
        for name in (PID, LOG):
            os.makedirs(os.path.dirname(server.path(name)), exist_ok=True)
            os.chown(os.path.dirname(server.path(name)), server.uid, server.uid)
        server.port = free()
        code = launch(ctx, server, option)
        report(ctx, server, option)
        text = server.read("stdout").lower()
        if code != 0 or not all(word in text for word in words):
            ctx.violation("prints", "%s: exit %s, %r" % (server.args, code, text[:300]))
        if server.relatives() or server.read(PID) is not None or connected(server.port):
            # the pid file is removed at the end of any run as a daemon
            ctx.violation("prints-serves", "%s: something is left running" % server.args)
        ctx.case((option, tuple(sorted(extra))))
        ctx.count("prints")
    finally:
        server.cleanup()


def run(ctx):
    ctx.lock = threading.Lock()
    for index in range(ctx.n(30, 400)):
        for step in (lambda: life(ctx, ctx.rng, index), lambda: prints(ctx, ctx.rng)):
            try:
                step()
            except Skip:
                pass
        if ctx.late():
            break
