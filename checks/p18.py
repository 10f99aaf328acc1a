"""P18: worker processes serve as one server and end with it."""
import os
import random
import signal
import socket
import ssl
import threading
import time

import peek
from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, judge_stopped, serving
from frame import VERIF
from p03 import judge, make_site, play

LEVEL = "exploration"
RULE = ("a case is one connection served by a server with worker processes, or one process observed at a quiet moment, a loss or the end; distinct by (back end, workers, "
        "plain or TLS, what was observed, which process it was, way of ending)")
ASSUMPTIONS = ["a build with support for workers (--enable-prefork)", "a worker that is killed from outside is not replaced",
               "resources are given back and processes end within 30 seconds (bounded progress)"]


def members(server):
    """The live processes of the server: {pid: parent}."""
    out = {}
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % name) as handle:
                fields = handle.read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        if int(fields[3]) == server.proc.pid and fields[0] not in "ZX":
            out[int(name)] = int(fields[1])
    return out


def descriptors(pid):
    return peek.links(pid) or {}


def ticks(pid):
    with open("/proc/%d/stat" % pid) as handle:
        fields = handle.read().rsplit(")", 1)[1].split()
    return int(fields[11]) + int(fields[12])


def inodes(port):
    """{port of the client: inode of the server's side} of the connections."""
    out = {}
    with open("/proc/net/tcp") as handle:
        for line in handle.read().split("\n")[1:]:
            fields = line.split()
            if len(fields) > 9 and int(fields[1].split(":")[1], 16) == port and fields[3] == "01":
                out[int(fields[2].split(":")[1], 16)] = fields[9]
    return out


def owners(server, conns):
    """The processes that hold each connection."""
    table = inodes(server.port)
    holding = {}
    for pid in members(server):
        for link in descriptors(pid).values():
            if link.startswith("socket:["):
                holding.setdefault(link[8:-1], set()).add(pid)
    return [holding.get(table.get(conn.sock.getsockname()[1], ""), set()) for conn in conns]


def kept(server, site, rng, count, tls, ctx, label):
    """Connections that were answered once and are kept."""
    out = []
    for _ in range(count):
        target = rng.choice([b"/one", b"/small.txt", b"/page.html", b"/dir/x.txt"])
        try:
            conn = Conn(server.port, timeout=60, tls=tls)
            conn.send(request(b"GET", target))
            diff = compare(site.expect(b"GET", target), conn.read_response(), False)
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, label, target)
            ctx.violation("unanswered:%s:%s" % (label.split("/")[0], type(error).__name__), "%s: a new connection was not answered: %s" % (label, error), target=target)
            raise Skip()
        if diff:
            ctx.violation("wrong:" + label.split("/")[0], "%s: %s: %s" % (label, target, "; ".join(diff)), target=target)
            raise Skip()
        out.append(conn)
    return out


def usable(conns, site, rng):
    """What is wrong with the first of the connections that does not answer."""
    for conn in conns:
        target = rng.choice([b"/one", b"/mid.bin", b"/missing"])
        try:
            conn.send(request(b"GET", target))
            diff = compare(site.expect(b"GET", target), conn.read_response(), False)
            if diff:
                return "; ".join(diff)
        except (Closed, Late, Malformed, OSError) as error:
            return "%s %s" % (type(error).__name__, error)
    return None


def settle(condition, wait=30):
    end = time.time() + wait
    while True:
        value = condition()
        if not value or time.time() > end:
            return value
        time.sleep(0.02)


def one_round(ctx, rng, index):
    backend = rng.choice(["prefork", "prefork", "prefork_select"])
    # now and then as many as there can be, or more
    workers = rng.choice([64, 65, 66, 72, 255]) if index % 14 == 5 else rng.choice([1, 2, 3, 4, 8])
    asked, workers = workers, min(workers, 64)
    secure = rng.random() < 0.25
    site = make_site(rng)
    general, etc, tls = {}, {}, None
    if secure:
        etc = {"etc/" + n: open(os.path.join(VERIF, "data", "tls", n), "rb").read() for n in ("rsa.crt", "rsa.key")}
        general = {"ssl": "On", "ssl_csr": "etc/rsa.crt", "ssl_key": "etc/rsa.key"}
        tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        tls.check_hostname, tls.verify_mode = False, ssl.CERT_NONE
    where = rng.random() < 0.5
    if not where:
        general["workers"] = str(asked)
    label = "%s/%d%s" % (backend, asked, "/tls" if secure else "")
    with serving(ctx, build(backend), site.ini(general), label, files=site.files, etc=etc, args=["--workers=%d" % asked] if where else []) as server:
        def case(*what):
            ctx.case((backend, asked, secure) + what)

        # every process is there, and listens
        count = settle(lambda: (lambda n: n if n != workers + 1 else 0)(len(members(server))))
        if count:
            ctx.violation("processes", "%s: %d processes, expected %d" % (label, count, workers + 1))
            raise Skip()
        case("processes")
        time.sleep(0.1)
        base = {pid: len(descriptors(pid)) for pid in members(server)}

        # load
        if not secure:
            errors, threads = [], []
            for i in range(6):
                t = threading.Thread(target=play, args=(ctx, server, site, label, "%s/%d/%d" % (ctx.seed, index, i), ctx.n(14, 30), errors))
                t.start()
                threads.append(t)
            for t in threads:
                t.join()
            judge(ctx, rng, server, site, label, errors)

        # every connection belongs to exactly one process
        conns = kept(server, site, rng, rng.choice([10, 25, 40]), tls, ctx, label)
        held = owners(server, conns)
        for pids in held:
            if len(pids) != 1:
                ctx.violation("owners", "%s: a connection is held by %d processes" % (label, len(pids)))
                raise Skip()
        ctx.count("connections_attributed", len(held))
        ctx.top("processes_answering", len(set().union(*held)))
        case("owners", len(set().union(*held)))
        wrong = usable(conns, site, rng)
        if wrong:
            alive_or_report(ctx, server, label, "kept")
            ctx.violation("kept", "%s: a kept connection: %s" % (label, wrong))
            raise Skip()

        lost = set()
        event = rng.choice(["none", "kill", "stop", "kill", "leave"])
        kids = [pid for pid in members(server) if pid != server.proc.pid]
        if event == "kill" and kids:
            # preferably one that holds connections
            victim = rng.choice([pid for pid in kids if any(pid in pids for pids in held)] or kids)
            os.kill(victim, signal.SIGKILL)
            lost.add(victim)
            settle(lambda: victim in members(server))
            case("kill", any(victim in pids for pids in held))
            left = [conn for conn, pids in zip(conns, held) if victim not in pids]
            wrong = usable(left, site, rng)
            if wrong:
                alive_or_report(ctx, server, label, "kill")
                ctx.violation("killed:others", "%s: after the loss of a worker, a connection of another process: %s" % (label, wrong))
                raise Skip()
            ctx.count("connections_after_a_loss", len(left))
            for conn in conns:
                conn.close()
            conns = kept(server, site, rng, 20, tls, ctx, label + "/after a loss")
        elif event == "stop" and kids:
            victim = rng.choice(kids)
            os.kill(victim, signal.SIGSTOP)
            try:
                more = kept(server, site, rng, 15, tls, ctx, label + "/while one is stopped")
                ctx.count("connections_while_stopped", len(more))
                case("stop")
            finally:
                os.kill(victim, signal.SIGCONT)
            conns += more
            wrong = usable(conns, site, rng)
            if wrong:
                alive_or_report(ctx, server, label, "stop")
                ctx.violation("stopped:others", "%s: after a worker was stopped for a while: %s" % (label, wrong))
                raise Skip()

        if rng.random() < 0.7 or event == "leave":
            for conn in conns:
                conn.close()
            conns = []
            grown = settle(lambda: {pid: (base[pid], len(descriptors(pid))) for pid in base if pid not in lost and len(descriptors(pid)) > base[pid]})
            if grown:
                ctx.violation("descriptors", "%s: descriptors that were not given back: %r" % (label, grown))
                raise Skip()
            case("given back")
            before = {pid: ticks(pid) for pid in members(server)}
            time.sleep(0.5)
            busy = {pid: ticks(pid) - before[pid] for pid in before if pid in members(server)}
            hz = os.sysconf("SC_CLK_TCK")
            if any(used > 0.25 * hz for used in busy.values()):
                # again, with time, in case it was something passing
                time.sleep(1)
                before = {pid: ticks(pid) for pid in members(server)}
                time.sleep(2)
                busy = {pid: ticks(pid) - before[pid] for pid in before if pid in members(server)}
                if any(used > 0.5 * hz for used in busy.values()):
                    ctx.violation("busy", "%s: idle processes use the processor: %r ticks in 2 s" % (label, busy))
                    raise Skip()
            ctx.count("idle_processes_observed", len(busy))
            case("idle")

        # the end
        number = rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT])
        group = rng.random() < 0.4
        early = not server.alive()
        server.judged = True
        if group and not early:
            os.killpg(server.proc.pid, number)
        rc, text = server.stop(number) if not group else wait(server)
        judge_stopped(ctx, label + "/end", early, rc, text, server.stdio_text())
        remaining = settle(lambda: members(server))
        if remaining:
            ctx.violation("remaining", "%s: processes remain after the end (signal %d%s): %r" % (label, number, " to the group" if group else "", remaining))
            raise Skip()
        try:
            socket.create_connection(("127.0.0.1", server.port), 5).close()
            ctx.violation("listening", "%s: the address still accepts connections after the end" % label)
        except OSError:
            pass
        case("end", int(number), group, bool(conns), event)
        for conn in conns:
            conn.close()
        ctx.count("ends_observed")
        ctx.sample({"workers": workers, "backend": backend, "tls": secure, "event": event, "signal": int(number), "group": group,
                    "processes_answering": len(set().union(*held))})


def wait(server):
    import subprocess
    try:
        server.proc.wait(60)
    except subprocess.TimeoutExpired:
        server.kill()
        return "timeout", server.log_text()
    return server.proc.returncode, server.log_text()


def run(ctx):
    ctx.lock = threading.Lock()
    for index in range(ctx.n(14, 256)):
        try:
            one_round(ctx, ctx.rng, index)
        except Skip:
            pass
        if ctx.late():
            break
