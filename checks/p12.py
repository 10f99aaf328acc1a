"""P12: finished connections give everything back, and the server ends."""
import os
import random
import signal
import socket
import threading
import time

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, serving
from p03 import make_site
from server import Server, ServerDied, Unresponsive, summarize
from website import content

LEVEL = "exploration"
RULE = ("a case is one connection of a history (how it was used and how it ended), judged by the resources of the server once all are gone, "
        "or one termination with connections open in given states; distinct by (kinds of ends in the history, back end, signal)")
ASSUMPTIONS = ["resources are given back within 10 seconds (bounded progress)", "idle means at most 10% of one processor over half a second"]

GET = b"GET %s HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n\r\n"
KINDS = ["complete", "keep-close", "keep-many", "connect-only", "half-line", "half-head", "half-body", "garbage", "rst-idle", "rst-head",
         "rst-transfer", "close-transfer", "shutdown", "shutdown-request", "pipeline-abandon", "slow", "never-read", "big-head", "many-then-rst", "listing-abort",
         "server-close-unread", "half-chunk"]


def one(rng, port, kind):
    """Runs one connection to its end; leaves nothing open."""
    try:
        conn = Conn(port, timeout=30, rcvbuf=4096 if kind in ("rst-transfer", "close-transfer", "slow", "never-read") else None)
    except OSError:
        return
    big = GET % b"/big.bin"
    try:
        if kind == "complete":
            conn.send(request(b"GET", rng.choice([b"/small.txt", b"/mid.bin", b"/missing", b"/hello", b"/dir", b"/dir/"]), keep=False))
            conn.read_eof(30)
        elif kind == "keep-close":
            conn.send(GET % b"/small.txt")
            conn.read_response()
        elif kind == "keep-many":
            for _ in range(rng.randrange(2, 12)):
                conn.send(GET % rng.choice([b"/small.txt", b"/page.html", b"/hello", b"/missing"]))
                conn.read_response()
        elif kind == "half-line":
            conn.send((GET % b"/small.txt")[:rng.randrange(1, 15)])
        elif kind == "half-head":
            conn.send((GET % b"/small.txt")[:rng.randrange(16, 60)])
        elif kind == "half-body":
            conn.send(b"POST /hello HTTP/1.1\r\nContent-Length: 1000\r\n\r\n" + b"x" * rng.randrange(0, 999))
        elif kind == "half-chunk":
            conn.send(b"POST /hello HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nff\r\n" + b"x" * rng.randrange(0, 254))
        elif kind == "garbage":
            conn.send(rng.choice([b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", b"GARBAGE\r\n\r\n", b"GET\r\n\r\n", b"\0" * 50, b"GET / HTTP/9.x\r\n\r\n"]))
            if rng.random() < 0.7:
                conn.read_eof(30)
        elif kind == "rst-idle":
            conn.reset()
        elif kind == "rst-head":
            conn.send((GET % b"/small.txt")[:rng.randrange(1, 60)])
            conn.reset()
        elif kind in ("rst-transfer", "close-transfer"):
            conn.send(big)
            if rng.random() < 0.7:
                conn.sock.recv(rng.randrange(1, 5000))
            if kind == "rst-transfer":
                conn.reset()
        elif kind == "shutdown":
            conn.sock.shutdown(socket.SHUT_WR)
            conn.read_eof(30)
        elif kind == "shutdown-request":
            conn.send(request(b"GET", b"/page.html", keep=False))
            conn.sock.shutdown(socket.SHUT_WR)
            conn.read_eof(30)
        elif kind == "pipeline-abandon":
            conn.send((GET % b"/page.html") * rng.randrange(2, 30))
            if rng.random() < 0.5:
                conn.read_response()
        elif kind == "slow":
            conn.send(request(b"GET", b"/mid.bin", keep=False))
            for _ in range(3):
                conn.sock.recv(100)
                time.sleep(0.005)
        elif kind == "never-read":
            conn.send(big * rng.randrange(1, 4))
            time.sleep(rng.choice([0, 0.01]))
        elif kind == "big-head":
            conn.send(b"GET / HTTP/1.1\r\n" + b"X-Long: " + b"a" * rng.choice([1000, 20000, 90000]) + b"\r\n")
        elif kind == "many-then-rst":
            for _ in range(rng.randrange(1, 6)):
                conn.send(GET % b"/mid.bin")
                conn.read_response()
            conn.send(big)
            conn.reset()
        elif kind == "listing-abort":
            conn.send(GET % b"/dir/")
            if rng.random() < 0.5:
                conn.reset()
        elif kind == "server-close-unread":
            conn.send(request(b"GET", b"/page.html", keep=False))
            time.sleep(0.002)
            if rng.random() < 0.5:
                conn.reset()
    except (Closed, Late, Malformed, OSError):
        pass
    finally:
        conn.close()


def warm(server):
    with Conn(server.port, timeout=30) as conn:
        conn.send(request(b"GET", b"/small.txt", keep=False))
        conn.read_eof(30)


def settle(server, base, limit=10.0):
    """The descriptors once they are back to the base, or what is left."""
    end = time.time() + limit
    while time.time() < end:
        fds = server.fds()
        if fds is None or len(fds) <= base:
            return None
        time.sleep(0.01)
    return fds


def history(ctx, rng, server, label, size):
    warm(server)
    time.sleep(0.02)
    for _ in range(50):
        base = server.fds()
        if base is not None and not [f for f in base if "socket" in f][1:]:
            break
        time.sleep(0.02)
    count = len(base)
    kinds = rng.sample(KINDS, rng.randrange(2, 10)) if rng.random() < 0.7 else KINDS
    plan = [rng.choice(kinds) for _ in range(size)]
    seeds = [rng.random() for _ in plan]

    def worker(part):
        for kind, seed in part:
            one(random.Random(seed), server.port, kind)
    work = list(zip(plan, seeds))
    threads = [threading.Thread(target=worker, args=(work[i::8],)) for i in range(8)]
    for t in threads:
        t.start()
    peak = 0
    for t in threads:
        while t.is_alive():
            fds = server.fds()
            peak = max(peak, len(fds or []))
            t.join(0.02)
    ctx.top("peak_descriptors", peak)
    left = settle(server, count)
    context = {"kinds": sorted(set(plan)), "connections": len(plan)}
    alive_or_report(ctx, server, label, context)
    for kind in plan:
        ctx.case((kind, tuple(sorted(set(plan))), label))
        ctx.count("end_" + kind)
    if left is not None:
        culprit = sorted(set(plan))
        ctx.violation("descriptors:%s" % ("sockets" if any("socket" in f for f in left[-3:]) else "files"),
                      "%d descriptors stay open after %d connections (%d before): %s" % (len(left), len(plan), count, left[-6:]), left=left, **context)
    # idle: no processor time
    busy = []
    for _ in range(3):
        a = server.cpu_ticks()
        time.sleep(0.5)
        busy.append(server.cpu_ticks() - a)
        if busy[-1] <= 5:
            break
    else:
        ctx.violation("busy-idle", "the idle server uses the processor: %s ticks per half second" % busy, **context)
    try:
        warm(server)
    except (Closed, Late, OSError) as error:
        alive_or_report(ctx, server, label, context)
        ctx.violation("no-service", "no answer after the history: %s" % error, **context)
    ctx.sample({"kinds": context["kinds"], "connections": len(plan), "base": count, "peak": peak})


def open_states(rng, port, count):
    """Connections left in the middle of something."""
    conns = []
    states = []
    for _ in range(count):
        state = rng.choice(["idle", "half", "body", "transfer", "kept", "pipelined", "closed", "queued"])
        states.append(state)
        try:
            conn = Conn(port, timeout=30, rcvbuf=4096)
            if state == "half":
                conn.send(b"GET /small.t")
            elif state == "body":
                conn.send(b"POST /hello HTTP/1.1\r\nContent-Length: 100000\r\n\r\n" + b"x" * 5000)
            elif state == "transfer":
                conn.send(GET % b"/big.bin")
                conn.sock.recv(10)
            elif state == "queued":
                conn.send((GET % b"/big.bin") * 3)
            elif state == "kept":
                conn.send(GET % b"/small.txt")
                conn.read_response()
            elif state == "pipelined":
                conn.send((GET % b"/page.html") * 20)
            elif state == "closed":
                conn.close()
            conns.append(conn)
        except (Closed, Late, Malformed, OSError):
            pass
    return conns, states


def run(ctx):
    rng = ctx.rng
    site_rng = random.Random(5)
    site = make_site(site_rng)
    for index in range(ctx.n(26, 260)):
        backend = "select" if index % 3 == 2 else "asan"
        out = build(backend)
        try:
            with serving(ctx, out, site.ini(), backend, files=site.files) as server:
                for _ in range(ctx.n(2, 4)):
                    history(ctx, rng, server, backend, rng.choice([30, 80, 200]))
                # it ends with these connections open
                conns, states = open_states(rng, server.port, rng.randrange(0, 14))
                if rng.random() < 0.5:
                    time.sleep(rng.choice([0, 0.001, 0.01, 0.05]))
                which = rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT])
                started = time.time()
                server.proc.send_signal(which)
                # others that arrive while it is ending (one of each kind at
                # most: a repeated one ends it at once, as asked for)
                others = [n for n in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT) if n != which]
                rng.shuffle(others)
                more = others[:rng.choice([0, 0, 1, 2, 3])]
                for number in more:
                    time.sleep(rng.choice([0, 0.001, 0.003, 0.01, 0.02, 0.04]))
                    if server.proc.poll() is None:
                        server.proc.send_signal(number)
                        ctx.count("signals_while_ending")
                try:
                    server.proc.wait(15)
                    took = time.time() - started
                    ctx.top("slowest_end_ms", int(took * 1000))
                except Exception:
                    ctx.violation("does-not-end:%s" % backend, "no end 15 s after %s with connections %s" % (which, sorted(states)), states=states)
                ctx.case(("end", tuple(sorted(set(states))), which, len(more), backend))
                ctx.count("terminations")
                rc = server.proc.poll()
                server.ended = rc
                for conn in conns:
                    conn.close()
                report(ctx, server, backend, rc, states)
                raise Skip()
        except Skip:
            pass
        if ctx.late():
            break
    for backend in ("plain",):
        growth(ctx, rng, build(backend), site, backend)


def report(ctx, server, label, rc, states):
    text = server.log_text()
    ctx.count("server_runs")
    if "LeakSanitizer has encountered a fatal error" in text:
        ctx.unsure("leak checking is not possible here")
    elif text.strip():
        ctx.violation("report:" + summarize(text), "sanitizer report at the end with connections %s: %s" % (sorted(states), text[:1500]), report=text[:8000], states=states)
    elif rc not in (0,):
        if rc is not None:
            ctx.violation("exit:%s" % rc, "exit code %s with connections %s" % (rc, sorted(states)), states=states)


def growth(ctx, rng, out, site, label):
    """The same history over and over: the memory of the (not instrumented)
    server must not keep growing."""
    for part in range(ctx.n(2, 6)):
        kinds = KINDS if part == 0 else rng.sample(KINDS, 5)
        with Server(out, site.ini(), files=site.files) as server:
            sizes = []
            seed = rng.random()
            for repeat in range(ctx.n(6, 10)):
                local = random.Random(seed)
                plan = [(local.choice(kinds), local.random()) for _ in range(ctx.n(700, 1500))]

                def worker(items):
                    for kind, s in items:
                        one(random.Random(s), server.port, kind)
                threads = [threading.Thread(target=worker, args=(plan[i::8],)) for i in range(8)]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
                warm(server)
                sizes.append(server.rss_kb())
                ctx.case(("growth", tuple(sorted(kinds)), repeat))
                ctx.count("growth_connections", len(plan))
            ctx.sample({"resident_kb": sizes, "kinds": sorted(kinds)}, limit=20)
            half = len(sizes) // 2
            steps = [b - a for a, b in zip(sizes[half - 1:], sizes[half:])]
            # a leak grows in every repetition; caches and fragmentation settle
            if all(s > 40 for s in steps):
                ctx.violation("memory-grows", "resident memory keeps growing with the same history: %s kB" % sizes, sizes=sizes, kinds=sorted(kinds))
