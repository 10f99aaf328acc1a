"""Shared steps of the server checks: run a workload against a fresh server
and turn deaths, sanitizer reports and missing answers into violations."""
import contextlib
import os
import random
import socket
import struct
import time

from build import faults
from client import Closed, Conn, Late, Malformed, request
from server import Server, ServerDied, Unresponsive, summarize


@contextlib.contextmanager
def serving(ctx, build_dir, ini, label, silent=None, shake=True, **kw):
    """A running server whose end of life is judged too. One that runs and
    never accepts connections at its address is inconclusive, unless silent
    names the violation that it is. Some of the servers get another schedule
    of the same events from the kernel: fewer at once, later, and divided in
    other ways."""
    if shake and not kw.get("env") and ctx.rng.random() < 0.5:
        kw["env"], kw["mutate"] = shaken(ctx.rng.getrandbits(31), build_dir, b"ssl" in str((ini, kw.get("args"), kw.get("command"))).encode(), kw.get("mutate"))
    else:
        shake = False
    server = Server(build_dir, ini, **kw)
    try:
        try:
            server.start()
        except ServerDied as error:
            ctx.violation("start:%s:%s" % (label, summarize(str(error))), "the server did not start: %s" % str(error)[:3000], ini=ini)
            raise Skip()
        except Unresponsive as error:
            if silent and server.alive():
                ctx.violation(silent, "%s: %s" % (label, error), line=server.line, ini=server.written)
            else:
                ctx.unsure("start %s: %s" % (label, error))
            raise Skip()
        yield server
        if not server.judged:
            judge_end(ctx, server, label)
    finally:
        if shake:
            with open(os.path.join(server.dir, "faults"), "rb") as handle:
                counts = struct.unpack("16I", handle.read(136)[72:])
            for name, index in SHAKES.items():
                if counts[index]:
                    ctx.count("shaken_" + name, counts[index])
        server.cleanup()


SHAKES = {"recv-short": 1, "send-short": 3, "wait-few": 10, "wait-late": 11}


def shaken(seed, build_dir, secure, mutate):
    """The environment, and what to do with the files, of a server whose
    system calls come out otherwise, as they may."""
    rng = random.Random(seed)
    usable = ["wait-few", "wait-late"]
    select = os.path.basename(build_dir).startswith("select")
    if not secure:
        usable.append("recv-short")
        # with epoll a short write would have to come with the buffer full
        if select:
            usable.append("send-short")
    if select:
        usable.remove("wait-few")
    rates = [0] * 16
    for name in rng.sample(usable, rng.randrange(1, len(usable) + 1)):
        rates[SHAKES[name]] = rng.choice([200, 500, 1000]) if name == "wait-late" else rng.choice([300, 2000, 5000])

    def prepare(server):
        with open(os.path.join(server.dir, "faults"), "wb") as handle:
            handle.write((struct.pack("18I", 2, seed, *rates)).ljust(4096, b"\0"))
        if mutate:
            mutate(server)
    return {"LD_PRELOAD": faults(), "VERIF_FAULTS": "faults"}, prepare


class Skip(Exception):
    """This workload was abandoned (already reported)."""


def judge_end(ctx, server, label):
    early = not server.alive()
    judge_stopped(ctx, label, early, *server.stop(), server.stdio_text())


def judge_stopped(ctx, label, early, rc, text, stdio):
    ctx.count("server_runs")
    if "LeakSanitizer has encountered a fatal error" in text:
        ctx.unsure("leak checking is not possible here")
        return
    if text.strip() and ("Sanitizer" in text or "runtime error" in text):
        ctx.violation("report:" + summarize(text), "%s: sanitizer report: %s" % (label, text[:1800]), report=text[:8000])
    elif early:
        ctx.violation("died:%s:%s" % (label, rc), "%s: the server ended by itself, exit %s: %s" % (label, rc, stdio[-600:]))
    elif rc == "timeout":
        ctx.violation("stuck-at-exit:" + label, "%s: the server did not end within 60 s of SIGTERM" % label)
    elif rc not in (0, -15):
        ctx.violation("exit:%s:%s" % (label, rc), "%s: exit code %s on SIGTERM: %s" % (label, rc, stdio[-600:]))


def alive_or_report(ctx, server, label, context):
    """After a failed exchange: was it the server that died?"""
    for _ in range(100):
        if not server.alive():
            break
        # a process that ends closes its listening socket first: one that
        # still accepts connections is alive
        try:
            socket.create_connection((server.probe, server.port), timeout=5).close()
            time.sleep(0.002)
            if server.alive():
                return
        except OSError:
            time.sleep(0.01)
    if not server.alive():
        rc, text = server.stop()
        ctx.violation("report:" + summarize(text) if text.strip() else "died:%s:%s" % (label, rc),
                      "%s: the server died (exit %s) on %s: %s" % (label, rc, str(context)[:300], text[:1500]), context=context, report=text[:8000])
        raise Skip()


def fetch(server, data, head=False, timeout=30.0, tls=None):
    """One exchange on its own connection; the response or the exception."""
    try:
        with Conn(server.port, timeout=timeout, tls=tls) as conn:
            conn.send(data)
            return conn.read_response(head=head)
    except (Closed, Late, Malformed) as error:
        return error
    except OSError as error:
        return Closed(str(error))


def compare(expected, response, head=False):
    """Differences between the reference behaviour and a response."""
    out = []
    if response.status != expected["status"]:
        return ["status %d, expected %d (%s)" % (response.status, expected["status"], expected["kind"])]
    length = response.get("content-length")
    if length is None and response.get("transfer-encoding") is None:
        out.append("no length")
    if expected["body"] is not None:
        if length is not None and int(length) != len(expected["body"]):
            out.append("content length %s, expected %d" % (length, len(expected["body"])))
        if head:
            if response.body:
                out.append("a body in the response to HEAD")
        elif response.body != expected["body"]:
            out.append("body differs: %d bytes, expected %d, first difference at %d" % (
                len(response.body), len(expected["body"]),
                next((i for i, (a, b) in enumerate(zip(response.body, expected["body"])) if a != b), min(len(response.body), len(expected["body"])))))
    if expected["kind"] == "file":
        ctype = response.get("content-type")
        if expected.get("ctype") != ctype:
            out.append("content type %r, expected %r" % (ctype, expected.get("ctype")))
        if not response.get("etag"):
            out.append("no etag")
        if response.get("accept-ranges") != "bytes":
            out.append("no accept-ranges")
    if expected["kind"] == "redirect":
        if (response.get("location") or "").encode("latin-1") != expected["location"]:
            out.append("location %r, expected %r" % (response.get("location"), expected["location"]))
    if expected["kind"] == "unauthorized":
        if response.get("www-authenticate") != 'Basic realm="%s"' % expected["realm"]:
            out.append("challenge %r" % response.get("www-authenticate"))
    return out
