"""P01: hostile bytes never corrupt, crash, leak from or wedge the server."""
import random
import socket
import threading
import time

import hostile
from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, fetch, serving
from p16 import GIF
from website import Location, Site, content

LEVEL = "exploration"
RULE = ("a case is one hostile connection: its bytes, their segmentation and the way it ended, against one configuration; judged by the sanitizers, by the life of "
        "the server, and by the exact answers to the probes that follow every batch; distinct by the bytes sent and the configuration")
ASSUMPTIONS = ["a server that does not answer a probe within 60 s is stuck (bounded progress)", "memory errors are those the sanitizers detect"]

LUA = b"""
function handle()
    write_connection(connection, "HTTP/1.1 200 OK\\r\\nContent-Length: 5\\r\\nConnection: close\\r\\n\\r\\nhello", 73)
end
"""


def make_site(rng, template, handlers):
    files = {"small.txt": b"small contents", "index.html": b"<p>index</p>", "big.bin": content(rng, 300000), "empty.txt": b"", "noext": b"x",
             "dir/a.txt": b"a", "dir/sub/b.txt": b"b", "secret/a.txt": b"secret", "dir/index2.html": b"two"}
    return files


def ini(template, modules, rng, handler=None):
    out = ["[general]", "use_template = %s" % ("On" if template else "Off"), "index = index.html index2.html"]
    if handler:
        out.append("handler = %s" % handler)
    out.append("")
    out += ["[location:hello]", "path = ^/hello", "handler = default", ""]
    out += ["[location:secret]", "path = ^/secret", "handler = file", "auth_basic = Realm", "auth_file = passwd", ""]
    if rng.random() < 0.5:
        out += ["[location:tree]", "path = ^/dir", "handler = file", "base_path = www/dir", ""]
    for name in modules:
        out += ["[location:%s]" % name, "path = ^/%s" % name, "handler = %s" % name, ""]
    if "lua" in modules:
        out += ["[mod_lua]", "script_path = handler.lua", ""]
    return "\n".join(out) + "\n"


def attack(rng, port, data, held):
    """Sends the bytes in some way and ends the connection in some way."""
    cuts = []
    if data and rng.random() < 0.5:
        cuts = sorted({rng.randrange(len(data)) for _ in range(rng.choice([1, 2, 5, 20]))})
    end = rng.choice(["read", "read", "read", "close", "reset", "shutdown", "hold", "drain"])
    try:
        conn = Conn(port, timeout=5, rcvbuf=rng.choice([None, None, 4096]))
    except OSError:
        return "refused"
    try:
        conn.send_pieces(data, cuts, pause=rng.choice([0, 0, 0.0005]))
        if rng.random() < 0.05:
            # out of band, alone or with what ends the connection
            for _ in range(rng.choice([1, 1, 3])):
                conn.sock.send(rng.choice([b"x", b"GET / HTTP/1.1\r\n\r\n"]), socket.MSG_OOB)
        if end == "read":
            conn.sock.settimeout(rng.choice([0.005, 0.02, 0.05]))
            conn.sock.recv(65536)
        elif end == "drain":
            conn.sock.settimeout(0.05)
            while conn.sock.recv(65536):
                pass
        elif end == "reset":
            conn.reset()
        elif end == "shutdown":
            conn.sock.shutdown(socket.SHUT_WR)
            conn.sock.settimeout(0.05)
            conn.sock.recv(65536)
        elif end == "hold":
            held.append(conn)
            if len(held) > 12:
                held.pop(0).close()
            return end
    except (Closed, Late, Malformed, OSError):
        pass
    conn.close()
    return end


PROBES = [(b"/small.txt", 200, b"small contents"), (b"/hello", 200, b"Hello Viriatum"), (b"/missing", 404, None), (b"/index.html", 200, b"<p>index</p>"), (b"/empty.txt", 200, b"")]


def probes(handler):
    """What a probe has to obtain when the service has the given handler."""
    if handler == "file":
        return [p for p in PROBES if p[0] != b"/hello"] + [(b"/hello", 404, None)]
    if handler == "default":
        return [(p[0], 200, b"Hello Viriatum") for p in PROBES]
    if handler == "gif":
        return [(p[0], 200, GIF) for p in PROBES]
    if handler == "diag":
        return [(p[0], 200, None) for p in PROBES]
    if handler == "lua":
        return [(p[0], None, None) for p in PROBES]
    return PROBES


def probe(ctx, rng, server, label, batch, handler):
    target, status, body = rng.choice(probes(handler))
    answer = fetch(server, request(b"GET", target, keep=rng.random() < 0.5), timeout=60)
    if isinstance(answer, Exception):
        alive_or_report(ctx, server, label, batch)
        ctx.violation("wedged:%s:%s" % (label.split("/")[0], type(answer).__name__), "%s: no answer to a probe of %r after hostile connections: %s" % (label, target, answer), batch=batch)
        raise Skip()
    ctx.count("probes")
    if (status is not None and answer.status != status) or (body is not None and answer.body != body):
        ctx.violation("disturbed:%s" % label.split("/")[0], "%s: the probe of %r answered %d %r after hostile connections, expected %d %r" % (
            label, target, answer.status, answer.body[:80], status, body), batch=batch)


def campaign(ctx, seed, backend, template, modules, connections, result):
    rng = random.Random(seed)
    label = "%s/%s/%s" % (backend, "template" if template else "text", "+".join(modules) or "core")
    out = build(backend, ("server", "modules") if modules else ("server",))
    # the handler of the service itself, most often the one that dispatches
    handler = rng.choice(["file", "default"] + list(modules)) if rng.random() < 0.35 else None
    if handler:
        label += "/" + handler
    try:
        with serving(ctx, out, ini(template, modules, rng, handler), label, files=make_site(rng, template, modules), modules=modules,
                     etc={"passwd": b"root:root\nuser:pass\n", "handler.lua": LUA}) as server:
            held = []
            done = 0
            while done < connections and not ctx.late():
                size = rng.choice([5, 20, 40])
                batch = [hostile.stream(rng) for _ in range(size)]
                for data in batch:
                    end = attack(rng, server.port, data, held)
                    ctx.case((data, label))
                    ctx.count("end_" + end)
                    ctx.count("bytes_sent", len(data))
                    if not server.alive():
                        break
                done += size
                probe(ctx, rng, server, label, batch, handler)
                ctx.sample({"configuration": label, "stream": batch[0][:300]})
            for conn in held:
                conn.close()
    except Skip:
        pass
    except Exception as error:  # noqa: reported by the main thread
        result.append(error)


def run(ctx):
    combos = [("asan", False, ()), ("asan", True, ()), ("select", False, ()), ("asan", False, ("diag", "gif", "lua")), ("select", True, ("gif", "lua")),
              ("asan", False, ()), ("asan", True, ("lua",)), ("select", True, ())]
    build("asan", ("server", "modules"))
    build("select", ("server", "modules"))
    for _round in range(ctx.n(1, 6)):
        threads, result = [], []
        for combo in combos:
            t = threading.Thread(target=campaign, args=(ctx, ctx.rng.random(), combo[0], combo[1], combo[2], ctx.n(7000, 20000), result))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        for error in result:
            raise error
        if ctx.late():
            break
