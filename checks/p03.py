"""P03: one correctly framed response per request, in order, per connection."""
import random
import re
import signal
import socket
import threading
import time

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from frame import VERIF
from website import Location, Site, content, encode_path

LEVEL = "exploration"
RULE = ("a case is one connection: a history of requests (methods, targets, body codings, keep alive choices) sent with some amount of "
        "pipelining and segmentation while other connections run; every response is parsed strictly and compared with the model; distinct by the sequence "
        "of (method, kind of answer, body coding) and the pipelining depth")
ASSUMPTIONS = ["connections are kept exactly when the request says 'Connection: keep-alive'", "requests have either a length or a chunked body"]

METHODS = [b"GET"] * 10 + [b"HEAD"] * 4 + [b"POST"] * 4 + [b"PUT", b"DELETE", b"OPTIONS", b"PATCH", b"TRACE", b"PROPFIND", b"MKCOL", b"REPORT", b"LOCK", b"UNLOCK", b"COPY", b"MOVE", b"NOTIFY"]


def make_site(rng, direct=False):
    files = {"small.txt": b"small", "empty.bin": b"", "page.html": content(rng, 3000), "mid.bin": content(rng, 70000), "dir/x.txt": b"x",
             "chunk.bin": content(rng, 262144), "big.bin": content(rng, rng.randrange(300000, 1500000)), "one": b"1", "fake.txt": b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"}
    locations = [Location("hello", "^/hello", "default"), Location("none", "^/nobody", "nothing"), Location("all", "^/", "file")]
    site = Site(files, locations)
    site.direct = direct
    return site


TARGETS = [b"/small.txt", b"/empty.bin", b"/page.html", b"/mid.bin", b"/dir", b"/dir/x.txt", b"/chunk.bin", b"/big.bin", b"/one", b"/fake.txt",
           b"/hello", b"/hello/world?x=1", b"/nobody", b"/missing", b"/dir/missing", b"/%6fne", b"/one?query", b"/..", b"/dir/"]


def one_request(rng, site, index):
    method = rng.choice(METHODS)
    target = rng.choice(TARGETS)
    if target == b"/big.bin" and rng.random() < 0.6:
        target = b"/small.txt"
    headers = []
    for _ in range(rng.choice([0, 0, 1, 2, 5, 20])):
        name = rng.choice([b"X-A", b"User-Agent", b"Accept", b"Cookie", b"Referer", b"x" * rng.randrange(1, 60), b"Content-Type", b"X-Request-Id"])
        headers.append((name, rng.choice([b"1", b"text/html, */*;q=0.1", b"v" * rng.randrange(1, 900), b"a: b", b"keep-alive", b"chunked", b"0", b"\"quoted\"", b"%d" % index])))
    body, chunked = b"", None
    if method not in (b"GET", b"HEAD", b"DELETE", b"OPTIONS", b"TRACE") or rng.random() < 0.05:
        kind = rng.randrange(7)
        data = rng.choice([b"", b"a", b"hello=world", b"GET /hello HTTP/1.1\r\nConnection: keep-alive\r\n\r\n", b"\r\n\r\n", b"0\r\n\r\n",
                           content(rng, rng.randrange(1, 4000)), content(rng, rng.choice([1023, 1024, 4096, 16384, 65536, 100000]))])
        if kind < 3:
            body = data
        elif kind < 6:
            chunked = []
            while data:
                n = rng.choice([1, 2, 15, 16, 17, 255, 256, 5000])
                chunked.append(data[:n])
                data = data[n:]
                if len(chunked) > 40:
                    chunked.append(data)
                    break
    elif rng.random() < 0.1:
        headers.append((b"Content-Length", b"0"))
    return method, target, headers, body, chunked


class History:
    def __init__(self, rng, site, length):
        self.items = []
        self.data = b""
        self.marks = []
        for i in range(length):
            method, target, headers, body, chunked = one_request(rng, site, i)
            keep = not (i == length - 1 and rng.random() < 0.7)
            version = b"1.0" if rng.random() < 0.1 else b"1.1"
            raw = request(method, target, headers=headers, body=body, keep=keep, chunked=chunked, version=version)
            if not keep and rng.random() < 0.5:
                raw = raw.replace(b"Host: localhost\r\n", b"Host: localhost\r\nConnection: close\r\n", 1)
            expected = site.expect(method, target)
            self.items.append((method, target, expected, keep, "chunked" if chunked is not None else "length" if body else "none"))
            self.data += raw
            self.marks.append(len(self.data))
        self.closing = not self.items[-1][3]

    def shape(self):
        return [(m, e["kind"], b) for m, _t, e, _k, b in self.items]


def cuts_for(rng, history):
    size = len(history.data)
    kind = rng.randrange(5)
    if kind == 0:
        return []
    if kind == 1:
        return history.marks[:-1]
    if kind == 2:
        return sorted(rng.randrange(1, size) for _ in range(min(size - 1, rng.randrange(1, 12)))) if size > 1 else []
    if kind == 3:
        return sorted({min(size - 1, max(1, m + rng.randrange(-5, 6))) for m in history.marks})
    step = rng.choice([1, 2, 3, 7, 100, 1000])
    return list(range(step, min(size, step * 150), step))


def play(ctx, server, site, label, seed, count, errors):
    rng = random.Random(seed)
    for _ in range(count):
        # a broken server is judged by its first failures
        if len(errors) >= 6:
            break
        length = rng.choice([1, 1, 2, 2, 3, 3, 5, 8, 13, 30])
        history = History(rng, site, length)
        run_history(ctx, rng, server, history, label, errors, rng.randrange(3))


def run_history(ctx, rng, server, history, label, errors, mode):
    """mode 0: everything is sent, then read; 1: sent by another thread with
    pauses while reading; 2: one request after the response of the former."""
    reader = rng.choice(["fast", "fast", "fast", "slow"])
    cuts = cuts_for(rng, history)
    position = 0
    conn = None
    try:
        conn = Conn(server.port, timeout=60, rcvbuf=4096 if reader == "slow" else None)
        sender = None
        if mode == 0 and len(history.data) < 60000 and sum(len(i[2]["body"] or b"") for i in history.items) < 2000000:
            conn.send_pieces(history.data, cuts, 0)
        elif mode != 2:
            def feed():
                try:
                    conn.send_pieces(history.data, cuts, rng.choice([0, 0, 0.0005, 0.002]))
                except (Closed, Late, OSError):
                    pass
            sender = threading.Thread(target=feed)
            sender.start()
        for position, (method, target, expected, keep, coding) in enumerate(history.items):
            if mode == 2:
                start = history.marks[position - 1] if position else 0
                inner = [c - start for c in cuts if start < c < history.marks[position]]
                conn.send_pieces(history.data[start:history.marks[position]], inner, 0)
            response = conn.read_response(head=method == b"HEAD")
            diff = compare(expected, response, method == b"HEAD")
            if response.keep_alive != keep:
                diff.append("connection %r, asked for keep=%s" % (response.get("connection"), keep))
            if response.get("content-length") is None:
                diff.append("no content length")
            if diff:
                errors.append((history, position, mode, "wrong", "; ".join(diff)))
                break
            with ctx.lock:
                ctx.count("responses")
                ctx.count("kind_" + expected["kind"])
        else:
            position = len(history.items)
            if history.closing:
                rest = conn.read_eof(60)
                if rest:
                    errors.append((history, position - 1, mode, "extra", "%d bytes after the last response: %r" % (len(rest), rest[:80])))
            elif rng.random() < 0.3:
                # kept: nothing may arrive, and the connection still works
                extra = conn.extra(0.01)
                if extra:
                    errors.append((history, position - 1, mode, "extra", "%d bytes without a request: %r" % (len(extra), extra[:80])))
                else:
                    conn.send(request(b"GET", b"/one", keep=False))
                    last = conn.read_response()
                    if last.body != b"1":
                        errors.append((history, position - 1, mode, "wrong", "final probe %r" % last.body[:50]))
        if sender:
            sender.join()
    except (Closed, Late, Malformed, OSError) as error:
        errors.append((history, position, mode, type(error).__name__, str(error)))
    finally:
        if conn:
            conn.close()
    with ctx.lock:
        ctx.case((tuple(history.shape()), mode, bool(cuts)))
        ctx.count("mode_%d" % mode)
        ctx.top("longest_pipeline", len(history.items) if mode != 2 else 1)
        ctx.sample({"requests": [(m, t, b) for m, t, _e, _k, b in history.items][:6], "mode": mode, "segments": len(cuts) + 1})


def large(rng, site):
    """Requests with more bytes than are read in one turn."""
    history = History(rng, site, rng.choice([1, 2, 4]))
    place = rng.randrange(len(history.items))
    data = rng.choice([b"x", b"GET /one HTTP/1.1\r\n\r\n", b"\r\n\r\n0\r\n"]) * rng.choice([1000, 30000, 60000])
    data = (data * (rng.choice([1000000, 1060000, 2200000, 2300000, 4000000]) // len(data) + 1))[:4000000]
    chunked = None
    if rng.random() < 0.3:
        size = rng.choice([5000, 65536, 400000])
        chunked = [data[i:i + size] for i in range(0, len(data), size)]
    method = rng.choice([b"POST", b"PUT", b"GET"])
    raw = request(method, b"/one", body=b"" if chunked else data, chunked=chunked, keep=True)
    start = history.marks[place - 1] if place else 0
    history.items.insert(place, (method, b"/one", site.expect(method, b"/one"), True, "chunked" if chunked else "length"))
    history.data = history.data[:start] + raw + history.data[start:]
    history.marks = history.marks[:place] + [start + len(raw)] + [m + len(raw) for m in history.marks[place:]]
    return history


def at_rest(server, sends):
    """Sends as much as is taken while the server rests, returns what is not."""
    rests = []
    server.proc.send_signal(signal.SIGSTOP)
    try:
        for conn, data in sends:
            sent, still = 0, 0
            conn.sock.setblocking(False)
            while sent < len(data) and still < 6:
                try:
                    sent += conn.sock.send(data[sent:sent + (1 << 20)])
                    still = 0
                except BlockingIOError:
                    still += 1
                    time.sleep(0.005)
            conn.sock.settimeout(conn.timeout)
            rests.append(data[sent:])
    finally:
        server.proc.send_signal(signal.SIGCONT)
    return rests


def pending(ctx, rng, server, site, label, errors):
    """Much is waiting to be read at once: it is sent while the server rests."""
    conns = []
    try:
        for _ in range(rng.choice([1, 1, 2, 5])):
            conn = Conn(server.port, timeout=60, sndbuf=1 << 22)
            conns.append((conn, large(rng, site)))
            # the buffer of a connection grows with what was read from it at once
            for size in rng.choice([[], [1000, 100000, 1500000], [1000, 100000, 1500000]]) + [0]:
                data = request(b"GET", b"/one", body=b"x" * size) + request(b"GET", b"/one")
                rest = at_rest(server, [(conn, data)])
                conn.send(rest[0])
                conn.read_response()
                conn.read_response()
    except (Closed, Late, Malformed, OSError) as error:
        for conn, history in conns:
            conn.close()
        errors.append((conns[-1][1], 0, 3, type(error).__name__, "warming: %s" % error))
        return
    rests = at_rest(server, [(conn, history.data) for conn, history in conns])
    most = max(len(history.data) - len(rest) for (_c, history), rest in zip(conns, rests))
    ctx.top("most_bytes_pending", most)
    for (conn, history), rest in zip(conns, rests):
        sender = threading.Thread(target=feed, args=(conn, rest))
        sender.start()
        position = 0
        try:
            for position, (method, target, expected, keep, coding) in enumerate(history.items):
                response = conn.read_response(head=method == b"HEAD")
                diff = compare(expected, response, method == b"HEAD")
                if response.keep_alive != keep:
                    diff.append("connection %r, asked for keep=%s" % (response.get("connection"), keep))
                if diff:
                    errors.append((history, position, 0, "wrong", "; ".join(diff)))
                    break
                ctx.count("responses_to_pending")
            else:
                if history.closing:
                    rest = conn.read_eof(60)
                    if rest:
                        errors.append((history, position, 0, "extra", "%d bytes after the last response: %r" % (len(rest), rest[:80])))
        except (Closed, Late, Malformed, OSError) as error:
            errors.append((history, position, 3, type(error).__name__, str(error)))
        try:
            conn.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        sender.join()
        conn.close()
        ctx.case((tuple(history.shape()), "pending", len(conns)))


def feed(conn, data):
    try:
        conn.send(data)
    except (Closed, Late, OSError):
        pass


def run(ctx):
    rng = ctx.rng
    ctx.lock = threading.Lock()
    templ = open(VERIF + "/data/error.html.tpl", "rb").read()
    for index in range(ctx.n(48, 420)):
        backend = "select" if index % 3 == 2 else "asan"
        out = build(backend)
        site = make_site(rng, rng.random() < 0.2)
        template = index % 5 == 4
        files = dict(site.files)
        if template:
            files["templates/error.html.tpl"] = templ
        try:
            with serving(ctx, out, site.ini({"use_template": "On"} if template else None), backend, files=files) as server:
                errors = []
                threads = []
                for i in range(6):
                    t = threading.Thread(target=play, args=(ctx, server, site, backend, "%s/%d/%d" % (ctx.seed, index, i), ctx.n(22, 40), errors))
                    t.start()
                    threads.append(t)
                for t in threads:
                    t.join()
                if not errors:
                    for _ in range(2):
                        pending(ctx, random.Random("%s/%d/pending/%d" % (ctx.seed, index, _)), server, site, backend, errors)
                judge(ctx, rng, server, site, backend, errors)
        except Skip:
            pass
        if ctx.late():
            break


def judge(ctx, rng, server, site, label, errors):
    lates = 0
    for history, position, mode, kind, text in sorted(errors[:20], key=lambda e: e[3] == "Late"):
        position = min(position, len(history.items) - 1)
        method, target, expected, keep, coding = history.items[position]
        context = {"requests": [(m, t, b) for m, t, _e, _k, b in history.items], "position": position, "mode": mode, "data": history.data}
        alive_or_report(ctx, server, label, context)
        if kind == "Late":
            # repeated alone, with time: only a repetition is a verdict
            if lates >= 2 or ctx.found_long_ago():
                continue
            again = []
            if mode == 3:
                for turn in range(6):
                    if len(again) < 2:
                        pending(ctx, random.Random("%s/again/%d" % (ctx.seed, turn)), server, site, label, again)
            else:
                run_history(ctx, random.Random(1), server, history, label, again, 2)
                run_history(ctx, random.Random(2), server, history, label, again, mode)
            if not again:
                ctx.stuck("%s at %d, not repeated" % (text, position), **context)
                continue
            lates += 1
        previous = history.items[position - 1][4] if position else "first"
        ctx.violation("%s:%s:%s:%s:%s" % (kind, expected["kind"], "head" if method == b"HEAD" else "other", previous, re.sub(r"b?'.*?'|\d+", "N", text)[:40]),
                      "request %d of %d (%s %r, %s body) mode %d: %s" % (position + 1, len(history.items), method, target, coding, mode, text), **context)
