"""P05: byte ranges."""
import re
import time

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from website import Location, Site, content

LEVEL = "exploration"
RULE = ("a case is one request with (or, right after one on the same connection, without) a Range header; the response is compared "
        "with the slice of the file the header denotes; non-trivial when the (form of the range, position of its ends relative to "
        "the size, file size class, method, previous request) combination is distinct")
ASSUMPTIONS = ["header names in their canonical case, one Range header per request"]

SIZES = [0, 1, 2, 10, 100, 4096, 262143, 262144, 262145, 524288, 700001]


def reference(value, size):
    """(first, last) of a satisfiable single range, None otherwise."""
    m = re.match(rb"^bytes=([0-9]*)-([0-9]*)$", value)
    if not m or size == 0:
        return None
    first, last = m.groups()
    if first == b"" and last == b"":
        return None
    if first == b"":
        count = min(int(last), size)
        return (size - count, size - 1) if count else None
    a = int(first)
    b = int(last) if last else size - 1
    if b < a or a >= size:
        return None
    return a, min(b, size - 1)


def make(rng, size):
    """(form, value)"""
    edge = [0, 1, size // 2, size - 2, size - 1, size, size + 1, 2 * size, 262143, 262144, 262145, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1,
            2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 25]
    pick = lambda: max(0, rng.choice(edge) if rng.random() < 0.6 else rng.randrange(0, max(1, size)))
    form = rng.choice(["ab", "ab", "ab", "a-", "-n", "bad", "multi", "zeros"])
    if form == "ab":
        a, b = pick(), pick()
        if rng.random() < 0.75 and a > b:
            a, b = b, a
        return form, b"bytes=%d-%d" % (a, b)
    if form == "a-":
        return form, b"bytes=%d-" % pick()
    if form == "-n":
        return form, b"bytes=-%d" % pick()
    if form == "zeros":
        return form, b"bytes=%s%d-%s%d" % (b"0" * rng.randrange(8), pick(), b"0" * rng.randrange(8), pick())
    if form == "multi":
        return form, b"bytes=%d-%d,%d-%d" % (pick(), pick(), pick(), pick())
    return form, rng.choice([b"bytes=", b"bytes=-", b"bytes=--5", b"bytes=a-b", b"bytes=1", b"bytes=5-x", b"bytes=x-5", b"byte=0-1", b"0-1",
                             b"items=0-1", b"bytes 0-1", b"bytes=0-1-2", b"bytes=-1-2", b"bytes=1--2", b"bytes=+0-1", b"bytes=0x0-0x1",
                             b"bytes=0.0-1", b"bytes=,", b"bytes=0-1,", b"bytes=" + b"9" * 200 + b"-", b"bytes=0-" + b"1" * 100, b"-", b"=", b"bytes"])


def position(r, size):
    if r is None:
        return "none"
    a, b = r
    return ("0" if a == 0 else "end" if a == size - 1 else "mid") + ("end" if b == size - 1 else "mid") + ("1" if a == b else "big" if b - a >= 262144 else "small")


GIANTS = [2 ** 31 - 1, 2 ** 31, 2 ** 31 + 300000, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 300000, 5 * 2 ** 30 + 1, 2 ** 40 + 3]


def giants(ctx, rng, backend):
    """Files (mostly holes) larger than what smaller integers count."""
    sizes = rng.sample(GIANTS, 4)
    places = {}

    def prepare(server):
        for size in sizes:
            places[size] = {}
            with open("%s/g%d.bin" % (server.www, size), "wb") as handle:
                handle.truncate(size)
                for at in sorted({0, size // 2, 2 ** 31 - 40, 2 ** 31 + 7, 2 ** 32 - 40, 2 ** 32 + 7, size - 32}):
                    if 0 <= at <= size - 32:
                        places[size][at] = b"<%030d>" % at
                        handle.seek(at)
                        handle.write(places[size][at])

    def slice_of(size, first, last):
        data = bytearray(last - first + 1)
        for at, text in sorted(places[size].items()):
            for i, byte in enumerate(text):
                if first <= at + i <= last:
                    data[at + i - first] = byte
        return bytes(data)

    site = Site({"x": b"x"}, [Location("all", "^", "file")])
    site.direct = rng.random() < 0.3
    with serving(ctx, build(backend), site.ini(), backend + "/giants", files={"x": b"x"}, mutate=prepare) as server:
        conn = None
        for _ in range(60):
            size = rng.choice(sizes)
            target = b"/g%d.bin" % size
            near = max(0, min(size - 1, rng.choice(sorted(places[size])) + rng.randrange(-50, 50)))
            span = min(size - near, rng.choice([1, 2, 31, 64, 5000, 262144, 262145, 600000]))
            form = rng.choice(["ab", "ab", "a-", "-n", "head", "over"])
            method, status = b"GET", 206
            first, last = near, near + span - 1
            if form == "ab":
                value = b"bytes=%d-%d" % (first, last)
            elif form in ("a-", "-n"):
                first, last = size - span, size - 1
                value = b"bytes=%d-" % first if form == "a-" else b"bytes=-%d" % span
            elif form == "over":
                first, last = size - span, size - 1
                value = b"bytes=%d-%d" % (first, size + rng.choice([0, 1, 2 ** 31, 2 ** 32, 2 ** 62]))
            else:
                method, status, value = b"HEAD", 200, None
            want = slice_of(size, first, last) if method == b"GET" else b""
            problem = None
            try:
                if conn is None:
                    conn = Conn(server.port, timeout=60)
                conn.send(request(method, target, [(b"Range", value)] if value else []))
                response = conn.read_response(head=method == b"HEAD")
                length = last - first + 1 if value else size
                if response.status != status:
                    problem = "status %d, expected %d" % (response.status, status)
                elif response.get("content-length") != str(length):
                    problem = "length %r, expected %d" % (response.get("content-length"), length)
                elif value and response.get("content-range") != "bytes %d-%d/%d" % (first, last, size):
                    problem = "content range %r, expected %d-%d" % (response.get("content-range"), first, last)
                elif response.body != want:
                    problem = "body differs from the file"
            except Late as error:
                alive_or_report(ctx, server, backend, target)
                ctx.stuck("%s: giant %r" % (error, value))
                conn.close()
                conn = None
                continue
            except (Closed, Malformed, OSError) as error:
                alive_or_report(ctx, server, backend, target)
                problem = "%s: %s" % (type(error).__name__, error)
            ctx.case(("giant", form, size, near >= 2 ** 31, near >= 2 ** 32, span > 262144, backend))
            ctx.count("giant_" + form)
            if problem:
                ctx.violation("giant:%s:%s" % (form, problem.split(",")[0].split(":")[0][:40]), "%s %r range %r of %d bytes: %s" % (method, target, value, size, problem))
                conn.close()
                conn = None
        if conn:
            conn.close()


def run(ctx):
    rng = ctx.rng
    rounds = ctx.n(150, 1200)
    for index in range(rounds):
        backend = "select" if index % 4 == 3 else "asan"
        if index % 30 == 2:
            try:
                giants(ctx, rng, backend)
            except Skip:
                pass
        out = build(backend)
        sizes = SIZES + [rng.randrange(1, 300000) for _ in range(4)]
        files = {"f%d.%s" % (i, rng.choice(["bin", "txt", "html"])): content(rng, s) for i, s in enumerate(sizes)}
        files["dir/x"] = b"x"
        site = Site(files, [Location("all", "^", "file")])
        site.direct = rng.random() < 0.2
        try:
            with serving(ctx, out, site.ini(), backend, files=files) as server:
                conn, history = None, []
                for _ in range(ctx.n(130, 200)):
                    name = rng.choice(sorted(files))
                    if rng.random() < 0.03:
                        target = rng.choice([b"/dir/", b"/dir", b"/none"])
                        data = None
                    else:
                        target, data = b"/" + name.encode(), files[name]
                    method = rng.choice([b"GET"] * 6 + [b"HEAD"])
                    ranged = rng.random() < 0.8
                    form, value = make(rng, len(data) if data is not None else 10) if ranged else ("absent", None)
                    expected = site.expect(method, target)
                    span = None
                    if data is not None and ranged:
                        span = reference(value, len(data))
                        if span:
                            expected = {"status": 206, "kind": "part", "body": data[span[0]:span[1] + 1]}
                    headers = [(b"Range", value)] if ranged else []
                    if rng.random() < 0.2:
                        headers.insert(rng.randrange(len(headers) + 1), (b"X-Other", b"bytes=1-1"))
                    history.append({"method": method, "target": target, "range": value})
                    problem = None
                    try:
                        if conn is None:
                            conn = Conn(server.port, timeout=40, rcvbuf=rng.choice([None, None, 4096]))
                            history = history[-1:]
                        conn.send(request(method, target, headers))
                        response = conn.read_response(head=method == b"HEAD")
                        diff = compare(expected, response, method == b"HEAD")
                        if span:
                            want = "bytes %d-%d/%d" % (span[0], span[1], len(data))
                            if response.get("content-range") != want:
                                diff.append("content range %r, expected %r" % (response.get("content-range"), want))
                        elif response.get("content-range") is not None:
                            diff.append("content range %r in a full response" % response.get("content-range"))
                        if diff:
                            problem = "; ".join(diff)
                    except (Closed, Late, Malformed, OSError) as error:
                        alive_or_report(ctx, server, backend, history[-3:])
                        if isinstance(error, Late):
                            ctx.stuck("%s: %r" % (error, history[-1]), history=history)
                            conn.close()
                            conn = None
                            continue
                        problem = "%s: %s" % (type(error).__name__, error)
                    previous = history[-2]["range"] is not None if len(history) > 1 else None
                    ctx.case((form, position(span, len(data or b"")), min(len(data or b""), 3), len(data or b"") > 262144, method, previous, expected["kind"], backend))
                    ctx.count("kind_" + expected["kind"])
                    ctx.count("form_" + form)
                    if span:
                        ctx.sample({"target": target, "range": value, "answer": span, "size": len(data)})
                    if problem:
                        ctx.violation("%s:%s:%s" % (form, expected["kind"], problem.split(",")[0].split(":")[0][:50]),
                                      "%s %r range %r on %d bytes: %s" % (method, target, value, len(data or b""), problem),
                                      history=history[-4:], size=len(data or b""))
                        conn.close()
                        conn = None
                    elif rng.random() < 0.15:
                        conn.close()
                        conn = None
                if conn:
                    conn.close()
        except Skip:
            pass
        if ctx.late():
            break
