"""P09: requests are handled by the first matching location."""
import os
import random
import re

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from website import CONTENTS, Location, Site, encode_path

LEVEL = "exploration"
RULE = ("a case is one request path under one generated configuration of locations; every base path holds files naming themselves, so the "
        "answer identifies the location; distinct by (configuration, position of the matching location, answer kind, index resolution)")
ASSUMPTIONS = ["expressions are restricted to the syntax whose meaning PCRE and the reference engine share",
               "expressions never match the empty path, configurations have up to 200 locations"]

ATOMS = ["/a", "/b", "/img", "/x.y", "/v1", "/v2", "/sub", "/deep/er", "/A", "/static"]
FILES = ["one.txt", "two.html", "three.json", "index.html", "home.htm", "main", "readme", "sub/one.txt", "sub/index.html", "deep/er/one.txt",
         "a/one.txt", "a/index.html", "b/home.htm", "img/x.png", "v1/one.txt", "v2/main", "x.y/z.css", "1/2/3", "2024/report.txt", "A/one.txt", "static/one.txt"]


def expression(rng):
    atom = rng.choice(ATOMS)
    quoted = re.escape(atom)
    kind = rng.randrange(20)
    return [
        "^" + quoted, "^" + quoted + "/", "^" + quoted + "$", quoted, quoted + "/", "^" + quoted + "(/.*)?$",
        r"\.(png|html)$", r"\.txt$", r"\.[a-z]+$", "^" + quoted + "[0-9]*/", r"^/[0-9]+/", "^/(a|b|img)/", "^/[^/]+/sub", "one", "^/.*one",
        "^/(?:v1|v2)/", "^" + quoted + "/.{1,3}/?", "[A-Z]", "^(/a)+/", r"^/\w+\.html",
    ][kind]


def build_site(rng, size):
    bases = ["base%d" % i for i in range(min(6, size))]
    extra, files = {}, {}
    for base in bases:
        for name in FILES:
            if rng.random() < 0.55:
                extra[base + "/" + name] = ("%s:%s" % (base, name)).encode()
    for name in FILES:
        if rng.random() < 0.6:
            files[name] = ("www:%s" % name).encode()
    locations = []
    for i in range(size):
        handler = rng.choice(["file"] * 8 + ["default", "nothing"])
        fields = {}
        if handler == "file" and rng.random() < 0.8:
            fields["base_path"] = rng.choice(bases) + rng.choice(["", "", "/", "/sub", "/a"])
        locations.append(Location("loc%d" % i if rng.random() < 0.8 else rng.choice("abcdefgh") + "_%d" % i, expression(rng), handler, **fields))
    if rng.random() < 0.6:
        locations.append(Location("last", "^/", "file"))
    index = [["index.html"], ["home.htm", "index.html"], ["index.html", "home.htm", "main"], ["main", "readme", "one.txt"], ["none"], ["sub/index.html", "index.html"]]
    return Site(files, locations, index=rng.choice(index), extra=extra)


def paths(rng, site, count):
    pool = []
    for _ in range(count):
        prefix = rng.choice([""] * 12 + ATOMS + [a + b for a in ATOMS[:4] for b in ATOMS[:2]] + ["/12", "/a/a", "/a1", "/img//"])
        rest = rng.choice(["/" + name for name in FILES] + ["", "/", "/sub/", "/a/", "/b/", "/deep/er/", "/none", "/x.html", "/one", "/sub", "/a", "/v1/", "//", "/./", "/one.txt/"])
        path = (prefix + rest) or "/"
        if not path.startswith("/"):
            path = "/" + path
        path = path.encode()
        # misses are frequent and say little: most of them are dropped
        if site.expect(b"GET", path)["kind"] in ("missing", "unhandled") and rng.random() < 0.85:
            continue
        pool.append(path)
    return pool


def run(ctx):
    rng = ctx.rng
    for index in range(ctx.n(160, 1400)):
        backend = "select" if index % 4 == 3 else "asan"
        out = build(backend)
        size = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 15, 40, 200 if index % 10 == 0 else 12])
        site = build_site(rng, size)

        def mutate(server):
            for name, data in site.extra.items():
                path = os.path.join(server.dir, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as handle:
                    handle.write(data)
        ini = site.ini(general=rng.choice([{}, {"use_template": "On"}]))
        try:
            with serving(ctx, out, ini, backend, files=site.files, mutate=mutate) as server:
                session(ctx, rng, server, site, backend, ini, size)
        except Skip:
            pass
        if ctx.late():
            break


def session(ctx, rng, server, site, label, ini, size):
    conn = None
    for path in paths(rng, site, ctx.n(400, 600)):
        query = rng.choice([b""] * 4 + [b"?a=/b/", b"?x.txt", b"?"])
        method = rng.choice([b"GET"] * 5 + [b"HEAD", b"POST"])
        target = path + query
        expected = site.expect(method, target)
        resolved, loc, handler, end = site.dispatch(target)
        position = site.locations.index(loc) if loc else -1
        try:
            if conn is None:
                conn = Conn(server.port, timeout=60)
            conn.send(request(method, target))
            response = conn.read_response(head=method == b"HEAD")
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, label, (target, ini))
            if isinstance(error, Late):
                ctx.stuck("%s on %r" % (error, target), ini=ini)
            else:
                ctx.violation("no-response:%s:%s" % (expected["kind"], type(error).__name__), "%s on %r" % (error, target), ini=ini)
            conn = None
            continue
        diff = compare(expected, response, method == b"HEAD")
        ctx.case((size, position, expected["kind"], resolved != path, end, method, bool(query), loc.path if loc else None))
        ctx.count("kind_" + expected["kind"])
        ctx.top("largest_position", position)
        if resolved != path:
            ctx.count("index_resolved")
        if expected["kind"] == "file":
            ctx.sample({"target": target, "location": loc.path if loc else None, "position": position, "body": response.body[:60]})
        if diff:
            ctx.violation("%s:%s:%s" % (expected["kind"], re.sub(r"\d+", "N", diff[0])[:40], "index" if resolved != path else "plain"),
                          "%s %r (location %s %r): %s; body %r" % (method, target, position, loc.path if loc else None, "; ".join(diff), response.body[:60]),
                          ini=ini, expected=expected, config=[(l.path, l.handler, l.fields) for l in site.locations])
        if not response.keep_alive:
            conn.close()
            conn = None
    if conn:
        conn.close()
