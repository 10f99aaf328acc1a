"""P04: static files are served exactly."""
import random
import threading
import time

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from website import CONTENTS, Location, Site, content, encode_path, random_files

LEVEL = "exploration"
RULE = ("a case is one request (method, spelling of the target, connection use, reader speed) against a random site, its "
        "response compared byte for byte with the file; non-trivial when it has a distinct (file kind and size, method, "
        "escaping, reader, backend) combination")
ASSUMPTIONS = ["loopback TCP", "files do not change while being served (P13 covers files that do)"]


def locations(rng):
    pool = [
        Location("alt", "^/alt/", "file", base_path="other"),
        Location("slash", "^/slash", "file", base_path="other/"),
        Location("deep", "^/deep-", "file", base_path="other/inner"),
        Location("hello", "\\.hello$", "default"),
    ]
    rng.shuffle(pool)
    out = pool[:rng.randrange(0, len(pool) + 1)]
    return out + [Location("all", ".*" if rng.random() < 0.5 else "^/", "file", base_path=CONTENTS) if rng.random() < 0.5
                  else Location("all", "^", "file")]


def make_site(rng, thorough):
    files = random_files(rng, count=rng.randrange(15, 45), big=1, dirs=rng.randrange(1, 8))
    extra = {"other/" + k: v for k, v in random_files(rng, count=12, big=0, dirs=3, max_size=70000).items()}
    extra["other/inner/leaf.txt"] = b"leaf"
    index = rng.choice([["index.html"], ["index.htm", "index.html"], ["b.txt", "index.html"], ["index.html", "a"]])
    return Site(files, locations(rng), index=index, extra=extra)


def targets(rng, site, count):
    """Request targets: existing entries below every location, and near misses."""
    pool = []
    prefixes = [(b"/", CONTENTS.encode() + b"/"), (b"/alt/", b"other/"), (b"/slash/", b"other/"), (b"/deep-", b"other/inner/")]
    names = [loc.name for loc in site.locations]
    prefixes = [prefixes[0]] + [p for p, n in zip(prefixes[1:], ("alt", "slash", "deep")) if n in names or rng.random() < 0.1]
    for path, data in site.tree.items():
        for prefix, top in prefixes:
            if path.startswith(top):
                rest = path[len(top):]
                pool.append(prefix + rest + (b"/" if data is None and rng.random() < 0.6 else b""))
    rng.shuffle(pool)
    out = []
    for path in pool[:count]:
        kind = rng.randrange(12)
        if kind == 0:
            out.append(encode_path(path) + rng.choice([b"x", b".", b"~", b"/", b"/x", b"%00", b"%00.txt", b"%2f", b"%2e"]))
            continue
        if kind == 1 and len(path) > 2:
            i = rng.randrange(1, len(path))
            path = path[:i] + bytes([path[i] ^ 0x20]) + path[i + 1:] if path[i:i + 1].isalpha() else path[:i] + path[i + 1:]
        target = encode_path(path, rng, rng.choice([0.0, 0.1, 1.0]))
        if kind == 2:
            target = target.replace(b"/", b"//", 1) if rng.random() < 0.5 else target.replace(b"/", b"/./", 1)
        if kind in (3, 4):
            target += b"?" + rng.choice([b"", b"a=b", b"x=/../..", b"%zz", b"a?b", b"file.txt", b"q=" + b"v" * 500])
        if kind == 5:
            target += rng.choice([b"%", b"%4", b"%zz", b"%2"])
        out.append(target)
    out += [b"/", b"/missing", b"/index.html", b"/x.hello"]
    return out


def worker(ctx, server, site, backend, seed, plan, errors):
    rng = random.Random(seed)
    conn = None
    try:
        for method, target, reader in plan:
            expected = site.expect(method, target)
            head = method == b"HEAD"
            keep = rng.random() < 0.8
            try:
                if conn is None:
                    conn = Conn(server.port, timeout=40, rcvbuf=4096 if reader == "slow" else None)
                conn.send(request(method, target, keep=keep))
                if reader == "slow":
                    time.sleep(0.05)
                response = conn.read_response(head=head)
            except (Closed, Late, Malformed, OSError) as error:
                errors.append((method, target, expected, error))
                if conn:
                    conn.close()
                conn = None
                continue
            diff = compare(expected, response, head)
            if response.keep_alive != keep:
                diff.append("connection %r for keep=%s" % (response.get("connection"), keep))
            size = len(expected["body"]) if expected["body"] is not None else -1
            bucket = size if size < 5 else len(bin(size))
            with ctx.lock:
                ctx.case((expected["kind"], bucket, method, b"%" in target, b"?" in target, reader, backend, expected.get("ctype"), keep))
                ctx.count("responses")
                ctx.count("kind_" + expected["kind"])
                ctx.count("body_bytes", len(response.body))
                if expected["kind"] == "file":
                    ctx.sample({"method": method, "target": target, "status": response.status, "length": size, "type": expected.get("ctype")})
            if diff:
                errors.append((method, target, expected, "; ".join(diff)))
            if not keep or response.get("connection", "").lower() == "close":
                extra = conn.read_eof(20)
                if extra:
                    errors.append((method, target, expected, "%d bytes after the response" % len(extra)))
                conn.close()
                conn = None
            elif rng.random() < 0.1:
                conn.close()
                conn = None
    except (Late, Closed) as error:
        errors.append(("after", b"", {"kind": "close"}, error))
    finally:
        if conn:
            conn.close()


def run(ctx):
    ctx.lock = threading.Lock()
    rng = ctx.rng
    rounds = ctx.n(120, 800)
    for index in range(rounds):
        backend = "select" if index % 3 == 2 else "asan"
        out = build(backend)
        site = make_site(rng, not ctx.quick)
        site.direct = index % 8 == 6
        label = backend

        def mutate(server):
            import os
            for name, data in site.extra.items():
                path = os.path.join(server.dir, name)
                if data is None:
                    os.makedirs(path, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, "wb") as handle:
                        handle.write(data)
        try:
            with serving(ctx, out, site.ini(), label, files=site.files, mutate=mutate) as server:
                plan = []
                for target in targets(rng, site, ctx.n(150, 260)):
                    method = rng.choice([b"GET"] * 8 + [b"HEAD"] * 3 + [b"POST"])
                    plan.append((method, target, "slow" if rng.random() < 0.08 else "fast"))
                plan += [(b"GET", b"/big0.bin", "slow")] * 3 + [(b"GET", b"/big0.bin", "fast")]
                rng.shuffle(plan)
                errors = []
                threads = []
                groups = [plan[i::8] for i in range(8)]
                for i, group in enumerate(groups):
                    t = threading.Thread(target=worker, args=(ctx, server, site, backend, "%s/%d/%d" % (ctx.seed, index, i), group, errors))
                    t.start()
                    threads.append(t)
                for t in threads:
                    t.join()
                judge(ctx, server, site, label, errors)
        except Skip:
            pass
        if ctx.late():
            break


def judge(ctx, server, site, label, errors):
    for method, target, expected, problem in errors:
        if isinstance(problem, Exception):
            alive_or_report(ctx, server, label, (method, target))
            # repeated alone: only a problem that shows again is a verdict
            if method == "after":
                ctx.violation("no-close", "a connection without keep-alive was not closed: %s" % problem)
                continue
            try:
                with Conn(server.port, timeout=60) as conn:
                    conn.send(request(method, target, keep=False))
                    response = conn.read_response(head=method == b"HEAD")
                diff = compare(expected, response, method == b"HEAD")
                if isinstance(problem, Late) and not diff:
                    ctx.stuck("%s on %r, not repeated alone" % (problem, target), ini=site.ini())
                    continue
                problem = "%s: %s; alone: %s" % (type(problem).__name__, problem, diff or "as expected")
            except (Closed, Late, Malformed, OSError) as error:
                alive_or_report(ctx, server, label, (method, target))
                problem = "%s: %s" % (type(error).__name__, error)
        ctx.violation("%s:%s" % (expected["kind"], problem.split(",")[0].split(":")[0][:60]),
                      "%s %r: %s" % (method, target, problem), method=method, target=target, expected=expected, ini=site.ini())
