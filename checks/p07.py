"""P07: nothing outside of the served folders is disclosed."""
import itertools
import os
import random
import re
import threading

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from website import Location, Site

LEVEL = "exploration"
RULE = ("a case is one request target built of traversal tokens (enumerated up to a length, then random longer ones) against folders "
        "surrounded by canary files; distinct by target; non-trivial when it contains a dot segment, an encoding or a separator trick")
ASSUMPTIONS = ["no symbolic links inside of the served folders"]

TOKENS = ["/", "..", ".", "%2e", "%2E%2e", "%2f", "%5c", "\\", "%00", "//", "outside_dir", "outside_file.txt", "www", "base", "sub", "inner"]
MORE = TOKENS + ["%252e%252e", "%c0%ae%c0%ae", "%c0%af", "..;", "+", "%20", "...", "%2e.", ".%2e", "%2F", "etc", "viriatum.ini", "outside_config", "www_outside",
                 "%", "%2", "%zz", "%u002e", "?", "/../", "/./", "/%2e%2e/", "..%2f", "~", "pub.txt", "leaf.txt", "\t", "%09", "%0a", "%7f", "%ff", "a" * 50,
                 "file:", "localhost", "C:", ":", "@", "*", "&", "=", "etc/users", "private/key.txt", "index.html", "..\\", "%2e%2e%5c"]
PREFIXES = ["", "/", "/in/", "/in", "/deep", "/deep/", "/sub/", "/safe/"]
CANARY = b"CANARY"


def make_site(rng):
    inside = {"pub.txt": b"inside:pub", "sub/leaf.txt": b"inside:leaf", "sub/..x/dots.txt": b"inside:dots", "sub/...": b"inside:three",
              "www/pub.txt": b"inside:www", "etc/x": b"inside:etc", "..y.txt": b"inside:y"}
    extra = {"base/pub.txt": b"inside:base", "base/inner/leaf.txt": b"inside:inner", "base/inner/sub/leaf.txt": b"inside:innersub",
             "safe/pub.txt": b"inside:safe"}
    locations = [Location("in", "^/in/", "file", base_path=rng.choice(["base", "base/", "./base"])),
                 Location("deep", "^/deep", "file", base_path=rng.choice(["base/inner", "base/inner/"])),
                 Location("safe", "^/safe/", "file", base_path="safe", auth_basic="Safe", auth_file="etc/users")]
    if rng.random() < 0.5:
        locations.append(Location("all", "^/", "file"))
    return Site(inside, locations, index=rng.choice([["index.html"], ["pub.txt", "leaf.txt"], ["../outside_file.txt", "index.html"][1:]]), extra=extra)


OUTSIDE = {"outside_file.txt": b"CANARY-1", "outside_dir/outside_file.txt": b"CANARY-2", "outside_dir/leaf.txt": b"CANARY-3",
           "www_outside/outside_file.txt": b"CANARY-4", "base_outside/outside_file.txt": b"CANARY-5", "etc/outside_config": b"CANARY-6",
           "etc/users": b"CANARY:CANARY\n", "index.html": b"CANARY-7", "pub.txt": b"CANARY-8", "private/key.txt": b"CANARY-9",
           "outside_dir/index.html": b"CANARY-10"}


def batches(ctx, rng):
    """Lists of targets: every short combination, then random longer ones."""
    size = 4
    every = []
    for n in range(1, size + 1):
        for combo in itertools.product(TOKENS, repeat=n):
            every.append("".join(combo))
    rng.shuffle(every)
    out = []
    limit = ctx.n(20000, 70000)
    for text in every[:limit]:
        out.append(rng.choice(["/", "/in/", "/deep", "/deep/", "/sub/", "/safe/"]) + text)
        if rng.random() < 0.15:
            out.append(text)
    climbs = ["..", "%2e%2e", ".%2e", "%2E.", "%2e.", "..%00", "..+", "..%20", "../.", "..;", "..\\", "..%5c", ". .", ".%00."]
    ends = ["outside_file.txt", "outside_dir/leaf.txt", "outside_dir/", "outside_dir", "", "etc/users", "index.html", "pub.txt", "private/key.txt", "missing.txt",
            "www/pub.txt", "base/pub.txt", "base/", "etc/viriatum.ini", "proc/self/environ", "etc/passwd", "tmp/"]
    seps = ["/", "%2f", "%2F", "//", "/./", "\\", "%5c"]
    for _ in range(ctx.n(25000, 200000)):
        kind = rng.randrange(4)
        if kind == 0:
            text = rng.choice(PREFIXES) + "".join(rng.choice(MORE) for _ in range(rng.randrange(1, 9)))
        elif kind == 1:
            depth = rng.randrange(1, 9)
            text = rng.choice(["/", "/in/", "/deep/", "/deep", "/sub/", "/sub/..x/", "/in/inner/", "/safe/"])
            text += "".join(rng.choice(climbs) + rng.choice(seps) for _ in range(depth)) + rng.choice(ends)
        elif kind == 2:
            # long paths around the sizes of the buffers, climbing at the end
            filler = rng.choice(["a", "./", "sub/../", "%2e/", "//", "sub/"])
            room = rng.choice([100, 127, 128, 255, 256, 500, 511, 512, 1000, 1015, 1020, 1022, 1023, 1024, 1030, 2040, 2048, 4096])
            text = rng.choice(["/", "/in/", "/deep/"]) + filler * max(0, room // len(filler) - rng.randrange(4)) + rng.choice(["/../", "/..%2f", "/"]) * rng.randrange(0, 4) + rng.choice(ends)
        else:
            text = rng.choice(["http://localhost", "//localhost", "http:", "/in/", "/"]) + rng.choice(["/../", "/%2e%2e/", "/"]) * rng.randrange(0, 5) + rng.choice(ends)
        if kind != 2 and rng.random() < 0.1:
            text += rng.choice(["?", "?/../", "?x=%2e%2e"])
        out.append(text)
    return out


def run(ctx):
    rng = ctx.rng
    targets = [t.encode("latin-1") for t in batches(ctx, rng) if t and not re.search(r"[\t\r\n ]", t) or "%" in t and not re.search(r"[\t\r\n ]", t)]
    rng.shuffle(targets)
    rounds = ctx.n(24, 240)
    share = (len(targets) + rounds - 1) // rounds
    ctx.lock = threading.Lock()
    for index in range(rounds):
        backend = "select" if index % 4 == 3 else "asan"
        out = build(backend)
        site = make_site(rng)
        site.direct = index % 6 == 4
        part = targets[index * share:(index + 1) * share]

        def mutate(server):
            for group in (site.extra, OUTSIDE):
                for name, data in group.items():
                    path = os.path.join(server.dir, name)
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, "wb") as handle:
                        handle.write(data)
        try:
            with serving(ctx, out, site.ini(), backend, files=site.files, mutate=mutate) as server:
                session(ctx, rng, server, site, backend, part)
        except Skip:
            pass
        if ctx.late():
            break


def canonical(server):
    """The answer to something that surely does not exist."""
    with Conn(server.port, timeout=60) as conn:
        conn.send(request(b"GET", b"/surely/missing/file"))
        r = conn.read_response()
        return (r.status, [h for h in r.headers], r.body)


def session(ctx, rng, server, site, label, part):
    missing = canonical(server)
    conn = None
    pending = []
    for target in part + [None]:
        if target is not None:
            pending.append(target)
        if len(pending) < 16 and target is not None:
            continue
        todo, pending = pending, []
        # one pipelined batch, answers in order; a target that is not a valid
        # request line ends the connection and the rest is sent again
        while todo:
            try:
                conn = Conn(server.port, timeout=60)
                conn.send(b"".join(request(b"GET", t) for t in todo))
            except (Closed, Late, OSError):
                pass
            done = 0
            try:
                for t in todo:
                    response = conn.read_response()
                    judge(ctx, site, t, response, missing, label)
                    done += 1
            except Malformed as error:
                ctx.violation("malformed", "%s for %r" % (error, todo[done]), target=todo[done])
                done += 1
            except Late as error:
                alive_or_report(ctx, server, label, todo[done])
                ctx.stuck("%s for %r" % (error, todo[done]), target=todo[done])
                done += 1
            except Closed as error:
                alive_or_report(ctx, server, label, todo[done])
                # the connection ended: alone, the target either gets an
                # answer or is refused by the parser
                with Conn(server.port, timeout=60) as alone:
                    try:
                        alone.send(request(b"GET", todo[done]))
                        judge(ctx, site, todo[done], alone.read_response(), missing, label)
                    except Malformed as bad:
                        ctx.violation("malformed", "%s for %r" % (bad, todo[done]), target=todo[done])
                    except Closed as end:
                        ctx.case(todo[done])
                        ctx.count("refused_by_closing")
                        if CANARY in end.partial or b"outside_" in end.partial:
                            ctx.violation("canary:closed", "canary in the answer to %r" % todo[done], target=todo[done])
                        alive_or_report(ctx, server, label, todo[done])
                        if todo[done].startswith(b"/") and re.match(rb"^[!-~]+$", todo[done]) and len(todo[done]) < 1000:
                            ctx.violation("closed:%s" % re.sub(rb"[A-Za-z0-9]+", b"N", todo[done]).decode("latin-1")[:40],
                                          "no answer to %r" % todo[done], target=todo[done])
                    except Late as end:
                        ctx.stuck("%s for %r" % (end, todo[done]), target=todo[done])
                done += 1
            finally:
                if conn:
                    conn.close()
            todo = todo[done:]


def judge(ctx, site, target, response, missing, label):
    expected = site.expect(b"GET", target)
    ctx.case(target, nontrivial=re.search(rb"\.\.|%|//|/\./|\\", target) is not None)
    ctx.count("status_%d" % response.status)
    ctx.count("kind_" + expected["kind"])
    shape = re.sub(rb"(a{8,}|(\./){4,}|(sub/\.\./){3,}|(sub/){4,})", b"(long)", target).decode("latin-1")
    if len(target) > 300:
        shape = "long"
    text = response.body + b"".join(("%s: %s\n" % h).encode("latin-1") for h in response.headers)
    # the target itself may name outside files, echoed in a redirect
    hidden = re.sub(rb"location: [^\n]*", b"", text, flags=re.I)
    if CANARY in text or b"outside_" in hidden or b"[general]" in text or b"root:" in response.body:
        ctx.violation("canary:%s" % shape[:60], "the answer to %r discloses a file outside of the served folders: %r" % (target, response.body[:200]),
                      target=target, ini=site.ini(), body=response.body)
        return
    if expected["kind"] in ("refused", "missing"):
        got = (response.status, response.headers, response.body)
        if got[0] == 500 and len(target) > 1000:
            # paths beyond the limits of the server have no handler
            ctx.count("beyond_limits")
        elif expected.get("limit") and got[0] in (200, 307):
            # close to the limits the index may not fit when the folder does
            ctx.count("beyond_limits")
        elif got[0] != 404:
            ctx.violation("exists:%s" % shape[:60], "%r answered %d and not 404: %r" % (target[-200:], response.status, response.body[:100]), target=target, ini=site.ini())
        elif got != missing:
            ctx.violation("tells:%s" % shape[:60], "the answer to %r differs from the one of a missing file: %r" % (target, got), target=target, ini=site.ini())
        return
    diff = compare(expected, response)
    if diff and len(target) > 1000 and response.status in (404, 500):
        ctx.count("beyond_limits")
    elif diff:
        ctx.violation("%s:%s" % (expected["kind"], shape[:60]), "%r: %s" % (target, "; ".join(diff)), target=target, ini=site.ini())
    elif expected["kind"] == "file":
        ctx.sample({"target": target, "status": response.status, "body": response.body})
