"""P06: validators and 304 answers over histories of changes."""
import os
import re

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, serving
from server import default_ini
from website import content

LEVEL = "exploration"
RULE = ("a case is one conditional or plain request within a history of file changes over kept connections; distinct by "
        "(kind of validator, whether the file changed since it was read, method, combined headers, position on the connection)")
ASSUMPTIONS = ["the modification time has a granularity of one second", "two modification times never share a validator by chance"]

ETAG = re.compile(r'^"[0-9a-f]{8}"$')


def mutate_tag(rng, tag):
    """A well formed validator that is not the given one."""
    kind = rng.randrange(9)
    inner = tag[1:-1]
    if kind == 0:
        i = rng.randrange(8)
        return '"' + inner[:i] + "0123456789abcdef"[(int(inner[i], 16) + rng.randrange(1, 16)) % 16] + inner[i + 1:] + '"'
    if kind == 1:
        return '"%08x"' % (int(inner, 16) ^ 1)
    if kind == 2:
        return '"' + inner[:7] + '"'
    if kind == 3:
        return '"' + inner[:rng.randrange(0, 7)] + '"'
    if kind == 4:
        return '"' + inner[::-1] + '"' if inner != inner[::-1] else '"00"'
    if kind == 5:
        return '""'
    if kind == 6:
        return '"x' + inner + '"'
    if kind == 7:
        return '"' + inner[1:] + inner[0] + '"' if len(set(inner)) > 1 else '"z"'
    return '"' + "".join(rng.choice("0123456789abcdefxyz-") for _ in range(rng.randrange(1, 120))) + '"'


class Model:
    def __init__(self, rng, www, uid):
        self.rng, self.www, self.uid = rng, www, uid
        self.files = {}
        self.tags = {}
        self.owners = {}

    def write(self, name, same_second=False):
        old = self.files.get(name)
        if old and same_second:
            mtime = old[1]
        else:
            base = self.rng.choice([0, 1, 59, 3599, 86399, 951782399, 951782400, 1709164800, 1735689599, 1735689600, 1500000000, 2147483646])
            mtime = base + self.rng.choice([0, 1, 60, 61, 3600, 86400, 2592000, 31536000]) if self.rng.random() < 0.7 else self.rng.randrange(2 ** 31 - 1)
            if old and self.rng.random() < 0.5:
                mtime = max(0, old[1] + self.rng.choice([-1, 1, 10, 60, 3600, 86400, 31 * 86400, 365 * 86400, -60, -3600]))
        data = content(self.rng, self.rng.choice([0, 1, 10, 100, 5000, 70000]))
        path = os.path.join(self.www, name)
        with open(path, "wb") as handle:
            handle.write(data)
        os.utime(path, (mtime, mtime))
        self.files[name] = (data, mtime)
        return mtime

    def touch(self, name, mtime):
        os.utime(os.path.join(self.www, name), (mtime, mtime))
        self.files[name] = (self.files[name][0], mtime)


def run(ctx):
    rng = ctx.rng
    for index in range(ctx.n(90, 600)):
        backend = "select" if index % 4 == 3 else "asan"
        out = build(backend)
        try:
            with serving(ctx, out, default_ini({"handler": "file"} if index % 5 == 2 else None, [("all", {"path": "^/", "handler": "file"})]), backend) as server:
                history(ctx, rng, server, backend)
        except Skip:
            pass
        if ctx.late():
            break


def history(ctx, rng, server, label):
    model = Model(rng, server.www, server.uid)
    names = ["f%d.txt" % i for i in range(6)]
    for name in names:
        model.write(name)
    # validator per modification time, as observed
    by_time = {}
    old_tags = {name: [] for name in names}
    conns = [None] * 4
    log = []
    for step in range(ctx.n(500, 1200)):
        action = rng.random()
        name = rng.choice(names)
        if action < 0.12:
            model.write(name, same_second=rng.random() < 0.2)
            log.append(("write", name, model.files[name][1]))
            ctx.count("changes")
        elif action < 0.2:
            model.touch(name, model.files[name][1] + rng.choice([1, -1, 7, 3600]) if model.files[name][1] > 3600 else model.files[name][1] + 1)
            log.append(("touch", name, model.files[name][1]))
            ctx.count("changes")
        data, mtime = model.files[name]
        current = by_time.get(mtime)
        choice = rng.randrange(8)
        validator, kind = None, "none"
        if choice in (0, 1, 2) and current:
            validator, kind = current, "current"
        elif choice in (3, 4) and old_tags[name]:
            validator = rng.choice(old_tags[name])
            kind = "old"
        elif choice == 5 and (current or old_tags[name]):
            validator, kind = mutate_tag(rng, current or old_tags[name][-1]), "other"
        headers = []
        if validator is not None:
            if validator == current:
                kind = "current"
            elif current is None:
                # this modification time was never observed: a validator seen
                # for another time cannot be the current one
                kind = kind if kind != "current" else "old"
            headers.append((b"If-None-Match", validator.encode()))
        extra = rng.randrange(6)
        if extra == 0:
            headers.insert(rng.randrange(len(headers) + 1), (b"Cache-Control", rng.choice([b"no-cache", b"max-age=0", b"x" * 200])))
        elif extra == 1:
            headers.insert(rng.randrange(len(headers) + 1), (b"If-Modified-Since", b"Thu, 01 Jan 1970 00:00:00 GMT"))
        elif extra == 2 and current:
            headers.insert(rng.randrange(len(headers) + 1), (b"X-If-None-Match", current.encode()))
            headers.insert(0, (b"If-Match-None", b"x"))
        elif extra == 3:
            headers.append((b"User-Agent", b"monitor"))
        method = rng.choice([b"GET", b"GET", b"GET", b"HEAD"])
        slot = rng.randrange(len(conns))
        keep = rng.random() < 0.9
        log.append((method, name, validator, kind, slot, keep))
        try:
            if conns[slot] is None:
                conns[slot] = Conn(server.port, timeout=60)
                first = True
            else:
                first = False
            conns[slot].send(request(method, b"/" + name.encode(), headers=headers, keep=keep))
            response = conns[slot].read_response(head=method == b"HEAD")
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, label, log[-1])
            if isinstance(error, Late):
                ctx.stuck("%s" % error, log=log[-40:])
            else:
                ctx.violation("no-response:%s:%s" % (kind, type(error).__name__), "%s after %s" % (error, log[-1]), log=log[-40:])
            conns[slot] = None
            continue
        problems = []
        tag = response.get("etag")
        if response.status == 304:
            if validator is None:
                problems.append("304 without a validator in the request")
            elif kind != "current":
                problems.append("304 for the %s validator %s" % (kind, validator))
        elif response.status == 200:
            if kind == "current":
                problems.append("200 for the current validator")
            if tag is None or not ETAG.match(tag):
                problems.append("validator %r" % tag)
            else:
                if current is None:
                    clash = [t for t, g in by_time.items() if g == tag]
                    if clash:
                        problems.append("the modification times %d and %d share the validator %s" % (clash[0], mtime, tag))
                    by_time[mtime] = tag
                elif tag != current:
                    problems.append("the validator of modification time %d changed from %s to %s" % (mtime, current, tag))
                if tag not in old_tags[name]:
                    old_tags[name].append(tag)
            if method == b"GET" and response.body != data:
                problems.append("not the current contents")
            if int(response.get("content-length", "-1")) != len(data):
                problems.append("length %s of %d" % (response.get("content-length"), len(data)))
        else:
            problems.append("status %d" % response.status)
        ctx.case((kind, response.status, method, extra, first, keep, len(data) > 4096, label, step % 50))
        ctx.count("kind_%s_%d" % (kind, response.status))
        if kind in ("current", "old"):
            ctx.sample({"file": name, "mtime": mtime, "validator": validator, "kind": kind, "status": response.status})
        for problem in problems:
            ctx.violation("%s:%s:%d" % (kind, re.sub(r"[0-9a-f\"]{6,}|\d+", "N", problem)[:50], response.status),
                          "%s %s: %s" % (method, name, problem), log=log[-60:])
        if not keep:
            rest = conns[slot].read_eof(30)
            if rest:
                ctx.violation("bytes-after-304" if response.status == 304 else "bytes-after", "%d bytes after the response" % len(rest), log=log[-10:])
            conns[slot].close()
            conns[slot] = None
    for conn in conns:
        if conn:
            conn.close()
