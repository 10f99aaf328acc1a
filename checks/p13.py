"""P13: the faults of some clients, files and system calls never reach the
other exchanges, and the affected ones never carry wrong bytes."""
import mmap
import os
import random
import re
import resource
import shutil
import signal
import socket
import ssl
import struct
import threading
import time

from build import build, faults
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, serving
from frame import VERIF
from p12 import KINDS as ENDS, one as end_one
from server import default_ini
from website import content

LEVEL = "exploration"
RULE = ("a case is one exchange judged while faults happen: of a client that is not affected (it has to be exact) or of an affected one (exact, an error, "
        "or exact up to where it ends); distinct by (round, back end, faults going on, target, role, outcome)")
ASSUMPTIONS = ["60 seconds without any progress count as no answer", "only regular files and folders are served",
               "a failing memory allocation is not injected: the code does not handle it anywhere",
               "bytes of files that are overwritten in place while they are sent may be the old or the new ones"]

VICTIM = "127.0.0.2"
FAULTS = ["recv-error", "recv-short", "send-error", "send-short", "open-error", "read-error", "read-short", "dir-error", "accept-error",
          "wait-eintr", "wait-few", "wait-late"]
OWN = open(os.path.join(VERIF, "data", "listing.html.tpl"), "rb").read()


class Notes:
    """What the threads of a round observe; judged by the main thread."""

    def __init__(self):
        self.lock = threading.Lock()
        self.problems, self.cases, self.counts = [], [], {}

    def problem(self, key, message, **artifact):
        with self.lock:
            if len(self.problems) < 40:
                self.problems.append((key, message, artifact))

    def case(self, key):
        with self.lock:
            self.cases.append(key)

    def count(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def settle(self, ctx, server, label):
        for key in self.cases:
            ctx.case(key)
        for name, n in self.counts.items():
            ctx.count(name, n)
        if self.problems:
            alive_or_report(ctx, server, label, self.problems[0][1])
        for key, message, artifact in self.problems:
            ctx.violation(key, message, **artifact)
        self.problems, self.cases, self.counts = [], [], {}


def stable_files(rng):
    return {"a.txt": b"a" * 10, "empty": b"", "page.html": content(rng, 3000), "mid.bin": content(rng, 70000), "chunk.bin": content(rng, 262144),
            "big.bin": content(rng, 900000), "victim.txt": content(rng, 500), "victim.bin": content(rng, 700000), "victims/x": b"1", "victims/y": b"22",
            "dir/one": b"1", "dir/two": b"2" * 2000, "templates/listing.html.tpl": OWN}


def site_ini(extra=None):
    return default_ini(extra, [("hello", {"path": "^/hello", "handler": "default"}), ("secret", {"path": "^/secret/", "handler": "file", "base_path": "secret",
                       "auth_basic": "S", "auth_file": "etc/victim.passwd"}), ("all", {"path": "^/", "handler": "file"})])


TARGETS = [b"/a.txt", b"/empty", b"/page.html", b"/mid.bin", b"/chunk.bin", b"/big.bin", b"/missing", b"/dir", b"/dir/", b"/dir/two", b"/hello", b"/%61.txt"]
VICTIMS = [b"/victim.txt", b"/victim.bin", b"/victims", b"/victims/", b"/victims/x", b"/victim.missing", b"/secret/s.txt"]
AUTH = [(b"Authorization", b"Basic dXNlcjpwYXNz")]


def headers_of(target):
    return AUTH if target.startswith(b"/secret") else []


def plain(body):
    """Without the times of the parent folder (the root changes)."""
    return re.sub(rb"(<name>\.\.?/?</name><time>)([^<]*)", lambda m: m.group(1) + b"#" * len(m.group(2)), body) if body.startswith(b"<folder>") else body


def baseline(ctx, server, files, tls=None):
    """The answers while nothing fails: {target: (status, body)}."""
    out = {}
    for target in TARGETS + VICTIMS:
        try:
            with Conn(server.port, timeout=60, tls=tls) as conn:
                conn.send(request(b"GET", target, headers_of(target)))
                response = conn.read_response()
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, "baseline", target)
            ctx.unsure("no baseline of %r: %s" % (target, error))
            raise Skip()
        name = target[1:].decode().replace("%61", "a")
        if name in files and (response.status != 200 or response.body != files[name]):
            ctx.violation("baseline", "%r is answered %d with %d bytes before any fault" % (target, response.status, len(response.body)))
            raise Skip()
        out[target] = (response.status, plain(response.body))
    return out


class Slow(Conn):
    """Reads in small steps, with pauses."""

    def __init__(self, *args, **kw):
        self.rng, self.pause = kw.pop("rng"), kw.pop("pause", 0)
        Conn.__init__(self, *args, **kw)

    def _fill(self):
        if self.pause:
            time.sleep(self.rng.random() * self.pause)
        Conn._fill(self)

    def head_ready(self):
        while b"\r\n\r\n" not in self.buffer:
            self._fill()
        return time.monotonic()


def converse(server, rng, base, notes, what, targets, source=None, tls=None, exact=True, errors=False, timeout=60, company=""):
    """One connection with some requests, in sequence or pipelined. Exact ones
    must all be answered as in the baseline; others may end early, and may
    have errors instead of the answers of victim files."""
    plan = [(rng.choice(targets), rng.random() < 0.15) for _ in range(rng.choice([1, 1, 2, 3, 6, 12]))]
    keep_last = rng.random() < 0.5
    slow = rng.random() < 0.3
    pipelined = rng.random() < 0.4
    outcome = "exact"
    conn = None
    target = b""
    done = 0
    try:
        conn = Slow(server.port, timeout=timeout, source=source, tls=tls, rcvbuf=rng.choice([None, 30000]) if slow else None, rng=rng,
                    pause=rng.choice([0, 0.002]) if slow else 0)
        data = [request(b"HEAD" if head else b"GET", t, headers_of(t), keep=i + 1 < len(plan) or keep_last) for i, (t, head) in enumerate(plan)]
        if pipelined:
            conn.send(b"".join(data))
        for index, (target, head) in enumerate(plan):
            if not pipelined:
                conn.send(data[index])
            response = conn.read_response(head=head)
            status, body = base[target]
            response.body = plain(response.body)
            done += 1
            if response.status == status and (response.body == (b"" if head else body)) and (int(response.get("content-length", -1)) == len(body) or status >= 300):
                continue
            if errors and b"/victim" in target and response.status in (404, 500, 503):
                outcome = "error"
                continue
            if errors and target.startswith(b"/secret") and response.status in (401, 404, 500, 503):
                outcome = "error"
                continue
            i = next((i for i, (a, b) in enumerate(zip(response.body, body)) if a != b), min(len(response.body), len(body)))
            notes.problem("%s:wrong:%d" % (what, status), "%s: %r answered %d with %d bytes (length %s), expected %d with %d; first difference at %d (%s)" % (
                what, target, response.status, len(response.body), response.get("content-length"), status, len(body), i, company),
                plan=plan, pipelined=pipelined, head=response.raw_head, slow=slow)
            outcome = "wrong"
            break
        if outcome == "exact" and keep_last and conn.extra():
            notes.problem("%s:extra" % what, "%s: %d bytes after the last response (%s)" % (what, len(conn.buffer), company), plan=plan)
    except Malformed as error:
        notes.problem("%s:malformed" % what, "%s: %s on %r (%s)" % (what, error, target, company), plan=plan)
        outcome = "wrong"
    except (Late, TimeoutError) as error:
        notes.problem("%s:late" % what, "%s: %r: %s (%s)" % (what, target, error, company), plan=plan, done=done)
        outcome = "late"
    except (Closed, OSError) as error:
        outcome = "ended"
        partial = getattr(error, "partial", b"")
        if "of the body" in str(error):
            status, body = base[target]
            if body[:len(partial)] != plain(partial):
                outcome = "wrong"
                notes.problem("%s:wrong-part" % what, "%s: the part received of %r differs from it (%s)" % (what, target, company), plan=plan, part=partial)
        elif partial and not partial.startswith(b"HTTP/1."[:len(partial)]):
            outcome = "wrong"
            notes.problem("%s:wrong-part" % what, "%s: %r instead of a response to %r (%s)" % (what, partial[:60], target, company), plan=plan)
        if exact:
            notes.problem("%s:ended" % what, "%s: %r: %s after %d of %d responses (%s)" % (what, target, error, done, len(plan), company), plan=plan)
    finally:
        if conn:
            conn.close()
    notes.case((what, outcome, target, company, pipelined, slow, tls is not None))
    notes.count("%s_%s" % (what, outcome))
    return outcome


def together(functions):
    threads = [threading.Thread(target=f) for f in functions]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


def base_fds(server):
    fds = server.fds() or []
    for _ in range(150):
        fds = server.fds() or []
        if len([f for f in fds if "socket" in f]) <= 1:
            break
        time.sleep(0.02)
    return len(fds)


def returned(ctx, server, base, label, what):
    """The descriptors go back to what they were."""
    end = time.time() + 15
    fds = []
    while time.time() < end:
        fds = server.fds()
        if fds is None or len(fds) <= base:
            return
        time.sleep(0.02)
    alive_or_report(ctx, server, label, what)
    ctx.violation("descriptors:%s" % what, "%s: %d descriptors stay open, %d before: %s" % (label, len(fds), base, fds[-6:]), left=fds)


def tls_context():
    tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    tls.check_hostname = False
    tls.verify_mode = ssl.CERT_NONE
    return tls


class Page:
    """The page shared with drivers/faults.c."""

    def __init__(self, path):
        self.handle = open(path, "r+b")
        self.map = mmap.mmap(self.handle.fileno(), 4096)

    def set(self, enabled, rates):
        for i, name in enumerate(FAULTS):
            self.map[8 + 4 * i:12 + 4 * i] = struct.pack("I", rates.get(name, 0))
        self.map[0:4] = struct.pack("I", enabled)

    def counts(self):
        return {name: struct.unpack("I", self.map[72 + 4 * i:76 + 4 * i])[0] for i, name in enumerate(FAULTS)}

    def close(self):
        self.map.close()
        self.handle.close()


def storm(ctx, rng, backend):
    """System calls fail for victim connections and victim files; the calls
    that wait and accept fail, come late or give little for everyone."""
    secure = rng.random() < 0.3
    files = stable_files(rng)
    seed = rng.getrandbits(31)

    def prepare(server):
        with open(os.path.join(server.dir, "faults"), "wb") as handle:
            handle.write(struct.pack("II", 0, seed) + bytes(4088))
    extra, etc = {}, {"etc/victim.passwd": b"user:pass\n", "secret/s.txt": b"secret" * 50}
    if secure:
        extra = {"ssl": "On", "ssl_csr": "cert/server.crt", "ssl_key": "cert/server.key"}
        for suffix in ("crt", "key"):
            etc["cert/server." + suffix] = open(os.path.join(VERIF, "data", "tls", "ec." + suffix), "rb").read()
    usable = [f for f in FAULTS if not (f == "send-short" and (backend != "select" or secure)) and not (f.startswith("wait-eintr") and backend == "select")
              and not (f == "recv-short" and secure)]
    label = "storm/%s%s" % (backend, "/tls" if secure else "")
    tls = tls_context() if secure else None
    with serving(ctx, build(backend), site_ini(extra), label, files=files, etc=etc, mutate=prepare,
                 env={"LD_PRELOAD": faults(), "VERIF_FAULTS": "faults"}) as server:
        page = Page(os.path.join(server.dir, "faults"))
        try:
            base = baseline(ctx, server, files, tls)
            fds = base_fds(server)
            for _part in range(ctx.n(3, 5)):
                chosen = rng.sample(usable, rng.choice([1, 2, 3, len(usable)]))
                rates = {}
                for name in chosen:
                    high = 30 if name in ("recv-short", "send-short", "open-error", "dir-error", "accept-error", "wait-few") else 8
                    rates[name] = rng.choice([100, 500, 100 * high])
                company = ",".join(sorted(chosen)) if len(chosen) < 4 else "all"
                notes = Notes()
                page.set(1, rates)
                before = page.counts()
                n = ctx.n(14, 30)

                def still(r):
                    # the files of the others are fine whatever happens
                    for _ in range(n):
                        converse(server, r, base, notes, "bystander", TARGETS, tls=tls, company=company)

                def broken_files(r):
                    for _ in range(n):
                        converse(server, r, base, notes, "victim-file", TARGETS + VICTIMS * 2, tls=tls, exact=False, errors=True, company=company)

                def broken_sockets(r):
                    for _ in range(n):
                        converse(server, r, base, notes, "victim-socket", TARGETS + VICTIMS, source=VICTIM, tls=tls, exact=False, errors=True, company=company)
                work = [still] * 3 + [broken_files] * 2 + [broken_sockets] * 3
                together([(lambda f=f, s=rng.random(): f(random.Random(s))) for f in work])
                page.set(0, {})
                after = page.counts()
                for name in FAULTS:
                    if after[name] != before[name]:
                        ctx.count("injected_" + name, after[name] - before[name])
                notes.settle(ctx, server, label)
                # once nothing fails, everything is exact again
                for _ in range(3):
                    converse(server, rng, base, notes, "afterwards", TARGETS + VICTIMS, tls=tls, company=company)
                notes.settle(ctx, server, label)
                returned(ctx, server, fds, label, "storm")
                ctx.sample({"round": label, "faults": company, "injected": {k: after[k] - before[k] for k in after if after[k] != before[k]}}, limit=3)
        finally:
            page.close()


# files that change -----------------------------------------------------------

BLOBS = {}


def blob(name, version, size):
    key = (name, version)
    have = BLOBS.get(key, b"")
    if len(have) < size:
        rows = (size + 63) // 64
        have = b"".join([b"%-18s v%08d row %010d %019d\n" % (name, version, i, i * 7919 * version) for i in range(rows)])
        if len(BLOBS) > 120:
            BLOBS.clear()
        BLOBS[key] = have
    return have[:size]


class Gen:
    """One file: its sizes and the versions written into it over time."""

    def __init__(self, t0, version, size):
        self.born, self.died = t0, float("inf")
        self.sizes = [(t0, size)]
        self.ops = []
        self.versions = [(t0, version)]

    def possible(self, a, b):
        """(exact sizes, ranges of sizes) the file may have within [a, b]."""
        exact = set()
        for i, (start, size) in enumerate(self.sizes):
            end = self.ops[i][1] if i < len(self.ops) else float("inf")
            if start <= b and end >= a:
                exact.add(size)
        ranges = [(x, y) for (t0, t1, x, y) in self.ops if t0 <= b and t1 >= a and y > x]
        return exact, ranges

    def least(self, a, b):
        exact, _ranges = self.possible(a, b)
        return min(exact) if exact else float("inf")


class Track:
    """One name of the served folder and everything that was done to it."""

    def __init__(self, server, name):
        self.server, self.name = server, name
        self.path = os.path.join(server.www, name)
        self.gens, self.odd = [], []
        self.state, self.version, self.size = "absent", 0, 0
        self.odd_since = None

    def gone(self, what, t0):
        if self.state == "file":
            self.gens[-1].died = None
        self.state = what

    def ended(self, t1):
        for gen in self.gens:
            if gen.died is None:
                gen.died = t1

    def install(self, size):
        self.version += 1
        temp = os.path.join(self.server.dir, "new-" + self.name)
        with open(temp, "wb") as handle:
            handle.write(blob(self.name.encode(), self.version, size))
        t0 = time.monotonic()
        if self.state == "file":
            self.gens[-1].died = None
        if self.state == "dir":
            os.rmdir(self.path)
        self.gens.append(Gen(t0, self.version, size))
        os.rename(temp, self.path)
        t1 = time.monotonic()
        self.ended(t1)
        if self.odd and self.odd[-1][1] is None:
            self.odd[-1][1] = t1
        self.state, self.size = "file", size

    def away(self, what):
        """The name is gone, a folder or not readable from now on."""
        t0 = time.monotonic()
        if self.state != "file":
            return
        if what == "unreadable":
            self.odd.append([t0, None, what])
            os.chmod(self.path, 0)
            return
        self.gens[-1].died = None
        os.unlink(self.path)
        if what == "dir":
            self.odd.append([t0, None, "absent"])
            os.mkdir(self.path)
        self.odd.append([t0, None, what])
        self.ended(time.monotonic())
        self.state = what

    def back(self, size):
        if self.odd and self.odd[-1][1] is None and self.odd[-1][2] == "unreadable":
            os.chmod(self.path, 0o644)
            self.odd[-1][1] = time.monotonic()
            return
        self.install(size)
        t1 = time.monotonic()
        for entry in self.odd:
            if entry[1] is None:
                entry[1] = t1

    def in_place(self, kind, rng):
        gen = self.gens[-1]
        before = self.size
        if kind == "truncate":
            after = rng.choice([0, before // 2, max(0, before - 1), before // 3 // 64 * 64])
        elif kind == "append":
            after = before + rng.choice([1, 64, 5000, 300000])
            if after > 6000000:
                return
        else:
            after = before
        t0 = time.monotonic()
        if kind == "append":
            self.version += 1
            gen.versions.append((t0, self.version))
            data = blob(self.name.encode(), self.version, after)[before:]
            fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
            os.write(fd, data)
            os.close(fd)
        elif kind == "truncate":
            os.truncate(self.path, after)
        elif kind == "overwrite":
            self.version += 1
            gen.versions.append((t0, self.version))
            fd = os.open(self.path, os.O_WRONLY)
            data = blob(self.name.encode(), self.version, before)
            step = rng.choice([len(data) or 1, 65536, 4096])
            for i in range(0, len(data), step):
                os.pwrite(fd, data[i:i + step], i)
            os.close(fd)
        gen.ops.append((t0, time.monotonic(), before, after))
        gen.sizes.append((t0, after))
        self.size = after

    def change(self, rng):
        if self.state != "file" or (self.odd and self.odd[-1][1] is None):
            self.back(rng.choice([0, 100, 5000, 300000, 2500000]))
            return "back"
        kind = rng.choice(["replace"] * 4 + ["truncate", "truncate", "append", "overwrite", "unlink", "unreadable", "dir"])
        if kind == "replace":
            self.install(rng.choice([0, 1, 63, 64, 700, 5000, 262144, 300000, 1000000, 3000000, self.size]))
        elif kind in ("unlink", "unreadable", "dir"):
            self.away("absent" if kind == "unlink" else kind)
        else:
            self.in_place(kind, rng)
        return kind


def matches(name, gen, start, body, upto):
    versions = [v for t0, v in gen.versions if t0 <= upto]
    texts = [blob(name, v, start + len(body))[start:] for v in versions]
    if body in texts:
        return True
    if len(texts) == 1:
        return False
    at = 0
    while at < len(body):
        end = min(len(body), (start + at) // 64 * 64 + 64 - start)
        piece = body[at:end]
        if not any(t[at:end] == piece for t in texts):
            for i in range(at, end):
                if not any(t[i] == body[i] for t in texts):
                    return False
        at = end
    return True


def judge_file(track, spec, result, a, head_at, end_at):
    """None, or what is wrong with the outcome of a request sent at a."""
    name = track.name.encode()
    if result[0] == "response":
        _kind, status, total, start, length, body, complete = result
    else:
        return None if result[0] == "ended" else result[1]
    odd = {what for t0, t1, what in track.odd if t0 <= head_at and (t1 is None or t1 >= a)}
    if not track.gens or track.gens[0].born > a:
        odd.add("absent")
    if status == 404:
        return None if odd & {"absent", "unreadable"} or "dir" in odd else "404 although the file was there all the time"
    if status in (307, 200) and "dir" in odd and (status == 307 or (total == 0 and not body)):
        return None
    if status not in (200, 206):
        return "status %d" % status
    gens = [g for g in track.gens if g.born <= head_at and (g.died is None or g.died >= a)]
    reasons = []
    for gen in gens:
        exact, ranges = gen.possible(a, head_at)
        if total not in exact and not any(x <= total <= y for x, y in ranges):
            reasons.append("length %d is none of %s" % (total, sorted(exact)[:6]))
            continue
        if spec["head"]:
            return None
        want = total if status == 200 else length
        if not matches(name, gen, start, body, end_at):
            reasons.append("bytes that are not of the file")
            continue
        if complete:
            if len(body) != want:
                reasons.append("%d bytes of %d" % (len(body), want))
                continue
            return None
        if gen.least(a, end_at) <= start + len(body):
            return None
        reasons.append("ended after %d of %d bytes although the file never was shorter" % (len(body), want))
    return "; ".join(reasons[:3]) or "no file could have been read"


def changing(ctx, rng, backend):
    """Files are replaced, cut, extended, overwritten, removed and made not
    readable while they are requested and sent."""
    files = stable_files(rng)
    label = "files/%s" % backend
    with serving(ctx, build(backend), site_ini(), label, files=files, etc={"etc/victim.passwd": b"user:pass\n", "secret/s.txt": b"secret" * 50}) as server:
        base = baseline(ctx, server, files)
        fds = base_fds(server)
        notes = Notes()
        tracks = [Track(server, "v%d.dat" % i) for i in range(4)]
        for track in tracks:
            track.install(rng.choice([5000, 300000, 2500000]))
        stop = threading.Event()
        outcomes = []

        def mutate(r, track):
            while not stop.is_set():
                kind = track.change(r)
                notes.count("change_" + kind)
                time.sleep(r.choice([0, 0.001, 0.005, 0.02, 0.05]))

        def reader(r):
            for _ in range(ctx.n(10, 25)):
                conversation(r)

        def conversation(r):
            count = r.choice([1, 2, 4, 8])
            plan = []
            for _ in range(count):
                track = r.choice(tracks)
                spec = {"head": r.random() < 0.15, "range": None}
                if r.random() < 0.25:
                    x = r.randrange(0, 400000)
                    spec["range"] = (x, x + r.randrange(0, 200000))
                plan.append((track, spec))
            slow = r.random() < 0.5
            conn = None
            index = 0
            try:
                conn = Slow(server.port, timeout=60, rng=r, rcvbuf=r.choice([4096, 30000]) if slow else None, pause=r.choice([0.001, 0.004]) if slow else 0)
                lines = []
                for track, spec in plan:
                    extra = [(b"Range", b"bytes=%d-%d" % spec["range"])] if spec["range"] else []
                    lines.append(request(b"HEAD" if spec["head"] else b"GET", b"/" + track.name.encode(), extra))
                pipelined = r.random() < 0.5
                a = time.monotonic()
                if pipelined:
                    conn.send(b"".join(lines))
                for index, (track, spec) in enumerate(plan):
                    if not pipelined:
                        a = time.monotonic()
                        conn.send(lines[index])
                    head_at = conn.head_ready()
                    raw = conn.buffer.split(b"\r\n\r\n")[0]
                    complete, over = True, False
                    try:
                        response = conn.read_response(head=spec["head"])
                        status, body, headers = response.status, response.body, {k.lower(): v for k, v in response.headers}
                    except Closed as error:
                        if "of the body" not in str(error):
                            raise
                        complete, over = False, True
                        lines_ = raw.decode("latin-1").split("\r\n")
                        status, body = int(lines_[0].split()[1]), error.partial
                        headers = {x.split(":", 1)[0].lower(): x.split(":", 1)[1].strip() for x in lines_[1:]}
                    length = int(headers.get("content-length", 0))
                    start, total = 0, length
                    bad = None
                    if status == 206:
                        unit = headers.get("content-range", "")
                        try:
                            span, total = unit.split(" ")[1].split("/")
                            start, last = [int(v) for v in span.split("-")]
                            total = int(total)
                            if last - start + 1 != length or start != spec["range"][0] or last != min(spec["range"][1], total - 1):
                                bad = "range %s of %s with length %d" % (unit, spec["range"], length)
                        except (ValueError, IndexError, TypeError):
                            bad = "range %r" % unit
                    outcomes.append((track, spec, ("response", status, total, start, length, body, complete) if not bad else ("bad", bad), a, head_at, time.monotonic(), pipelined, slow))
                    if over:
                        break
            except Closed as error:
                # a close without any byte of a response is only due when the
                # previous one was cut: those broke out of the loop
                outcomes.append((plan[index][0], plan[index][1], ("bad", "the connection ended without a response: %s" % error), 0, 0, 0, False, slow))
            except (Late, Malformed, ValueError) as error:
                outcomes.append((plan[index][0], plan[index][1], ("bad", "%s: %s" % (type(error).__name__, error)), 0, 0, 0, False, slow))
            except OSError as error:
                outcomes.append((plan[index][0], plan[index][1], ("bad", "error: %s" % error), 0, 0, 0, False, slow))
            finally:
                if conn:
                    conn.close()

        def still(r):
            while not stop.is_set():
                converse(server, r, base, notes, "bystander", TARGETS, company="files")
        others = [threading.Thread(target=mutate, args=(random.Random(rng.random()), t)) for t in tracks]
        others += [threading.Thread(target=still, args=(random.Random(rng.random()),)) for _ in range(2)]
        for t in others:
            t.start()
        together([(lambda s=rng.random(): reader(random.Random(s))) for _ in range(8)])
        stop.set()
        for t in others:
            t.join()
        for track, spec, result, a, head_at, end_at, pipelined, slow in outcomes:
            problem = judge_file(track, spec, result, a, head_at, end_at)
            ops = {"changed" if g.ops and g.ops[0][0] <= end_at and g.ops[-1][1] >= a else "replaced" for g in track.gens if g.born <= end_at and (g.died or 0) >= a}
            kind = result[0] if result[0] != "response" else "%d%s" % (result[1], "" if result[6] else "-cut")
            notes.case(("files", kind, tuple(sorted(ops)), pipelined, slow, spec["head"], spec["range"] is not None, result[0] == "response" and result[2]))
            notes.count("changing_" + kind)
            if problem:
                key = problem.split(":")[0].split(" ")[0:4]
                notes.problem("files:" + "-".join(w for w in key if not any(c.isdigit() for c in w)), "%s of %s%s: %s" % (
                    "HEAD" if spec["head"] else "GET", track.name, " %s" % (spec["range"],) if spec["range"] else "", problem), backend=backend,
                    result=[x if not isinstance(x, bytes) else x[:300] for x in result], pipelined=pipelined, slow=slow,
                    events=[{"born": g.born - a, "died": (g.died or 0) - a, "sizes": g.sizes[-4:], "versions": g.versions[-3:]} for g in track.gens if g.born <= end_at and (g.died or 0) >= a][:6])
        notes.settle(ctx, server, label)
        returned(ctx, server, fds, label, "files")


# descriptors -----------------------------------------------------------------

def exhausted(ctx, rng, backend):
    """No descriptors are left for a while."""
    files = stable_files(rng)
    label = "descriptors/%s" % backend
    limit = rng.randrange(30, 90)
    with serving(ctx, build(backend), site_ini(), label, files=files, fd_limit=limit, etc={"etc/victim.passwd": b"user:pass\n", "secret/s.txt": b"secret" * 50}) as server:
        base = baseline(ctx, server, files)
        fds = base_fds(server)
        notes = Notes()
        for _round in range(ctx.n(3, 6)):
            room = limit - fds
            olds = [Slow(server.port, timeout=60, rng=rng) for _ in range(rng.randrange(2, 8))]
            slows = []
            for _ in range(rng.randrange(0, 4)):
                conn = Slow(server.port, timeout=60, rng=rng, rcvbuf=4096)
                target = rng.choice([b"/big.bin", b"/chunk.bin", b"/mid.bin"])
                conn.send(request(b"GET", target))
                slows.append((conn, target))
            for conn in olds:
                conn.send(request(b"GET", b"/a.txt"))
                if conn.read_response().body != files["a.txt"]:
                    notes.problem("descriptors:before", "wrong answer before the exhaustion")
            margin = rng.choice([0, 0, 1, 2])
            fillers = []
            while len(server.fds() or []) < limit - margin and len(fillers) < room + 5:
                fillers.append(socket.create_connection(("127.0.0.1", server.port), timeout=10))
                time.sleep(0.002)
            # these do not fit (with no margin): they have to wait
            waiting = []
            for _ in range(rng.randrange(1, 12)):
                conn = Slow(server.port, timeout=60, rng=rng)
                target = rng.choice(TARGETS)
                conn.send(request(b"GET", target))
                waiting.append((conn, target))
            ctx.top("descriptors_in_use_of_limit", int(100 * len(server.fds() or []) / limit))
            for _ in range(rng.randrange(3, 20)):
                conn = rng.choice(olds)
                target = rng.choice(TARGETS)
                try:
                    conn.send(request(b"GET", target))
                    response = conn.read_response()
                    good = (response.status, plain(response.body)) == base[target]
                    failed = response.status in (404, 500, 503) and target not in (b"/hello", b"/dir")
                    if not good and not failed:
                        notes.problem("descriptors:wrong", "%r answered %d with %d bytes while no descriptors are left" % (target, response.status, len(response.body)),
                                      head=response.raw_head, body=response.body)
                    notes.case(("descriptors", backend, target, good, margin))
                    notes.count("exhausted_exact" if good else "exhausted_error")
                except Closed as error:
                    notes.count("exhausted_ended")
                    olds.remove(conn)
                    conn.close()
                    if not olds or b"hello" in target:
                        break
                except (Late, Malformed) as error:
                    notes.problem("descriptors:%s" % type(error).__name__, "%r: %s while no descriptors are left" % (target, error))
                    break
            time.sleep(rng.choice([0, 0.05, 0.3]))
            # released at once, one by one, or with resets
            free = fillers if rng.random() < 0.6 else fillers[:max(len(fillers) - 3, 1)]
            for sock in free:
                if rng.random() < 0.2:
                    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                sock.close()
                if rng.random() < 0.1:
                    time.sleep(0.003)
            for conn, target in slows + waiting:
                was = "transfer" if (conn, target) in slows else "waiting"
                try:
                    response = conn.read_response()
                    good = (response.status, plain(response.body)) == base[target]
                    # one that was accepted with the last descriptor
                    if not good and not (was == "waiting" and response.status in (404, 500, 503)):
                        if not (was == "transfer" and response.status == 404):
                            notes.problem("descriptors:%s-wrong" % was, "%s %r answered %d with %d bytes of %d" % (was, target, response.status, len(response.body), len(base[target][1])))
                    notes.case(("descriptors", backend, was, target, good, margin))
                    notes.count("%s_%s" % (was, "exact" if good else "error"))
                except (Late, Malformed) as error:
                    notes.problem("descriptors:%s-%s" % (was, type(error).__name__), "%s %r: %s after descriptors are free again" % (was, target, error), limit=limit, margin=margin)
                except Closed as error:
                    notes.problem("descriptors:%s-ended" % was, "%s %r: %s" % (was, target, error), limit=limit, margin=margin)
                conn.close()
            for sock in fillers:
                sock.close()
            for conn in olds:
                conn.close()
            notes.settle(ctx, server, label)
            returned(ctx, server, fds, label, "descriptors")
            for _ in range(3):
                converse(server, rng, base, notes, "afterwards", TARGETS, company="descriptors")
            notes.settle(ctx, server, label)


# clients ---------------------------------------------------------------------

def clients(ctx, rng, backend):
    """Aborting, stalling and flooding clients, and a server that is stopped
    and continued, with exact exchanges meanwhile."""
    files = dict(stable_files(rng), **{"small.txt": b"small", "page.html": content(rng, 3000)})
    label = "clients/%s" % backend
    with serving(ctx, build(backend), site_ini(), label, files=files, etc={"etc/victim.passwd": b"user:pass\n", "secret/s.txt": b"secret" * 50}) as server:
        base = baseline(ctx, server, files)
        fds = base_fds(server)
        for _part in range(ctx.n(2, 4)):
            notes = Notes()
            stop = threading.Event()
            kinds = rng.sample(ENDS, rng.choice([1, 3, len(ENDS)]))
            pauses = rng.random() < 0.5
            company = ("pauses," if pauses else "") + (",".join(sorted(kinds)) if len(kinds) < 4 else "all")

            def bad(r):
                while not stop.is_set():
                    kind = r.choice(kinds)
                    end_one(r, server.port, kind)
                    notes.count("end_" + kind)

            def flood(r):
                # never reads what it asks for
                held = []
                while not stop.is_set():
                    try:
                        conn = Conn(server.port, timeout=0.2, rcvbuf=4096)
                        held.append(conn)
                        conn.send(request(b"GET", r.choice([b"/big.bin", b"/chunk.bin", b"/a.txt"])) * r.choice([1, 20, 200]))
                        notes.count("floods")
                    except (Closed, Late, OSError):
                        pass
                    while len(held) > 10:
                        held.pop(r.randrange(len(held))).reset()
                    time.sleep(0.005)
                for conn in held:
                    conn.close()

            def stopper(r):
                while not stop.is_set():
                    server.proc.send_signal(signal.SIGSTOP)
                    time.sleep(r.choice([0, 0.002, 0.03]))
                    server.proc.send_signal(signal.SIGCONT)
                    notes.count("pauses")
                    time.sleep(r.choice([0.001, 0.01, 0.05]))
            others = [threading.Thread(target=f, args=(random.Random(rng.random()),)) for f in [bad, bad, bad, flood] + ([stopper] if pauses else [])]
            for t in others:
                t.start()

            def still(r):
                for _ in range(ctx.n(12, 25)):
                    converse(server, r, base, notes, "bystander", TARGETS, company=company)
            together([(lambda s=rng.random(): still(random.Random(s))) for _ in range(4)])
            stop.set()
            for t in others:
                t.join()
            if server.alive():
                server.proc.send_signal(signal.SIGCONT)
            notes.settle(ctx, server, label)
            returned(ctx, server, fds, label, "clients")


def many(ctx, rng, backend):
    """More connections than the back ends have room for in one cycle."""
    files = stable_files(rng)
    label = "many/%s" % backend
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    wanted = 5000 if hard == resource.RLIM_INFINITY or hard >= 5000 else hard
    if wanted < 3000:
        ctx.unsure("no room for enough descriptors: %d" % hard)
        return
    resource.setrlimit(resource.RLIMIT_NOFILE, (max(soft, wanted), hard))
    with serving(ctx, build(backend), site_ini(), label, files=files, fd_limit=min(4096, wanted), etc={"etc/victim.passwd": b"user:pass\n", "secret/s.txt": b"secret" * 50}) as server:
        base = baseline(ctx, server, files)
        fds = base_fds(server)
        notes = Notes()
        for act in rng.sample(["ask", "close", "reset", "ask-close"], ctx.n(2, 4)):
            first = Slow(server.port, timeout=60, rng=rng)
            first.send(request(b"GET", b"/a.txt"))
            first.read_response()
            conns = []
            try:
                for i in range(rng.choice([1030, 1300, 2000])):
                    conns.append(Conn(server.port, timeout=60))
                    if i % 250 == 249:
                        time.sleep(0.05)
                wait = time.time() + 20
                while time.time() < wait and len(server.fds() or []) < min(fds + 1 + len(conns), 1024 if backend == "select" else 10 ** 6):
                    time.sleep(0.02)
                ctx.top("most_connections_open", len(server.fds() or []) - fds)
                server.proc.send_signal(signal.SIGSTOP)
                close = act != "ask"
                for conn in conns:
                    if "ask" in act:
                        try:
                            conn.send(request(b"GET", b"/dir/two" if close else b"/page.html", keep=not close))
                        except Closed:
                            pass
                server.proc.send_signal(signal.SIGCONT)
                if act == "ask" or act == "ask-close":
                    target = b"/dir/two" if close else b"/page.html"
                    answered = 0
                    for conn in conns:
                        try:
                            response = conn.read_response()
                            answered += 1
                            if response.body != files[target[1:].decode()]:
                                notes.problem("many:wrong", "wrong answer with %d connections open" % len(conns))
                        except (Late, Malformed) as error:
                            notes.problem("many:%s" % type(error).__name__, "%s with %d connections open" % (error, len(conns)))
                            break
                        except Closed as error:
                            if backend != "select":
                                notes.problem("many:ended", "%s with %d connections open" % (error, len(conns)))
                                break
                    notes.count("many_answered", answered)
                    if backend == "select" and answered < 900:
                        notes.problem("many:few", "only %d of %d connections are answered" % (answered, len(conns)))
                server.proc.send_signal(signal.SIGSTOP)
                for conn in conns:
                    conn.reset() if act == "reset" else conn.close()
                server.proc.send_signal(signal.SIGCONT)
                first.send(request(b"GET", b"/a.txt"))
                if first.read_response().body != files["a.txt"]:
                    notes.problem("many:first", "the first connection is answered differently afterwards")
            except (Closed, Late, Malformed, OSError) as error:
                notes.problem("many:other", "a connection that was there before %d others: %s" % (len(conns), error), act=act)
            finally:
                if server.alive():
                    server.proc.send_signal(signal.SIGCONT)
                first.close()
                for conn in conns:
                    conn.close()
            notes.case(("many", backend, act, len(conns)))
            notes.settle(ctx, server, label)
            returned(ctx, server, fds, label, "many")
            converse(server, rng, base, notes, "afterwards", TARGETS, company="many")
            notes.settle(ctx, server, label)
        # it ends with all of them open
        left = [socket.create_connection(("127.0.0.1", server.port), timeout=60) for _ in range(1200)]
        time.sleep(0.3)
        try:
            server.stop()
            ctx.count("ended_with_many_open")
        finally:
            for sock in left:
                sock.close()
        rc, text = server.stop()
        if rc == 0 and not text.strip():
            raise Skip()


ROUNDS = [storm, changing, storm, exhausted, clients, storm, changing, many]


def run(ctx):
    rng = ctx.rng
    for index in range(ctx.n(16, 200)):
        turn = ROUNDS[index % len(ROUNDS)]
        backend = "select" if (index // len(ROUNDS) + index) % 2 else "asan"
        started = time.time()
        try:
            turn(ctx, random.Random(rng.random()), backend)
        except Skip:
            pass
        ctx.count("seconds_" + turn.__name__, int(time.time() - started))
        if ctx.late():
            break
