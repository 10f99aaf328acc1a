"""P10: folder listings against the folder itself, over histories of changes."""
import os
import re
import shutil
import stat
import time

from build import REPO, build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, serving
from frame import VERIF
from server import default_ini
from website import encode_path

LEVEL = "exploration"
RULE = ("a case is one listing of a folder after a history of changes to it, compared entry by entry with the folder; distinct by "
        "(number of entries, kinds present, location, method, template, last change)")
ASSUMPTIONS = ["exact sizes in bytes are compared below 2^31, the rounded sizes for every file",
               "names contain no markup of the template used for reading the listing"]

SHIPPED = os.path.join(REPO, "src", "viriatum", "resources", "html", "base", "templates", "listing.html.tpl")
ROW = re.compile(rb"<row>([DFL]?)<name>(.*?)</name><time>(.*?)</time><bytes>(.*?)</bytes><human>(.*?)</human></row>", re.S)
UNITS = {"Byte": 1, "Bytes": 1, "KByte": 1 << 10, "KBytes": 1 << 10, "MByte": 1 << 20, "MBytes": 1 << 20, "GByte": 1 << 30, "GBytes": 1 << 30}
WORDS = ["a", "b", "c", "A", "B", "Z", "z", "aa", "ab", "a.b", "a-b", "a_b", "10", "9", "1", "file", "File", "FILE", "x y", "!first", "~last",
         "-", "_", "+", ",", "#", "$", "%", "&", "'", "(", ")", "=", "@", "[", "]", "{", "}", ".hidden", "..x", "...", "caf\u00e9", "\u65e5\u672c",
         "${out}", "$", "${", "}$", "entry.name", "item", "%41", "%%", "tab\tname", "new\nline", "quo\"te", "back\\slash", "folder_path", "name", "\x01", "\x7f",
         "\u00ff", "n" * 255, "m" * 127, "m" * 128, "k" * 64, "k" * 63, "type", "size", "time", "size_string", "index.htm"]


def human_problem(text, size):
    m = re.match(r"^(\d+(?:\.\d)?) (G?M?K?Bytes?)$", text)
    if not m or m.group(2) not in UNITS:
        return "size %r" % text
    unit = UNITS[m.group(2)]
    tolerance = 0.0501 if "." in m.group(1) else 0.5001
    if abs(float(m.group(1)) - size / unit) > tolerance:
        return "size %r of %d bytes" % (text, size)
    return None


def expected(path):
    """The entries of the folder as the kernel shows them."""
    rows = []
    names = [b".", b".."] + os.listdir(path)
    for name in names:
        full = os.path.join(path, name)
        mode = os.lstat(full).st_mode
        kind = b"D" if stat.S_ISDIR(mode) else b"L" if stat.S_ISLNK(mode) else b"F"
        try:
            info = os.stat(full)
            size = info.st_size
            t = time.gmtime(info.st_mtime)
            when = "%04d-%02d-%02d %02d:%02d" % (t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min)
        except OSError:
            size, when = 0, "0000-00-00 00:00"
        rows.append((kind, name, when.encode(), size))
    rows.sort(key=lambda row: (b"DFL".index(row[0]), row[1]))
    return rows


def check_own(body, rows, folder):
    out = []
    m = re.search(rb"<folder>(.*?)</folder>", body, re.S)
    if not m:
        return ["no folder in the page"]
    want_folder = folder[1:-1]
    if m.group(1) != want_folder:
        out.append("folder %r, expected %r" % (m.group(1), want_folder))
    m = re.search(rb"<items>(.*?)</items>", body)
    if not m or m.group(1) != b"%d" % len(rows):
        out.append("items %r of %d" % (m and m.group(1), len(rows)))
    got = ROW.findall(body)
    names = [g[1] for g in got]
    want = [r[1] for r in rows]
    if names != want:
        if sorted(names) == sorted(want):
            i = next(i for i, (a, b) in enumerate(zip(names, want)) if a != b)
            out.append("order differs at %d: %r, expected %r" % (i, names[i], want[i]))
        else:
            missing = [n for n in want if n not in names]
            extra = [n for n in names if n not in want]
            out.append("entries differ: missing %r, unknown %r, %d of %d" % (missing[:3], extra[:3], len(names), len(want)))
        return out
    for g, r in zip(got, rows):
        if g[0] != r[0]:
            out.append("kind %r of %r, expected %r" % (g[0], r[1], r[0]))
        if g[2] != r[2]:
            out.append("time %r of %r, expected %r" % (g[2], r[1], r[2]))
        if r[3] < 2 ** 31 and g[3] != b"%d" % r[3]:
            out.append("bytes %r of %r, expected %d" % (g[3], r[1], r[3]))
        if r[0] == b"D":
            if g[4] != b"-":
                out.append("size %r of a folder" % g[4])
        else:
            problem = human_problem(g[4].decode("latin-1"), r[3])
            if problem:
                out.append(problem)
    return out[:4]


def check_shipped(body, rows):
    names = re.findall(rb'<a href="(.*?)">', body, re.S)
    want = [r[1] for r in rows]
    kinds = {b"D": b"folder", b"F": b"text", b"L": b"link"}
    out = []
    if [n for n in names if n in want or n not in (b"/", b"../")][-len(want):] != want:
        out.append("entries of the shipped page differ")
    icons = re.findall(rb'<td class="icon (folder|text|link)">', body)
    if icons != [kinds[r[0]] for r in rows]:
        out.append("icons of the shipped page differ")
    if b"%d items" % len(rows) not in body:
        out.append("items of the shipped page differ")
    return out


class Folder:
    """Random changes of a tree owned by the check."""

    def __init__(self, rng, top):
        self.rng, self.top = rng, top
        self.folders = [b""]

    def full(self, rel):
        return os.path.join(self.top, rel) if rel else self.top

    def name(self):
        rng = self.rng
        word = rng.choice(WORDS)
        if rng.random() < 0.6:
            word += rng.choice(["", "1", "2", ".txt", "x" * rng.randrange(40), str(rng.randrange(1000))])
        return word.encode()[:255]

    def time(self, path):
        t = self.rng.choice([0, 59, 60, 3599, 951782399, 951868800, 1709164800, 1735689599, 1735689600, self.rng.randrange(2 ** 31), 4102444800])
        os.utime(path, (t, t))

    def change(self):
        rng = self.rng
        folder = rng.choice(self.folders)
        base = self.full(folder)
        entries = sorted(os.listdir(base))
        kind = rng.randrange(12)
        if kind < 5 or not entries:
            path = os.path.join(base, self.name())
            if os.path.lexists(path):
                return "none"
            pick = rng.randrange(12)
            if pick == 0 and len(self.folders) < 12 and folder.count(b"/") < 4:
                os.mkdir(path)
                os.chmod(path, 0o755)
                self.folders.append(os.path.relpath(path, self.top))
                return "mkdir"
            if pick == 1:
                os.symlink(rng.choice([b"missing", b".", entries[0] if entries else b"x"]), path)
                return "symlink"
            with open(path, "wb") as handle:
                size = rng.choice([0, 1, 2, 9, 10, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 10239, 10240, 10241, 524287, 524288, 1048575, 1048576,
                                   5 * 1048576, 9961471, 9961472, 10485760, 536870911, 536870912, 1073741824, 2147483647, 2147483648, 5 << 30, 9 << 30, 11 << 30,
                                   rng.randrange(100000), rng.randrange(3 << 30)])
                handle.truncate(size)
            self.time(path)
            return "create"
        path = os.path.join(base, rng.choice(entries))
        if kind < 7:
            if os.path.isdir(path) and not os.path.islink(path):
                rel = os.path.relpath(path, self.top)
                if os.listdir(path):
                    return "none"
                os.rmdir(path)
                self.folders.remove(rel)
                return "rmdir"
            os.unlink(path)
            return "unlink"
        if kind < 9:
            if os.path.isfile(path) and not os.path.islink(path):
                os.truncate(path, rng.choice([0, 1, 1000, 100000, 3 << 20]))
                self.time(path)
                return "resize"
            return "none"
        if kind < 10:
            new = os.path.join(base, self.name())
            if os.path.lexists(new) or (os.path.isdir(path) and not os.path.islink(path)):
                return "none"
            os.rename(path, new)
            return "rename"
        if not os.path.islink(path):
            self.time(path)
        return "touch"


def run(ctx):
    rng = ctx.rng
    own = open(os.path.join(VERIF, "data", "listing.html.tpl"), "rb").read()
    shipped = open(SHIPPED, "rb").read() if os.path.exists(SHIPPED) else None
    for index in range(ctx.n(90, 700)):
        backend = "select" if index % 4 == 3 else "asan"
        out = build(backend)
        use_shipped = shipped is not None and index % 6 == 5
        locations = [("alt", {"path": "^/alt/", "handler": "file", "base_path": "other"}), ("all", {"path": "^/", "handler": "file"})]
        try:
            with serving(ctx, out, default_ini(locations=locations), backend, etc={"other/x": b""},
                         files={"templates/listing.html.tpl": shipped if use_shipped else own}) as server:
                session(ctx, rng, server, backend, use_shipped)
        except Skip:
            pass
        if ctx.late():
            break


def session(ctx, rng, server, label, shipped):
    tops = []
    for prefix, path in ((b"/box/", os.path.join(server.www, "box")), (b"/alt/", os.path.join(server.dir, "other"))):
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        tops.append((prefix, Folder(rng, path.encode())))
    burst = rng.choice([0, 0, 3, 40, 40, 150, 500])
    for i in range(burst):
        tree = rng.choice(tops)[1]
        tree.change()
        if burst > 100:
            # one large folder
            name = ("f%d" % rng.randrange(100000) + rng.choice(["", ".txt", ".A"])).encode()
            path = os.path.join(tree.full(b""), name)
            if not os.path.lexists(path):
                with open(path, "wb") as handle:
                    handle.truncate(rng.randrange(100000))
    conn = None
    last = "none"
    for step in range(ctx.n(45, 80)):
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            done = rng.choice(tops)[1].change()
            last = done if done != "none" else last
        prefix, tree = rng.choice(tops)
        rel = rng.choice(tree.folders)
        folder = prefix + (rel + b"/" if rel else b"")
        method = rng.choice([b"GET"] * 5 + [b"HEAD"])
        target = encode_path(folder, rng, 0.1)
        # the path of the location itself is matched as it is written
        target = prefix + target[len(encode_path(prefix)):] if target.startswith(encode_path(prefix)) else encode_path(folder)
        if len(target) > 900:
            continue
        rows = expected(tree.full(rel))
        keep = rng.random() < 0.8
        try:
            if conn is None:
                conn = Conn(server.port, timeout=60)
            conn.send(request(method, target + rng.choice([b"", b"", b"?x"]), keep=keep))
            response = conn.read_response(head=method == b"HEAD")
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, label, target)
            if isinstance(error, Late):
                ctx.stuck("%s on %r" % (error, target))
            else:
                ctx.violation("no-response:%s" % type(error).__name__, "%s on %r" % (error, target))
            conn = None
            continue
        problems = []
        if response.status != 200:
            problems.append("status %d" % response.status)
        elif method == b"GET":
            problems = check_shipped(response.body, rows) if shipped else check_own(response.body, rows, folder)
        if response.status == 200 and method == b"HEAD":
            conn2 = Conn(server.port, timeout=60)
            conn2.send(request(b"GET", target, keep=False))
            full = conn2.read_response()
            conn2.close()
            if response.get("content-length") != full.get("content-length"):
                problems.append("HEAD announces %s and GET %s" % (response.get("content-length"), full.get("content-length")))
        ctx.case((min(len(rows), 60), sorted({r[0] for r in rows}), prefix, method, shipped, last, rel.count(b"/")))
        ctx.count("listings")
        ctx.count("rows_compared", len(rows))
        ctx.top("largest_folder", len(rows))
        ctx.count("after_" + last)
        if step == 5:
            ctx.sample({"folder": folder, "entries": [r[1] for r in rows][:12], "status": response.status})
        for problem in problems:
            ctx.violation("%s:%s" % ("shipped" if shipped else "own", re.sub(r"b?['\"].*?['\"]|\d+", "N", problem)[:50]),
                          "%s %r: %s" % (method, target, problem), folder=folder, rows=rows[:60], body=response.body)
        if not keep:
            conn.close()
            conn = None
    if conn:
        conn.close()
