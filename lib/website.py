"""Random web sites and the reference behaviour of the server for them.

The model is written from the documented behaviour (locations are tried in
the order of the configuration, the first whose expression matches the path
handles the request, the file handler maps the rest of the path below the
base path, percent decoded), not from the code paths."""
import os
import re

CONTENTS = "www"
# longest file path the server handles: longer ones are not found
MAX_PATH = 1024


def load_mime():
    out = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mime.txt")) as handle:
        for line in handle:
            ext, mime = line.split(None, 1)
            out[ext] = mime.strip()
    return out


MIME = load_mime()


def decode_path(data):
    """Percent decoding as the server documents it, None when not valid."""
    out = bytearray()
    i = 0
    while i < len(data):
        c = data[i]
        if c == 0x25:
            pair = data[i + 1:i + 3]
            if len(pair) != 2 or not re.match(rb"^[0-9a-fA-F]{2}$", pair):
                return None
            out.append(int(pair, 16))
            i += 3
            continue
        out.append(0x20 if c == 0x2b else c)
        i += 1
    return bytes(out)


def encode_path(data, rng=None, rate=0.0):
    """A request target for the decoded path: what must be escaped is, the
    rest sometimes."""
    out = b""
    for c in data:
        plain = chr(c).isalnum() and c < 128 or c in b"/-_.~"
        if plain and not (rng and rng.random() < rate and c != 0x2f):
            out += bytes([c])
        elif c == 0x20 and rng and rng.random() < 0.5:
            out += b"+"
        else:
            out += (b"%%%02x" if not rng or rng.random() < 0.5 else b"%%%02X") % c
    return out


class Location:
    def __init__(self, name, path, handler, **fields):
        self.name, self.path, self.handler, self.fields = name, path, handler, fields

    def ini(self):
        values = {"path": self.path, "handler": self.handler}
        values.update(self.fields)
        return (self.name, values)


class Site:
    """files: {relative path below the contents root: bytes or None (dir)};
    etc: further files of the working directory (e.g. other base paths)."""

    def __init__(self, files, locations, index=("index.html",), extra=None, auth=None):
        self.files = dict(files)
        self.locations = list(locations)
        self.index = list(index)
        self.extra = dict(extra or {})
        self.auth = auth or {}
        # served by the file handler alone, without the one that dispatches
        self.direct = False
        self.tree = {}
        for top, group in ((CONTENTS + "/", self.files), ("", self.extra)):
            for name, data in group.items():
                self._add(top + name.strip("/"), data)

    def _add(self, path, data):
        path = path.encode() if isinstance(path, str) else path
        parts = path.split(b"/")
        for i in range(1, len(parts)):
            self.tree.setdefault(b"/".join(parts[:i]), None)
        self.tree[path] = data

    def ini(self, general=None, extra=""):
        from server import default_ini
        values = {"index": " ".join(self.index)}
        if self.direct:
            values["handler"] = "file"
        values.update(general or {})
        return default_ini(values, [loc.ini() for loc in self.locations], extra)

    # reference behaviour --------------------------------------------------
    def lookup(self, path):
        """The entry of the tree for a relative file system path: bytes, None
        (directory) or False (nothing there)."""
        if path is None or b"\0" in path or len(path) >= 4096:
            return False
        parts = [p for p in path.split(b"/") if p not in (b"", b".")]
        if any(len(p) > 255 for p in parts):
            return False
        # every intermediate component must be a directory
        for i in range(1, len(parts)):
            if self.tree.get(b"/".join(parts[:i]), False) is not None:
                return False
        if not parts:
            return None
        entry = self.tree.get(b"/".join(parts), False)
        if isinstance(entry, bytes) and (path.endswith(b"/") or path.endswith(b"/.")):
            return False
        return entry

    def select(self, path):
        for i, loc in enumerate(self.locations):
            m = re.search(loc.path.encode(), path)
            if m:
                return i, loc, m.end()
        return None, None, 0

    def dispatch(self, target):
        path = target.split(b"?", 1)[0]
        if self.direct:
            return path, None, "file", 0
        i, loc, end = self.select(path)
        # without any match the file handler serves the contents root
        if (loc is None or loc.handler == "file") and (path == b"" or path.endswith(b"/")):
            for name in self.index:
                if self.lookup(CONTENTS.encode() + path + b"/" + name.encode()) is not False:
                    path = path + name.encode()
                    j, loc2, end2 = self.select(path)
                    if loc2 is not None:
                        i, loc, end = j, loc2, end2
                    break
        if loc is None:
            return path, None, "file", 0
        if end > 0 and path[end - 1:end] == b"/":
            end -= 1
        return path, loc, loc.handler, end

    def expect(self, method, target, headers=(), credentials_ok=False, mtime=None):
        """{status, body (None: not specified), kind, ctype, location}"""
        path, loc, handler, end = self.dispatch(target)
        if handler == "default":
            return {"status": 200, "body": b"Hello Viriatum", "kind": "default"}
        if handler != "file":
            return {"status": 500, "body": None, "kind": "unhandled"}
        fields = loc.fields if loc is not None else {}
        base = fields.get("base_path")
        if base is None:
            base, rest = CONTENTS.encode(), path
        else:
            base, rest = base.encode(), path[end:]
        if len(path) + 2 > MAX_PATH or len(base) + len(rest) + 2 > MAX_PATH:
            return {"status": 404, "body": None, "kind": "refused", "limit": True}
        whole = decode_path(path)
        decoded = decode_path(rest)
        if whole is None or decoded is None or b"\0" in decoded or b".." in decoded.split(b"/"):
            return {"status": 404, "body": None, "kind": "refused"}
        sep = b"" if not decoded or decoded.startswith(b"/") or base.endswith(b"/") else b"/"
        file_path = base + sep + decoded
        entry = self.lookup(file_path)
        if entry is False:
            return {"status": 404, "body": None, "kind": "missing"}
        if fields.get("auth_basic") is not None and not credentials_ok:
            return {"status": 401, "body": None, "kind": "unauthorized", "realm": fields["auth_basic"]}
        if entry is None:
            if not path.endswith(b"/"):
                return {"status": 307, "body": b"", "kind": "redirect", "location": path + b"/"}
            return {"status": 200, "body": None, "kind": "listing", "dir": file_path, "folder": whole}
        name = file_path
        dot = name.rfind(b".")
        ext = name[dot:].decode("latin-1").lower().replace("_", "-") if dot >= 0 else ""
        return {"status": 200, "body": entry, "kind": "file", "ctype": MIME.get(ext), "path": file_path}


SIZES = [0, 1, 2, 3, 10, 255, 256, 1023, 4095, 4096, 4097, 16384, 65535, 65536, 262143, 262144, 262145, 524288, 524289]
NAMES = ["a", "b.txt", "page.html", "UPPER.HTML", "data.json", "pic.png", "archive.tar.gz", "noext", "sp ace.txt", "x+y.css",
         "per%cent.txt", "per%41.txt", "q?mark.js", "h#sh.xml", "am&p.svg", "semi;colon.txt", "co:lon.txt", "ti~lde.txt",
         "caf\u00e9.txt", "\u65e5\u672c.html", "dot.", ".hidden", "two..dots.txt", "...", "a.b.c.pdf", "under_score.x_y",
         "quo\"te.txt", "apos'.txt", "lt<gt>.html", "br{ace}.txt", "br[ack].txt", "back\\slash.txt", "pi|pe.txt", "at@.zip",
         "eq=.mp3", "com,ma.mp4", "do$lar.ico", "ex!.gif", "st*r.bin", "%2e%2e", "%", "%zz.txt", "long-" + "n" * 200 + ".txt",
         "x." + "e" * 250, "UPPER_CASE.JPG", "weird.tXt", "t.T", "trailing space ", "tab\there.txt", "\u00ff\u00fe.bin"]


def content(rng, size):
    kind = rng.randrange(4)
    if kind == 0:
        return rng.randbytes(size)
    if kind == 1:
        return bytes([rng.randrange(256)]) * size
    if kind == 2:
        unit = b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello\r\n\r\n"
        return (unit * (size // len(unit) + 1))[:size]
    unit = bytes(range(256))
    return (unit * (size // 256 + 1))[:size]


def random_files(rng, count=30, big=1, dirs=6, max_size=600000):
    folders = [""]
    for _ in range(dirs):
        parent = rng.choice(folders)
        if parent.count("/") > 4:
            continue
        name = rng.choice(["dir", "sub", "d ir", "d.ir", "x%20y", "caf\u00e9", "index", "a+b", "deep"]) + str(rng.randrange(5))
        folders.append((parent + "/" + name).strip("/"))
    files = {f: None for f in folders if f}
    names = NAMES[:]
    rng.shuffle(names)
    for i in range(count):
        name = names[i % len(names)]
        folder = rng.choice(folders)
        path = (folder + "/" + name).strip("/")
        if path in files:
            continue
        size = rng.choice(SIZES) if rng.random() < 0.5 else int(rng.random() ** 4 * 60000)
        files[path] = content(rng, min(size, max_size))
    for i in range(big):
        files["big%d.bin" % i] = content(rng, rng.randrange(800000, 2500000))
    for f in folders:
        if rng.random() < 0.4:
            files[(f + "/index.html").strip("/")] = b"<html>index of %s</html>" % f.encode()
    return files
