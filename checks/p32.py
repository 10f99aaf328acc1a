"""P32: files, folders and the utilities of text say exactly what is there."""
import datetime
import os
import shutil
import tempfile

from build import build
from libdrive import Batch, hexa, judge

LEVEL = "exploration"
RULE = "a case is one tree of files listed and read, or one text processed; distinct by (operation, kinds of entries, sizes, name classes)"
ASSUMPTIONS = ["the tree does not change while it is read", "the parts of paths are at least one byte long", "times are in UTC"]
DIRECTORY, REGULAR, LINK = 1, 2, 3


def klass(value):
    return value if value < 4 else 10 + value.bit_length()


def fname(rng):
    alphabet = rng.choice([b"abcXYZ", b"a.b", bytes(range(1, 47)) + bytes(range(48, 256)), "éß漢.".encode(), b" <&\"'%"])
    while True:
        out = bytes(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 8, 30, 255] if rng.random() < 0.1 else [1, 2, 8])))[:255]
        if out not in (b".", b".."):
            return out


def size_text(size):
    """The largest unit whose rounded value is not zero."""
    for unit, name in ((1 << 30, "GByte"), (1 << 20, "MByte"), (1 << 10, "KByte"), (1, "Byte")):
        exact = size / unit
        rounded = int(exact + 0.5) if unit > 1 else size
        if rounded > 0 or unit == 1:
            number = "%.1f" % exact if rounded < 10 else "%d" % rounded
            return "%s %s%s" % (number, name, "" if rounded == 1 else "s")


def delta_text(value, parts):
    out, seen = [], False
    for amount, name in ((value // 86400, "day"), (value % 86400 // 3600, "hour"), (value % 3600 // 60, "minute"), (value % 60, "second")):
        if len(out) == parts:
            break
        seen = seen or amount > 0 or name == "second"
        if seen:
            out.append("%d %s%s" % (amount, name, "" if amount == 1 else "s"))
    return " ".join(out)


def stamp(seconds):
    return datetime.datetime.fromtimestamp(int(seconds // 1), datetime.timezone.utc)


def tree(ctx, rng, driver):
    base = tempfile.mkdtemp(prefix="verif-files-")
    try:
        folder = os.path.join(base.encode(), fname(rng))
        long = rng.random() < 0.08
        if long:
            # a path close to the longest one
            while len(folder) < 3600:
                folder = os.path.join(folder, b"d" * 200)
            folder += b"/" + b"e" * rng.choice([100, 200, 240])
        os.makedirs(folder)
        batch = Batch()
        entries = {}
        kinds = set()
        for _ in range(rng.choice([0, 1, 5, 30, 200] if rng.random() < 0.2 else [0, 1, 5, 20])):
            name = fname(rng)
            path = os.path.join(folder, name)
            if name in entries or len(path) > 4000:
                continue
            kind = rng.random()
            if kind < 0.6:
                data = rng.randbytes(rng.choice([0, 1, 100, 1023, 1024, 5000, 70000] if rng.random() < 0.5 else [0, 1, 100]))
                batch.add("file write %s %s" % (hexa(path), hexa(data)), "ok", "write")
                entries[name] = (REGULAR, data)
                kinds.add("file")
            elif kind < 0.65:
                size = rng.choice([1 << 20, 3 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) + 5, 5 << 30, 20 << 30])
                with open(path, "wb") as handle:
                    handle.truncate(size)
                entries[name] = (REGULAR, size)
                kinds.add("sparse")
            elif kind < 0.8:
                os.mkdir(path)
                entries[name] = (DIRECTORY, None)
                kinds.add("folder")
            elif kind < 0.9:
                os.symlink(rng.choice([b".", b"missing", os.path.join(folder, rng.choice(list(entries) or [b"x"]))]), path)
                entries[name] = (LINK, None)
                kinds.add("link")
            else:
                os.mkfifo(path)
                entries[name] = (REGULAR, None)
                kinds.add("fifo")
        if not judge(ctx, driver, batch, "files"):
            return False
        batch = Batch()
        for name in entries:
            if rng.random() < 0.3 and entries[name][0] != LINK:
                when = rng.choice([0, 1, 951782400, 1709164800, 1704067199, 4102444800, rng.randrange(2000000000)])
                os.utime(os.path.join(folder, name), (when, when))
        expected = []
        if long:
            # an entry that can only be reached from its folder
            handle = os.open(folder, os.O_RDONLY)
            name = b"L" * 255
            os.close(os.open(name, os.O_CREAT | os.O_WRONLY, 0o600, dir_fd=handle))
            os.close(handle)
            kinds.add("long")
            if len(folder) + 256 < 4096:
                info = os.stat(os.path.join(folder, name))
                expected.append((REGULAR, name, 0, int(info.st_mtime)))
            else:
                expected.append((REGULAR, name, 0, None))
        for name in list(entries) + [b".", b".."]:
            path = os.path.join(folder, name)
            kind, data = entries.get(name, (DIRECTORY, None))
            try:
                info = os.stat(path)
            except OSError:
                info = None
            size = info.st_size if info else 0
            expected.append((kind, name, size, info.st_mtime_ns // 1000000000 if info else None))
            if name not in entries:
                continue
            with open(path, "rb") if kind == REGULAR and data is not None else open(os.devnull, "rb") as handle:
                if isinstance(data, bytes):
                    if handle.read() != data:
                        ctx.violation("files:contents", "the contents written to %r are not in the file" % name)
                        return False
                    batch.add("file read " + hexa(path), hexa(data), "read")
                    batch.add("file count " + hexa(path), "%d" % len(data), "count")
                elif isinstance(data, int):
                    batch.add("file count " + hexa(path), "%d" % data, "count")
            if kind == DIRECTORY:
                batch.add("file isdir " + hexa(path), "1", "isdir")
                batch.add("file read " + hexa(path), "error", "read")
                batch.add("file write %s %s" % (hexa(path), hexa(b"x")), "error", "write")
            elif info is not None and data is not None:
                batch.add("file isdir " + hexa(path), "0", "isdir")
                batch.add("file open %s rb" % hexa(path), "ok", "open")
            if info is None and kind == LINK:
                for operation in ("read", "count", "time"):
                    batch.add("file %s %s" % (operation, hexa(path)), "error", operation)
            elif info is not None:
                batch.add("file time " + hexa(path), stamp(info.st_mtime_ns // 1000000000).strftime("%Y-%m-%d-%H-%M-%S") if info.st_mtime_ns >= 0 else (lambda answer: None), "time")
        # folders, files and links, each in the order of the bytes of their names
        expected.sort()
        shown = "".join("%d:%s:%d:%s " % (kind, hexa(name), size, stamp(when).strftime("%Y-%m-%d-%H-%M-%S") if when is not None else "0000-00-00-00-00-00")
                        for kind, name, size, when in expected)
        batch.add("file list " + hexa(folder + rng.choice([b"", b"/"])), shown, "list")

        def judge_map(answer):
            parts = answer.split(" ")[:-1]
            if len(parts) != len(expected):
                return "%d entries, expected %d" % (len(parts), len(expected))
            for part, (kind, name, size, when) in zip(parts, expected):
                got = part.split(":")
                if got[0] != str(kind) or got[1] != hexa(name):
                    return "entry %r, expected %r" % (got[:2], (kind, name))
                if size < 1 << 31 and got[2] != str(size):
                    return "size %r, expected %d" % (got[2], size)
                clock = bytes.fromhex(got[3]).decode()
                if when is not None and clock != stamp(when).strftime("%Y-%m-%d %H:%M"):
                    return "time %r, expected %s" % (clock, stamp(when))
                text = bytes.fromhex(got[4]).decode()
                want = "-" if kind == DIRECTORY else size_text(size)
                if text != want:
                    return "size %r of %d bytes, expected %r" % (text, size, want)
            return None
        batch.add("file map " + hexa(folder), judge_map, "map")
        missing = os.path.join(folder, b"not there")
        if b"not there" not in entries:
            for operation in ("read", "count", "time", "list"):
                batch.add("file %s %s" % (operation, hexa(missing)), "error", operation)
            batch.add("file isdir " + hexa(missing), "0", "isdir")
            batch.add("file open %s rb" % hexa(missing), "error", "open")
            batch.add("file write %s %s" % (hexa(os.path.join(missing, b"x")), hexa(b"data")), "error", "write")
        batch.add("file write %s %s" % (hexa(b"/dev/full"), hexa(b"d" * rng.choice([1, 5000]))), "error", "write")
        good = judge(ctx, driver, batch, "files")
        ctx.case(("tree", tuple(sorted(kinds)), klass(len(entries)), klass(len(folder))))
        ctx.count("entries_listed", len(expected))
        return good
    finally:
        shutil.rmtree(base, ignore_errors=True)


def texts(ctx, rng, driver):
    batch = Batch()

    def word(alphabet=b"aZ_-.\\/ 0\xc3"):
        return bytes(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 5, 30])))
    for _ in range(300):
        size = rng.choice([rng.randrange(2000), 1 << rng.randrange(44), (1 << rng.randrange(44)) - 1, rng.randrange(1 << rng.randrange(1, 44)),
                           rng.choice([512, 1024, 1 << 19, 1 << 20, 1 << 29, 1 << 30, 10 << 10, 10 << 20, 10 << 30]) + rng.randrange(-2, 3)])
        size = max(0, size)

        def bytes_text(answer, size=size):
            parts = answer.split(" ")
            got = bytes.fromhex(parts[2]).decode() if len(parts) == 3 else answer
            return None if parts[0] == "exact" and got == size_text(size) else "%d bytes are %r, expected %r" % (size, got, size_text(size))
        batch.add("text bytes %d" % size, bytes_text)
        value = rng.choice([rng.randrange(200), rng.randrange(100000), rng.randrange(1 << 31), 86400 * rng.randrange(100), 3600 * rng.randrange(100), 60 * rng.randrange(100)])
        parts = rng.choice([1, 2, 3, 4, 10])

        def delta(answer, value=value, parts=parts):
            got = bytes.fromhex(answer).decode().rstrip(" ")
            return None if got == delta_text(value, parts) else "%d seconds in %d parts are %r, expected %r" % (value, parts, got, delta_text(value, parts))
        batch.add("text delta %d %d 128" % (value, parts), delta)
        want = delta_text(value, 4)
        room = rng.choice([1, 2, 8, 12, 20, 30])
        batch.add("text delta %d %d %d" % (value, rng.choice([0, 1, 2, 4]), room), lambda answer: None)
        ctx.case(("delta", len(want), parts, room))
        text = word()
        batch.add("text lower " + hexa(text), hexa(text.replace(b"_", b"-").lower()))
        batch.add("text upper " + hexa(text), hexa(text.replace(b"-", b"_").upper()))
        batch.add("text normal " + hexa(text), hexa(text.replace(b"\\", b"/")))
        at = text.rfind(b".")
        batch.add("text extension " + hexa(text), hexa(text[at:] if at > 0 else text))
        batch.add("text extension -", "-")
        end = rng.choice([text[-rng.randrange(1, 4):], word(), b"", text, b"x" + text])
        batch.add("text ends %s %s" % (hexa(text), hexa(end)), "1" if text.endswith(end) else "0")
        padded = b" " * rng.choice([0, 1, 5]) + rng.choice([b"", text]) + b" " * rng.choice([0, 1, 5])
        batch.add("text trail " + hexa(padded), "%d" % len(padded.rstrip(b" ")))
        batch.add("text lead " + hexa(padded), "%d" % (len(padded) - len(padded.lstrip(b" "))))
        truth = rng.choice([b"On", b"True", b"1", b"Off", b"False", b"0", b"", b"Onx", b"O", word()])
        batch.add("text bool " + hexa(truth), "1" if truth in (b"On", b"True", b"1") else "0")
        first, second = word(b"ab/"), word(b"ab./")
        batch.add("file join %s %s" % (hexa(first), hexa(second)), hexa(first + (b"" if first.endswith(b"/") else b"/") + second))
        batch.add("text random %d" % rng.choice([0, 1, 12, 300]), "ok")
        ctx.case(("text", klass(size), text[-1:], at < 0, padded[-1:]))
    batch.add("file join - " + hexa(b"name"), lambda answer: None)
    return judge(ctx, driver, batch, "texts")


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("files",)) + "/files"
    for turn in range(ctx.n(150, 5000)):
        if not tree(ctx, rng, driver):
            return
        if turn % 4 == 0 and not texts(ctx, rng, driver):
            return
        if ctx.late():
            break
