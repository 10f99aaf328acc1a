"""P23: buffers join to exactly what was appended; values print and release."""
import ctypes

from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one buffer or value joined or printed and compared with a model; distinct by (kind, number of parts, total size, shape)"
ASSUMPTIONS = ["values are non cyclic trees; texts of values are printable"]


def string_buffer(ctx, rng, batch, slot):
    parts = []
    batch.add("sb new %d" % slot)
    for _ in range(rng.choice([0, 1, 2, 10, 80])):
        op = rng.choice(["app", "appl", "appt", "own", "ownl", "ownt", "join"])
        if op == "join":
            joined = b"".join(parts)
            batch.add("sb join %d" % slot, "%d %s" % (len(joined), hexa(joined + b"\0")))
            continue
        size = rng.choice([0, 1, 2, 15, 16, 100, 1000])
        if op in ("app", "own"):
            data = bytes(rng.randrange(1, 256) for _ in range(size))
        else:
            data = rng.randbytes(size)
            if size == 0 and op.startswith("own"):
                data = b"x"
        batch.add("sb %s %d %s" % (op, slot, hexa(data)))
        parts.append(data)
    joined = b"".join(parts)
    batch.add("sb join %d" % slot, "%d %s" % (len(joined), hexa(joined + b"\0")))
    batch.add("sb del %d" % slot)
    ctx.case(("string", len(parts), len(joined)))
    ctx.top("largest_buffer", len(joined))


def linked_buffer(ctx, rng, batch, slot):
    parts = []
    batch.add("lb new %d" % slot)
    for _ in range(rng.choice([0, 1, 2, 10, 80])):
        op = rng.choice(["app", "own", "own2", "join"])
        if op == "join":
            batch.add("lb join %d" % slot, hexa(b"".join(parts)))
            continue
        data = rng.randbytes(rng.choice([0, 1, 2, 15, 16, 100, 1000]))
        batch.add("lb %s %d %s" % (op, slot, hexa(data)))
        parts.append(data)
    joined = b"".join(parts)
    batch.add("lb join %d" % slot, hexa(joined))
    batch.add("lb del %d" % slot)
    ctx.case(("linked", len(parts), len(joined)))


TEXT = b"abcXYZ 0123_-,:[]{}."


def text(rng):
    return bytes(rng.choice(TEXT) for _ in range(rng.choice([0, 1, 5, 9, 10, 64, 300])))


def value(rng, depth):
    """(command, printed, string, shape)"""
    kind = rng.choice("iifssLMS" if depth > 0 else "ifs")
    if kind == "i":
        number = rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31)])
        return "i %d" % number, b"%d" % number, b"%d" % number, "i"
    if kind == "f":
        number = rng.choice([0.0, -0.5, 1e10, 3.4e38, -3.4e38, 1e-20, rng.uniform(-1e6, 1e6)])
        shown = b"%f" % ctypes.c_float(float("%r" % number)).value
        return "f %r" % number, shown, shown, "f"
    if kind == "s":
        data = text(rng)
        return "s " + hexa(data), b"'" + data + b"'", data, "s"
    count = rng.choice([0, 1, 2, 3, 6])
    command, printed, shape = "%s %d" % (kind, count), [], kind
    if kind == "L":
        for _ in range(count):
            one = value(rng, depth - 1)
            command += " " + one[0]
            printed.append(one[1])
            shape += one[3]
        return command, b"[" + b", ".join(printed) + b"]", b"undefined", shape + "."
    if kind == "M":
        # the order of a hash map is not specified: at most one entry
        count = min(count, 1)
        command = "M %d" % count
    seen = set()
    for index in range(count):
        key = text(rng) + b"%d" % index
        assert key not in seen
        seen.add(key)
        one = value(rng, depth - 1)
        command += " " + hexa(key) + " " + one[0]
        printed.append(b"'" + key + b"' : " + one[1])
        shape += one[3]
    return command, b"{" + b", ".join(printed) + b"}", b"undefined", shape + "."


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("structs",)) + "/structs"

    def make(batch):
        for _ in range(20):
            string_buffer(ctx, rng, batch, 0)
            linked_buffer(ctx, rng, batch, 0)
        for _ in range(40):
            command, printed, string, shape = value(rng, rng.choice([0, 1, 2, 4]))
            batch.add("type " + command, (hexa(string + b"\0") + " ").encode().decode() + printed.decode(), "type")
            ctx.case(("type", shape))
    rounds(ctx, driver, "buffers", make, ctx.n(150, 3000))
