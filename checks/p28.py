"""P28: streams keep bytes and bits in order."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one operation of a stream compared with a model; distinct by (kind of stream, operation, position and size classes)"
ASSUMPTIONS = ["values fit the number of bits they are written with", "a file stream is repositioned or flushed between writing and reading, as the C library asks for"]

_names = [0]


def klass(value):
    return value if value < 10 else 10 + value.bit_length()


def bytes_stream(ctx, rng, batch, slot, kind):
    """Random reads, writes and seeks on a memory stream or a file."""
    if kind == "memory":
        batch.add("st memory %d" % slot)
    else:
        _names[0] += 1
        batch.add("st file %d %s %s" % (slot, hexa(b"f%d" % _names[0]), hexa(b"wb+")))
    for turn in range(rng.choice([1, 1, 2])):
        batch.add("st open %d" % slot)
        data, position, last = bytearray(), 0, None
        for _ in range(rng.choice([5, 30, 150])):
            op = rng.choice(["write", "write", "read", "read", "seek", "size", "tell", "flush"])
            if kind == "file" and {op, last} == {"read", "write"}:
                batch.add("st seek %d %d" % (slot, position))
            if op == "write":
                part = rng.randbytes(rng.choice([0, 1, 2, 10, 100, 4095, 4096, 4097, 9000]))
                batch.add("st write %d %s" % (slot, hexa(part)), str(len(part)))
                if part:
                    if position > len(data):
                        data += bytes(position - len(data))
                    data[position:position + len(part)] = part
                    position += len(part)
            elif op == "read":
                size = rng.choice([0, 1, 2, 10, 100, 5000, 20000])
                part = bytes(data[position:position + size])
                batch.add("st read %d %d" % (slot, size), "%d %s" % (len(part), hexa(part)))
                position += len(part)
            elif op == "seek":
                position = rng.choice([0, len(data), rng.randrange(len(data) + 1), len(data) + rng.choice([0, 0, 1, 5000])])
                batch.add("st seek %d %d" % (slot, position))
            elif op == "size":
                batch.add("st size %d" % slot, str(len(data)))
            elif op == "tell":
                batch.add("st tell %d" % slot, str(position))
            else:
                batch.add("st flush %d" % slot)
            if op in ("read", "write"):
                last = op
            elif op in ("seek", "size"):
                last = None
            elif op == "flush" and last == "write":
                last = None
            ctx.case((kind, op, klass(position), klass(len(data))))
        if rng.random() < 0.8 or turn == 0:
            batch.add("st close %d" % slot)
        else:
            break
    batch.add("st del %d" % slot)


def bit_stream(ctx, rng, batch):
    """Bits written to a file, compared as bytes, read in other groups with steps back."""
    _names[0] += 1
    name = hexa(b"b%d" % _names[0])
    total = rng.choice([0, 3, 40, 1000, 40000, 40000])
    bits = ""
    batch.add("st file 0 %s %s" % (name, hexa(b"wb")))
    batch.add("bs new 0")
    mixed = rng.random() < 0.6
    width = rng.randrange(1, 17)
    while len(bits) < total:
        if mixed:
            width = rng.randrange(0, 17)
        value = rng.getrandbits(width) if width else 0
        if width <= 8 and rng.random() < 0.5:
            batch.add("bs wb 0 %d %d" % (value, width))
        else:
            batch.add("bs ww 0 %d %d" % (value, width))
        bits += format(value, "b").zfill(width) if width else ""
        ctx.case(("write", width, len(bits) % 8))
    batch.add("bs del 0")
    batch.add("st del 0")
    padded = bits + "0" * (-len(bits) % 8)
    data = int(padded, 2).to_bytes(len(padded) // 8, "big") if padded else b""
    batch.add("st file 1 %s %s" % (name, hexa(b"rb")))
    batch.add("st open 1")
    batch.add("st size 1", str(len(data)))
    batch.add("st read 1 %d" % (len(data) + 10), "%d %s" % (len(data), hexa(data)))
    batch.add("st close 1")
    batch.add("st del 1")
    batch.add("st file 2 %s %s" % (name, hexa(b"rb")))
    batch.add("bs new 2")
    position, furthest = 0, rng.choice([16, 16, 100, 5000])
    back = rng.choice([0.0, 0.2, 0.45])
    mixed = rng.random() < 0.6
    width = rng.randrange(1, 17)
    for _ in range(8000):
        if rng.random() < back:
            step = min(position, rng.randrange(0, furthest + 1))
            batch.add("bs back 2 %d" % step)
            position -= step
            ctx.case(("back", klass(step), position % 8))
            continue
        if mixed:
            width = rng.randrange(0, 17)
        if position + width > len(padded):
            break
        value = int(padded[position:position + width] or "0", 2)
        op = "rb" if width <= 8 and rng.random() < 0.5 else "rw"
        batch.add("bs %s 2 %d" % (op, width), str(value))
        position += width
        ctx.case(("read", op, width, position % 8, position // 32768))
    batch.add("bs del 2")
    batch.add("st del 2")
    ctx.top("bits", len(bits))


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("codec",)) + "/codec"

    def make(batch):
        for _ in range(10):
            bytes_stream(ctx, rng, batch, 4, "memory")
            bytes_stream(ctx, rng, batch, 5, "file")
        for _ in range(4):
            bit_stream(ctx, rng, batch)
    rounds(ctx, driver, "streams", make, ctx.n(40, 800))
