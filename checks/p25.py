"""P25: digests are those of the standards."""
import hashlib
import zlib

from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one digest compared with the reference implementation; distinct by (digest, size, way of division)"
ASSUMPTIONS = ["the digests of the Python standard library are right"]


def parts(rng, size):
    out, left = [], size
    kind = rng.choice(["bytes", "small", "blocks", "random"])
    while left > 0 and len(out) < 400:
        part = {"bytes": 1, "small": rng.randrange(0, 9), "blocks": rng.choice([63, 64, 65, 127, 128, 56, 55]), "random": rng.randrange(0, size + 1)}[kind]
        part = min(part, left)
        out.append(part)
        left -= part
    return kind, " ".join(map(str, out))


def one(ctx, rng, batch, data):
    size = len(data)
    batch.add("crc " + hexa(data), "%08x" % zlib.crc32(data))
    batch.add("md5 " + hexa(data), hashlib.md5(data).hexdigest())
    batch.add("sha1 " + hexa(data), hashlib.sha1(data).hexdigest())
    for name, want in (("md5u", hashlib.md5(data).hexdigest()), ("sha1u", hashlib.sha1(data).hexdigest())):
        kind, sizes = parts(rng, size)
        batch.add("%s %s %s" % (name, hexa(data), sizes), want)
        ctx.case((name, size, kind))
    for name in ("crc", "md5", "sha1"):
        ctx.case((name, size))


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("codec",)) + "/codec"
    first = [True]

    def make(batch):
        if first[0]:
            first[0] = False
            for size in range(0, 300):
                one(ctx, rng, batch, rng.randbytes(size))
            for value in range(256):
                batch.add("crc " + hexa(bytes([value])), "%08x" % zlib.crc32(bytes([value])))
        for _ in range(20):
            size = rng.choice([0, 1, 55, 56, 63, 64, 65, 119, 120, 128, 1000, 4096, 20000])
            one(ctx, rng, batch, rng.randbytes(size) if rng.random() < 0.7 else bytes([rng.randrange(256)]) * size)

    def large(batch):
        # the count of bits passes 32 bits
        for size in (2 ** 29 - 1, 2 ** 29, 2 ** 29 + 77, 2 ** 30 + 5):
            data = bytes([7]) * size
            batch.add("large md5 %d 7" % size, hashlib.md5(data).hexdigest())
            batch.add("large sha1 %d 7" % size, hashlib.sha1(data).hexdigest())
            batch.add("large crc %d 7" % size, "%08x" % zlib.crc32(data))
            ctx.case(("large", size))
    if not rounds(ctx, driver, "digests", make, ctx.n(70, 1600)):
        return
    if ctx.tier == "thorough":
        rounds(ctx, driver, "large digests", large, 1, 1500)
    else:
        def medium(batch):
            size = 2 ** 29 + 13
            data = bytes(size)
            batch.add("large sha1 %d 0" % size, hashlib.sha1(data).hexdigest())
            batch.add("large md5 %d 0" % size, hashlib.md5(data).hexdigest())
            ctx.case(("large", size))
        rounds(ctx, driver, "large digests", medium, 1, 300)
