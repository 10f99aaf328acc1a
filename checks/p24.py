"""P24: base 64 and percent encodings are exact inverses."""
import base64
import urllib.parse

from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one text encoded or decoded and compared with the reference; distinct by (coding, operation, size, remainder, kind)"
ASSUMPTIONS = ["decoding of text of valid length with characters out of the alphabet of base 64 is only required to stay within memory"]

SAFE = b"-_.~"


def percent(data):
    out = b""
    for byte in data:
        if bytes([byte]).isalnum() or byte in SAFE:
            out += bytes([byte])
        elif byte == 32:
            out += b"+"
        else:
            out += b"%%%02x" % byte
    return out


def unpercent(data):
    """(valid, decoded up to the first invalid sequence)"""
    out, index = b"", 0
    digits = b"0123456789abcdefABCDEF"
    while index < len(data):
        if data[index] == 37:
            pair = data[index + 1:index + 3]
            if len(pair) < 2 or pair[0] not in digits or pair[1] not in digits:
                return False, out
            out += bytes([int(pair, 16)])
            index += 3
        else:
            out += b" " if data[index] == 43 else data[index:index + 1]
            index += 1
    return True, out


def encoded(data):
    """Any case of the hexadecimal digits is right."""
    want = hexa(percent(data) + b"\0")

    def judge(got):
        shown = bytes.fromhex(got)
        if shown.lower() != bytes.fromhex(want).lower() or unpercent(shown[:-1])[1] != data:
            return "encoded as %r, expected %r" % (shown[:200], percent(data)[:200])
        return None
    return judge


def one(ctx, rng, batch, data, kind):
    size = len(data)
    code = base64.b64encode(data)
    batch.add("b64 enc " + hexa(data), hexa(code))
    batch.add("b64 dec " + hexa(code), hexa(data))
    batch.add("pct enc " + hexa(data), encoded(data))
    batch.add("pct encto %s %d" % (hexa(data), len(percent(data))), encoded(data))
    text = percent(data)
    if rng.random() < 0.5:
        text = text.upper() if not any(97 <= b <= 122 for b in data) else text
    batch.add("pct dec " + hexa(text), hexa(data + b"\0"))
    batch.add("pct decto %s %d" % (hexa(text), size), hexa(data + b"\0"))
    assert urllib.parse.unquote_to_bytes(text.replace(b"+", b"%20")) == data
    for op in ("b64", "pct"):
        ctx.case((op, kind, size if size < 40 else 40 + size // 50, size % 3))


def hostile(ctx, rng, batch):
    data = bytearray(rng.choice([b"", b"%", b"%4", b"%41", b"a%", b"%zz", b"%4z", b"%%41", b"+%2b", b"==", b"====", b"A===", b"AA==", b"AAA=", b"=AAA"]))
    for _ in range(rng.randrange(20)):
        data += rng.choice([b"%", b"4", b"1", b"z", b"=", b"+", b"A", b"\0", b"\xff", b"/"])
    data = bytes(data)
    valid, out = unpercent(data)
    want = ("" if valid else "error %d " % len(out)) + hexa(out + b"\0")
    batch.add("pct dec " + hexa(data), want)
    if len(data) % 4 or len(data) - len(data.rstrip(b"=")) > 2:
        batch.add("b64 dec " + hexa(data), "error")
    else:
        batch.add("b64 dec " + hexa(data), lambda got: "rejected" if got == "error" else None)
    ctx.case(("hostile", valid, len(data), data.count(b"%"), data.count(b"=")))


def parameters(ctx, rng, batch):
    """Names and values joined into a query: every name once, with the last
    of its values, in any order."""
    pairs = [(bytes(rng.choice(b"abcdefgh_") for _ in range(rng.choice([1, 1, 2, 8]))), rng.randbytes(rng.choice([0, 1, 5, 20, 300])) if rng.random() < 0.6
              else bytes(rng.choice(b"az09-_.~ %+&=/") for _ in range(rng.randrange(12)))) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
    want = dict(pairs)
    size = len(b"&".join(key + b"=" + percent(value) for key, value in want.items()))
    room = rng.choice([size + 1, size + 1, size + 2, size + 100, max(1, size), max(1, size // 2), 1])

    def judge(got):
        if room < size + 1:
            return None if got == "error" else "%d bytes of query in %d" % (size, room)
        text = b"" if got == "-" else bytes.fromhex(got) if got != "error" else None
        if text is None:
            return "refused though %d bytes fit in %d" % (size, room)
        found = [part.split(b"=", 1) for part in text.split(b"&")] if text else []
        if sorted((part[0], unpercent(part[1])) for part in found if len(part) == 2) != sorted((key, (True, value)) for key, value in want.items()) or len(text) != size:
            return "the query %r is not made of %r" % (text[:300], want)
        return None
    batch.add("par %d %d %s" % (room, len(pairs), " ".join(hexa(key) + " " + hexa(value) for key, value in pairs)), judge)
    ctx.case(("parameters", len(pairs), len(want), min(room - size, 3), size // 50))


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("codec",)) + "/codec"
    first = [True]

    def make(batch):
        if first[0]:
            first[0] = False
            # every byte and every pair of bytes, every invalid length
            for value in range(256):
                one(ctx, rng, batch, bytes([value]), "byte")
            for value in range(0, 65536, 1 if ctx.tier == "thorough" else 41):
                one(ctx, rng, batch, bytes([value >> 8, value & 255]), "pair")
            for size in range(0, 200):
                one(ctx, rng, batch, rng.randbytes(size), "size")
                if size % 4:
                    batch.add("b64 dec " + hexa(b"A" * size), "error")
        for _ in range(60):
            size = rng.choice([0, 1, 2, 3, 4, 5, 16, 63, 64, 65, 1000, 5000])
            alphabet = rng.choice([bytes(range(256)), b"abc %+", b"\0\xff", b"user:pass"])
            one(ctx, rng, batch, bytes(rng.choice(alphabet) for _ in range(size)), "random")
        for _ in range(200):
            hostile(ctx, rng, batch)
        for _ in range(60):
            parameters(ctx, rng, batch)
    rounds(ctx, driver, "encodings", make, ctx.n(70, 1600))
