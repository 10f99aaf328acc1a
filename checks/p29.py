"""P29: bencoding gives values back and survives malformed buffers."""
import sys

from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one value or buffer coded or decoded and compared with the reference; distinct by (operation, kind of value, size, depth)"
ASSUMPTIONS = ["integers have 32 bits and keys are texts without null bytes", "maps are given back in the order they were coded (sort maps)",
               "what follows the first complete value of a buffer is ignored", "malformed buffers may give an error or some value, within memory",
               "nesting of up to 1000 levels"]


def klass(value):
    return value if value < 10 else 10 + value.bit_length()


def value(rng, depth):
    kind = rng.choice("iisssLS" if depth > 0 else "is")
    if kind == "i":
        return rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randrange(-10**6, 10**6)])
    if kind == "s":
        return rng.randbytes(rng.choice([0, 0, 1, 2, 9, 10, 11, 99, 100, 101, rng.randrange(0, 1200)]))
    if kind == "L":
        return [value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
    keys = [bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 1, 2, 5, 30]))) for _ in range(rng.choice([0, 1, 2, 5, 12, 40] if depth < 2 else [0, 1, 2, 5]))]
    return {key: value(rng, depth - 1) for key in keys}


class Unordered(dict):
    """A map whose keys have no order."""


def unordered(rng, item):
    """The value with some of its maps made unordered."""
    if isinstance(item, list):
        return [unordered(rng, part) for part in item]
    if isinstance(item, dict):
        return (Unordered if rng.random() < 0.7 else dict)((key, unordered(rng, part)) for key, part in item.items())
    return item


def matches(text, at, item):
    """The end of the coding of the item in the text, -1 when it is not there."""
    if isinstance(item, Unordered):
        left = dict(item)
        if text[at:at + 1] != b"d":
            return -1
        at += 1
        while left:
            for key in left:
                if text.startswith(coded(key), at):
                    break
            else:
                return -1
            at = matches(text, at + len(coded(key)), left.pop(key))
            if at < 0:
                return -1
        return at + 1 if text[at:at + 1] == b"e" else -1
    if isinstance(item, (list, dict)):
        parts = item if isinstance(item, list) else [part for pair in item.items() for part in pair]
        if text[at:at + 1] != (b"l" if isinstance(item, list) else b"d"):
            return -1
        at += 1
        for part in parts:
            at = matches(text, at, part)
            if at < 0:
                return -1
        return at + 1 if text[at:at + 1] == b"e" else -1
    want = coded(item)
    return at + len(want) if text.startswith(want, at) else -1


def coding_of(item):
    def judge(got):
        try:
            data = bytes.fromhex("" if got == "-" else got)
        except ValueError:
            return "no coding"
        return None if matches(data, 0, item) == len(data) else "the coding is not the one of the value, up to the order of the keys"
    return judge


def prefix(item):
    """The form in which drivers take values."""
    if isinstance(item, int):
        return "i %d" % item
    if isinstance(item, bytes):
        return "s " + hexa(item)
    if isinstance(item, list):
        return " ".join(["L %d" % len(item)] + [prefix(part) for part in item])
    return " ".join(["%s %d" % ("M" if isinstance(item, Unordered) else "S", len(item))] + [hexa(key) + " " + prefix(part) for key, part in item.items()])


def shown(item):
    if isinstance(item, int):
        return "i%d" % item
    if isinstance(item, bytes):
        return "s" + hexa(item)
    if isinstance(item, list):
        return "[" + "".join(shown(part) + "," for part in item) + "]"
    return "{" + "".join(hexa(key) + ":" + shown(part) + "," for key, part in item.items()) + "}"


def coded(item):
    if isinstance(item, int):
        return b"i%de" % item
    if isinstance(item, bytes):
        return b"%d:" % len(item) + item
    if isinstance(item, list):
        return b"l" + b"".join(coded(part) for part in item) + b"e"
    return b"d" + b"".join(coded(key) + coded(part) for key, part in item.items()) + b"e"


def depth_of(item):
    if isinstance(item, list):
        return 1 + max([depth_of(part) for part in item], default=0)
    if isinstance(item, dict):
        return 1 + max([depth_of(part) for part in item.values()], default=0)
    return 0


def damaged(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4])):
        how = rng.randrange(6)
        at = rng.randrange(len(data) + 1)
        if how == 0:
            del data[at:]
        elif how == 1:
            del data[at:at + rng.choice([1, 2, 5])]
        elif how == 2:
            data[at:at] = rng.choice([b"e", b"i", b"l", b"d", b":", b"0", b"9", b"-", b"99999999999999999999:", b"0:", b" ", rng.randbytes(1)])
        elif how == 3 and at < len(data):
            data[at] = rng.choice(list(b"ield:0123456789-") + [rng.randrange(256)])
        elif how == 4:
            data[at:at] = bytes(data[:rng.randrange(1, 30)])
        else:
            data += rng.choice([b"e", b"ee", b"i1", b"5:ab", b"d", b"l"])
    return bytes(data)


def run(ctx):
    sys.setrecursionlimit(20000)
    rng = ctx.rng
    driver = build("asan", (), ("formats",)) + "/formats"

    def make(batch):
        for _ in range(120):
            item = value(rng, rng.choice([0, 0, 1, 2, 3, 4]))
            text = coded(item)
            where = rng.choice(["", "", "f"])
            batch.add("ben enc%s %s" % (where, prefix(item)), hexa(text))
            batch.add("ben dec%s %s" % (where, hexa(text)), shown(item))
            # what follows a complete value is not part of it
            batch.add("ben dec %s" % hexa(text + rng.choice([b"e", b"i5e", b"le", b"3:abc", b"x", b" "])), shown(item))
            ctx.case(("value", type(item).__name__, klass(len(text)), depth_of(item), where))
        for _ in range(20):
            item = unordered(rng, value(rng, rng.choice([1, 2, 3, 4])))
            where = rng.choice(["", "", "f"])
            batch.add("ben enc%s %s" % (where, prefix(item)), coding_of(item))
            ctx.case(("unordered", klass(len(coded(item))), depth_of(item), where))
        for _ in range(20):
            text = coded(value(rng, rng.choice([0, 1, 2, 3, 4])))
            for at in {0, 1, len(text) - 1} | {rng.randrange(len(text)) for _ in range(4)}:
                batch.add("ben dec%s %s" % (rng.choice(["", "", "f"]), hexa(text[:at])), "error")
                ctx.case(("prefix", klass(at), klass(len(text) - at), text[:1]))
        # repeated keys: the last value
        key = rng.randbytes(3).replace(b"\0", b"k")
        batch.add("ben dec %s" % hexa(b"d" + b"".join(coded(key) + coded(v) for v in (1, [b"x", {}], b"last")) + b"e"), shown({key: b"last"}))
        for _ in range(2):
            deep = rng.randrange(1, 1000)
            item = value(rng, 1)
            for _ in range(deep):
                item = [item] if rng.random() < 0.6 else {b"k": item}
            batch.add("ben enc " + prefix(item), hexa(coded(item)))
            batch.add("ben dec " + hexa(coded(item)), shown(item))
            ctx.case(("deep", klass(deep)))
        for _ in range(150):
            data = damaged(rng, coded(value(rng, rng.choice([0, 1, 2, 3]))))
            where = rng.choice(["", "", "f"])
            # only memory is watched here
            batch.add("ben dec%s %s" % (where, hexa(data)), lambda answer: None)
            ctx.case(("damaged", klass(len(data)), where, data[:1]))
        for _ in range(40):
            data = bytes(rng.choice(b"ield:0123e") for _ in range(rng.randrange(0, 40)))
            batch.add("ben dec %s" % hexa(data), lambda answer: None)
            ctx.case(("noise", klass(len(data)), data[:2]))
    rounds(ctx, driver, "bencoding", make, ctx.n(100, 3000))
