"""P26: the RC4 cipher."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one message ciphered and compared with the reference; distinct by (operation, size of the key, size of the message)"
ASSUMPTIONS = ["keys are not empty; messages given to crypt_rc4 have no null bytes"]


def rc4(key, data):
    box = list(range(256))
    x = 0
    for i in range(256):
        x = (x + box[i] + key[i % len(key)]) & 255
        box[i], box[x] = box[x], box[i]
    x = y = 0
    out = bytearray()
    for byte in data:
        x = (x + 1) & 255
        y = (y + box[x]) & 255
        box[x], box[y] = box[y], box[x]
        out.append(byte ^ box[(box[x] + box[y]) & 255])
    return bytes(out)


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("codec",)) + "/codec"

    def make(batch):
        for _ in range(60):
            key = bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 5, 16, 32, 255, 256, 300])))
            size = rng.choice([0, 1, 2, 255, 256, 257, 600, 3000])
            op = rng.choice(["crypt", "stream", "inplace", "back"])
            if op == "crypt":
                data = bytes(rng.randrange(1, 256) for _ in range(size))
                batch.add("rc4 crypt %s %s" % (hexa(key), hexa(data)), hexa(rc4(key, data)))
            else:
                data = rng.randbytes(size)
                out = rc4(key, data)
                if op == "back":
                    data, out = out, data
                cuts = " ".join(str(rng.randrange(0, 400)) for _ in range(rng.randrange(6)))
                batch.add("rc4 %s %s %s %s" % (rng.choice(["stream", "inplace"]), hexa(key), hexa(data), cuts), hexa(out))
            ctx.case((op, len(key), size))
    assert rc4(b"Key", b"Plaintext").hex() == "bbf316e8d940af0ad3"
    rounds(ctx, driver, "rc4", make, ctx.n(100, 3000))
