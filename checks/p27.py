"""P27: Huffman coding gives the same contents back."""
import collections
import heapq
import os
import shutil
import tempfile

from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one text coded, decoded with the tree and with the table and compared; distinct by (kind, size, number of symbols, longest code)"
ASSUMPTIONS = ["the same table is used for coding and decoding", "files can be opened"]


def optimal(counts):
    """Bits of an optimal prefix code (two symbols at least)."""
    heap = list(counts)
    heapq.heapify(heap)
    total = 0
    while len(heap) > 1:
        both = heapq.heappop(heap) + heapq.heappop(heap)
        total += both
        heapq.heappush(heap, both)
    return total


def judge_code(ctx, data, kind):
    counts = collections.Counter(data)

    def judge(got):
        words = got.split(" ")
        size, bits, lengths = int(words[0]), int(words[1]), {}
        for part in words[2].split(","):
            if part:
                symbol, length = part.split(":")
                lengths[int(symbol)] = int(length)
        if set(lengths) != set(counts):
            return "codes for %d symbols, %d are present" % (len(lengths), len(counts))
        if words[3:5] != ["same0", "same0"]:
            return "decoded by tree and table: %s (number is how often the output was left open)" % words[3:5]
        if words[5:] != ["0", "0"]:
            return "streams left open: %s" % words[5:]
        if sum(counts[s] * n for s, n in lengths.items()) != bits:
            return "%d bits announced, codes take %d" % (bits, sum(counts[s] * n for s, n in lengths.items()))
        if size != (bits + 7) // 8:
            return "%d bytes of code for %d bits" % (size, bits)
        if len(counts) > 1 and bits != optimal(counts.values()):
            return "%d bits, an optimal code takes %d" % (bits, optimal(counts.values()))
        ctx.top("longest_code", max(lengths.values(), default=0))
        ctx.case((kind, len(data), len(counts), max(lengths.values(), default=0)))
        return None
    return judge


def fibonacci(rng, count):
    out, a, b = bytearray(), 1, 1
    symbols = rng.sample(range(256), count)
    for symbol in symbols:
        out += bytes([symbol]) * a
        a, b = b, a + b
    return shuffle(rng, out)


def shuffle(rng, data):
    data = list(data)
    rng.shuffle(data)
    return bytes(data)


def text(rng):
    kind = rng.choice(["empty", "one", "two", "uniform", "geometric", "text", "runs", "fibonacci", "all", "boundary", "boundary"])
    size = rng.choice([1, 2, 3, 7, 8, 9, 100, 4095, 4096, 4097, 9000, 20000])
    if kind == "empty":
        data = b""
    elif kind == "one":
        data = bytes([rng.randrange(256)]) * size
    elif kind == "two":
        pair = rng.sample(range(256), 2)
        data = bytes(pair) + bytes(pair[rng.random() < 0.02] for _ in range(size))
    elif kind == "uniform":
        data = rng.randbytes(size)
    elif kind == "geometric":
        data = bytes(min(255, int(rng.expovariate(rng.choice([0.2, 1.0])))) for _ in range(size))
    elif kind == "text":
        data = b"".join(rng.choice([b"the ", b"quick ", b"brown ", b"fox ", b"\r\n"]) for _ in range(size // 4 + 1))
    elif kind == "runs":
        data = b"".join(bytes([rng.randrange(256)]) * rng.randrange(1, 300) for _ in range(size // 100 + 1))
    elif kind == "fibonacci":
        data = fibonacci(rng, rng.randrange(3, 21))
    elif kind == "all":
        data = shuffle(rng, bytes(range(256)) * rng.choice([1, 2, 20]))
    else:
        # long codes and very short ones around the limits of the buffers
        data = fibonacci(rng, rng.randrange(10, 17))
        data = data[:rng.randrange(len(data))] + bytes([data[0]]) * rng.randrange(70000) + data
    return kind, data


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("codec",)) + "/codec"

    def make(batch):
        for _ in range(15):
            kind, data = text(rng)
            most = rng.choice([0, 0, 1, 7, 100, 4096])
            if most == 1 and len(data) > 20000:
                most = 0
            # a stream that gives less than asked is only the end when it gives nothing
            batch.add("huff %s %d" % (hexa(data), most), judge_code(ctx, data, kind), "huff " + kind)

    if not rounds(ctx, driver, "huffman", make, ctx.n(40, 800)):
        return
    folder = tempfile.mkdtemp(prefix="verif-huff-")
    try:
        expected = []

        def over_files(batch):
            for index in range(12):
                kind, data = text(rng)
                paths = [os.path.join(folder, "%s%d" % (name, index)) for name in ("in", "code", "out")]
                with open(paths[0], "wb") as handle:
                    handle.write(data)
                expected.append((paths[2], data, kind))
                batch.add("hufffile %s %d" % (" ".join(hexa(p.encode()) for p in paths), rng.randrange(2)), "done", "hufffile " + kind)
        for _ in range(ctx.n(3, 60)):
            del expected[:]
            if not rounds(ctx, driver, "huffman files", over_files, 1):
                return
            for path, data, kind in expected:
                with open(path, "rb") as handle:
                    got = handle.read()
                ctx.case(("file", kind, len(data)))
                if got != data:
                    ctx.violation("huffman-file:" + kind, "a file of %d bytes (%s) came back with %d bytes or other contents" % (len(data), kind, len(got)), data=data[:4000].hex())
                    return
    finally:
        shutil.rmtree(folder, ignore_errors=True)
