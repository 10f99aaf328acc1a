"""P22: priority queues and sorting."""
from build import build
from libdrive import rounds

LEVEL = "exploration"
RULE = "a case is one push, pop or sort compared with a model; distinct by (operation, size, number of equal priorities)"
ASSUMPTIONS = ["the comparison function is a total preorder"]


def queue(ctx, rng, batch, slot, operations):
    model = []
    spread = rng.choice([1, 2, 5, 1000])
    serial = 0
    growing = rng.choice([0.4, 0.5, 0.7])
    batch.add("pq new %d" % slot)
    for _ in range(operations):
        if rng.random() < growing and serial < 998:
            serial += 1
            value = rng.randrange(spread) * 1000 + serial
            # entries of the same priority leave in the order they entered
            position = len(model)
            while position > 0 and model[position - 1] // 1000 > value // 1000:
                position -= 1
            model.insert(position, value)
            batch.add("pq push %d %d" % (slot, value), str(len(model)))
            ctx.case(("push", len(model), position == len(model) - 1))
        else:
            ctx.case(("pop", len(model), sum(1 for v in model if v // 1000 == model[0] // 1000) if model else 0))
            value = model.pop(0) if model else 0
            batch.add("pq pop %d" % slot, "%d %d" % (value, len(model)))
    if rng.random() < 0.7:
        while model:
            value = model.pop(0)
            batch.add("pq pop %d" % slot, "%d %d" % (value, len(model)))
        batch.add("pq pop %d" % slot, "0 0")
    batch.add("pq del %d" % slot)


def judge_sorted(got, values):
    out = [int(v) for v in got.strip("[]").split()]
    if sorted(out) != sorted(values):
        return "the result is not a permutation of the values: %r" % out[:60]
    for first, second in zip(out, out[1:]):
        if first // 1000 > second // 1000:
            return "%d is before %d" % (first, second)
    return None


def sequence(ctx, rng, batch, size=None):
    size = rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 100, 600]) if size is None else size
    kind = rng.choice(["random", "few", "sorted", "reversed", "equal", "organ", "nearly"])
    if kind == "random":
        values = [rng.randrange(1, 10 ** 12) for _ in range(size)]
    elif kind == "few":
        values = [rng.randrange(4) * 1000 + rng.randrange(1, 1000) for _ in range(size)]
    elif kind == "equal":
        values = [5000 + rng.randrange(1000) for _ in range(size)]
    else:
        values = sorted(rng.randrange(1, 10 ** 7) for _ in range(size))
        if kind == "reversed":
            values.reverse()
        elif kind == "organ":
            values = values[::2] + values[1::2][::-1]
        elif kind == "nearly" and size > 1:
            for _ in range(3):
                i, j = rng.randrange(size), rng.randrange(size)
                values[i], values[j] = values[j], values[i]
    batch.add("sort %d %s" % (size, " ".join(map(str, values))), lambda got, values=values: judge_sorted(got, values), "sort " + kind)
    ctx.case(("sort", kind, size))


def permutations(batch, ctx):
    """All arrays of up to six values out of as many, duplicates included."""
    import itertools
    for size in range(0, 6):
        for values in itertools.product(range(1, size + 1), repeat=size):
            values = [v * 1000 for v in values]
            batch.add("sort %d %s" % (size, " ".join(map(str, values))), "[" + "".join("%d " % v for v in sorted(values)) + "]", "sort all")
    ctx.count("exhaustive_small_sorts", len(batch.lines))


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("structs",)) + "/structs"
    first = [True]

    def make(batch):
        if first[0]:
            first[0] = False
            permutations(batch, ctx)
        for slot in range(10):
            queue(ctx, rng, batch, slot, rng.choice([5, 20, 100, 500]))
        for _ in range(60):
            sequence(ctx, rng, batch)
        # lists are sorted through the same code
        size = rng.choice([0, 1, 2, 50, 300])
        values = [rng.randrange(1, 10 ** 9) for _ in range(size)]
        batch.add("ll new 0")
        for value in values:
            batch.add("ll app 0 %d" % value)
        batch.add("ll sort 0")
        batch.add("ll seq 0", lambda got, values=values: judge_sorted(got, values))
        batch.add("ll del 0")
    rounds(ctx, driver, "order", make, ctx.n(150, 3000))
