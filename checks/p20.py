"""P20: maps behave like maps."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one operation on a map whose answer is compared with a model; distinct by (kind of map, operation, size of the map, result)"
ASSUMPTIONS = ["a map is keyed either by integers or by strings", "a NULL value is the absence of the key for reading"]


def string_key(rng, pool):
    roll = rng.random()
    if roll < 0.5 and pool:
        return rng.choice(pool)
    if roll < 0.6 and pool:
        base = rng.choice(pool)
        return (base + bytes([rng.randrange(1, 256)])) if rng.random() < 0.5 else base[:-1]
    size = rng.choice([0, 1, 1, 2, 3, 8, 30, 200])
    alphabet = rng.choice([b"ab", b"abcdefghijklmnop", bytes(range(1, 256))])
    return bytes(rng.choice(alphabet) for _ in range(size))


def int_key(rng, pool):
    roll = rng.random()
    if roll < 0.5 and pool:
        return rng.choice(pool)
    return rng.choice([rng.randrange(8), rng.randrange(3000), rng.randrange(50) * 1024, rng.randrange(50) * 4096 + 1023, rng.randrange(2 ** 64), 2 ** 64 - 1 - rng.randrange(4), rng.randrange(40) * 16 + 3])


def one_map(ctx, rng, batch, slot, group, textual, operations, size):
    model, order, pool = {}, [], []
    batch.add("%s new %d %d" % (group, slot, size))
    suffix = "s" if textual else ""
    for _ in range(operations):
        roll = rng.random()
        key = string_key(rng, pool) if textual else int_key(rng, pool)
        shown = hexa(key) if textual else str(key)
        if roll < 0.5:
            value = rng.choice([0, 1, rng.randrange(1, 10 ** 6), 2 ** 63]) if rng.random() < 0.2 else rng.randrange(1, 10 ** 9)
            batch.add("%s set%s %d %s %d" % (group, suffix, slot, shown, value))
            if key not in model:
                order.append(key)
                pool.append(key)
            model[key] = value
        elif roll < 0.97:
            batch.add("%s get%s %d %s" % (group, suffix, slot, shown), str(model.get(key, 0)))
        elif roll < 0.985:
            items = ["%s:%d" % (hexa(k) if textual else k, model[k]) for k in order]
            if group == "sm":
                text = "[" + "".join(i + " " for i in items) + "]"
                batch.add("%s iter %d" % (group, slot), text + text)
            else:
                batch.add("%s iter %d" % (group, slot), lambda got, items=sorted(items): check_items(got, items))
        elif not textual:
            keys = [str(k) for k in order]
            if group == "sm":
                batch.add("%s keys %d" % (group, slot), "[" + "".join(k + " " for k in keys) + "]")
            else:
                batch.add("%s keys %d" % (group, slot), lambda got, keys=sorted(keys): None if sorted(got.strip("[]").split()) == keys else "keys %r, expected %r" % (got[:300], keys[:20]))
        ctx.case((group, textual, int(roll * 10), len(model), key in model))
    ctx.top("largest_map", len(model))
    if group == "hm":
        batch.add("hm size %d" % slot, str(len(model)))
    batch.add("%s del %d" % (group, slot))


def check_items(got, items):
    halves = got.strip("[]").split("][")
    for half in (halves if len(halves) == 2 else halves + [""]):
        if sorted(half.split()) != items:
            return "elements %r, expected %r" % (half[:300], items[:20])
    return None


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("structs",)) + "/structs"

    def make(batch):
        for slot in range(8):
            one_map(ctx, rng, batch, slot, rng.choice(["hm", "sm"]), rng.random() < 0.5, rng.choice([10, 100, 1000, 2500]), rng.choice([0, 0, 1, 2, 3, 7, 64, 1000]))
        batch.add("hm values %d %d" % (rng.choice([0, 1, 5]), rng.randrange(500)))

    def large(batch):
        """A map that outgrows its initial size more than once, then is read whole."""
        for slot, group in enumerate(["hm", "sm"]):
            textual = rng.random() < 0.5
            model = {}
            start, step = rng.randrange(10 ** 6), rng.choice([1, 7, 64, 1024, 4097])
            batch.add("%s new %d 0" % (group, slot))
            for index in range(rng.choice([800, 2000, 5000])):
                key = start + index * step
                model[key] = index + 1
                batch.add("%s set%s %d %s %d" % (group, "s" if textual else "", slot, hexa(b"%d" % key) if textual else key, index + 1))
            for key in model:
                batch.add("%s get%s %d %s" % (group, "s" if textual else "", slot, hexa(b"%d" % key) if textual else key), str(model[key]))
            ctx.top("largest_map", len(model))
            ctx.case((group, textual, "large", len(model), step))
            batch.add("%s del %d" % (group, slot))

    rounds(ctx, driver, "maps", make, ctx.n(100, 1200)) and rounds(ctx, driver, "maps", large, ctx.n(6, 120))
