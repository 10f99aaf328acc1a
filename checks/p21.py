"""P21: lists behave like sequences."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one operation on a list whose effect is compared with a model; distinct by (kind, operation, size of the list, position)"
ASSUMPTIONS = ["positions are within the list and array lists stay within the capacity they were created with"]


def spaced(values):
    return "[" + "".join("%s " % v for v in values) + "]"


def linked(ctx, rng, batch, slot, operations):
    model = []
    batch.add("ll new %d" % slot)
    low = rng.random() < 0.5
    for _ in range(operations):
        value = rng.randrange(1, 12) if low else rng.randrange(1, 10 ** 9)
        ops = ["app", "app", "front", "at", "at", "rmv", "pop", "poptop", "peek", "peektop", "seq", "dump"]
        if model:
            ops += ["rmi", "rmi", "get", "get"]
        op = rng.choice(ops)
        if rng.random() < 0.005:
            op = "clear"
        if rng.random() < 0.02:
            op = "sort"
        size = len(model)
        position = None
        if op == "app":
            batch.add("ll app %d %d" % (slot, value))
            model.append(value)
        elif op == "front":
            batch.add("ll front %d %d" % (slot, value))
            model.insert(0, value)
        elif op == "at":
            position = rng.choice([0, size, rng.randrange(size + 1), rng.randrange(size + 1)])
            batch.add("ll at %d %d %d" % (slot, position, value))
            model.insert(position, value)
        elif op == "rmv":
            if model and rng.random() < 0.7:
                value = rng.choice(model)
            batch.add("ll rmv %d %d" % (slot, value))
            if value in model:
                position = model.index(value)
                model.remove(value)
        elif op == "rmi":
            position = rng.choice([0, size - 1, rng.randrange(size)])
            batch.add("ll rmi %d %d" % (slot, position))
            del model[position]
        elif op == "get":
            position = rng.choice([0, size - 1, rng.randrange(size)])
            batch.add("ll get %d %d" % (slot, position), str(model[position]))
        elif op == "pop":
            batch.add("ll pop %d" % slot, str(model.pop(0) if model else 0))
        elif op == "poptop":
            batch.add("ll poptop %d" % slot, str(model.pop() if model else 0))
        elif op == "peek":
            batch.add("ll peek %d" % slot, str(model[0] if model else 0))
        elif op == "peektop":
            batch.add("ll peektop %d" % slot, str(model[-1] if model else 0))
        elif op == "clear":
            batch.add("ll clear %d" % slot)
            model = []
        elif op == "sort":
            values = sorted(model)
            if low:
                # the comparison sees thousands only: any order is right, nothing may be lost
                batch.add("ll sort %d" % slot)
                batch.add("ll seq %d" % slot, lambda got, values=values: None if sorted(map(int, got.strip("[]").split())) == values else "contents %r, expected %r" % (got, values))
                for _ in range(len(model)):
                    batch.add("ll pop %d" % slot, lambda got: None)
                batch.add("ll pop %d" % slot, "0")
                model = []
            elif len({v // 1000 for v in model}) == len(model):
                batch.add("ll sort %d" % slot)
                model = values
        elif op == "seq":
            batch.add("ll seq %d" % slot, spaced(model))
        if op == "dump" or rng.random() < 0.3:
            batch.add("ll dump %d" % slot, "%s%s %d %s" % (spaced(model), spaced(model), len(model), spaced(model[::-1])))
        ctx.case(("linked", op, size if size < 12 else 12 + size // 20, position if size < 12 else None))
    ctx.top("longest_list", len(model))
    batch.add("ll del %d" % slot)


def array(ctx, rng, batch, slot, operations):
    width = rng.choice([1, 2, 4, 8, 8, 16, 24, 100])
    asked = rng.choice([0, 1, 2, 10, 100, 3000])
    box = {}

    def capacity(got):
        box["size"] = int(got)
        if int(got) < max(asked, 1):
            return "capacity %s of a list created with %d" % (got, asked)
        return None
    batch.add("al new %d %d %d" % (slot, width, asked), capacity)
    top = asked or 8
    model = {}
    for _ in range(operations):
        index = rng.choice([0, top - 1, rng.randrange(top), rng.randrange(top)])
        if rng.random() < 0.5 or index not in model:
            model[index] = rng.randbytes(width)
            batch.add("al set %d %d %s" % (slot, index, hexa(model[index])))
        else:
            batch.add("al get %d %d" % (slot, index), hexa(model[index]))
        ctx.case(("array", width, asked, index in model))
    for index in model:
        batch.add("al get %d %d" % (slot, index), hexa(model[index]))
    batch.add("al del %d" % slot)


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("structs",)) + "/structs"

    def make(batch):
        for slot in range(12):
            linked(ctx, rng, batch, slot, rng.choice([5, 30, 200, 600]))
        for slot in range(6):
            array(ctx, rng, batch, slot, rng.choice([5, 60, 300]))
    rounds(ctx, driver, "lists", make, ctx.n(150, 3000))
