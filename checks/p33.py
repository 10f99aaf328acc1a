"""P33: the thread pool runs every task exactly once."""
from build import build
from libdrive import Batch, judge

LEVEL = "exploration"
RULE = "a case is one pool run to the end; distinct by (variant, kind of workload, threads, producers, amount, delays, spurious wakes, peak of tasks at the same time)"
ASSUMPTIONS = ["tasks end", "pools are not deleted while their threads wait (there is no way to end the threads)"]


def run(ctx):
    rng = ctx.rng
    drivers = {variant: build(variant, (), ("threads",)) + "/threads" for variant in ("tsan", "asan")}

    def history(variant, mode, threads, producers, amount, delays, spurious):
        batch = Batch()
        seen = {}

        def check(answer):
            try:
                got = dict(item.split("=", 1) for item in answer.split())
                values = {key: int(got[key]) for key in ("given", "run", "different", "peak", "wrong", "settled", "left", "workers")}
            except (ValueError, KeyError):
                return "answered %r" % answer[:200]
            seen.update(values)
            given = amount * (1 if mode == "i" else producers)
            if mode == "n":
                given *= 2
            for name, want in (("given", given), ("run", given), ("different", 0), ("wrong", 0), ("settled", 1), ("left", 0), ("workers", threads)):
                if values[name] != want:
                    return "%s is %d, expected %d (%s)" % (name, values[name], want, answer[:200])
            if values["peak"] > threads:
                return "%d tasks at the same time in a pool of %d threads" % (values["peak"], threads)
            if mode == "b" and values["peak"] != threads:
                return "only %d of %d threads worked at the same time" % (values["peak"], threads)
            if threads == 1 and mode == "p":
                order = list(bytes.fromhex(got["order"]))
                if producers == 1:
                    if order != [index % 256 for index in range(amount)]:
                        return "one thread ran the tasks of one producer out of order: %r" % order[:40]
                else:
                    for number in range(producers):
                        span = 256 // producers
                        mine = [kind for kind in order if kind % producers == number and kind < span * producers]
                        want = [(number + producers * (index % span)) % 256 for index in range(amount)]
                        if mine != want:
                            return "one thread ran the tasks of producer %d out of order: %r" % (number, mine[:40])
            return None
        batch.add("%s %d %d %d %d %d" % (mode, threads, producers, amount, delays, spurious), check, mode)
        good = judge(ctx, drivers[variant], batch, "pool " + variant, timeout=200, leaks=False)
        ctx.case((variant, mode, threads, producers, amount, delays, spurious, seen.get("peak")))
        ctx.count("tasks_run", seen.get("run", 0))
        return good

    for _ in range(ctx.n(60, 2500)):
        mode = rng.choice("pppibn")
        threads = rng.choice([1, 1, 2, 3, 4, 8, 15])
        producers = rng.choice([1, 2, 4, 8])
        amount = rng.choice([1, 10, 100, 1000])
        if mode == "b":
            producers, amount = 1, threads * rng.choice([1, 3, 10])
        if mode == "i":
            producers, amount = 1, rng.choice([10, 100, 400])
        if not history(rng.choice(["tsan", "tsan", "asan"]), mode, threads, producers, amount, rng.choice([0, 1, 3, 7]), rng.random() < 0.5):
            return
        if ctx.late():
            break
