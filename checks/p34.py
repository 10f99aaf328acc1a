"""P34: the memory pool never gives the same memory twice."""
from build import build
from libdrive import rounds

LEVEL = "exploration"
RULE = "a case is one history of a pool; distinct by (item size, orders of release used, chunks at the peak, times emptied, allocations)"
ASSUMPTIONS = ["every item of a pool has the same size", "one thread uses a pool at a time"]
CHUNK = 10240


def run(ctx):
    rng = ctx.rng
    driver = build("mpool", (), ("pool",)) + "/pool"

    def make(batch):
        for _ in range(4):
            size = rng.choice([1, 8, 24, 40, 100])
            batch.add("new %d %d" % (size, rng.randrange(1 << 30)), "", "new")
            live, peak, orders, emptied, made = 0, 0, set(), 0, 0
            for _ in range(rng.choice([5, 15, 40])):
                if rng.random() < 0.55 or live == 0:
                    amount = rng.choice([1, 2, 10, 100, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, CHUNK - live % CHUNK, max(1, CHUNK - live % CHUNK - 1)])
                    if live + amount > 6 * CHUNK:
                        amount = 1
                    batch.add("alloc %d" % amount, "", "alloc")
                    live += amount
                    made += amount
                    peak = max(peak, live)
                else:
                    how = rng.choice(["last", "first", "middle", "random", "random"])
                    amount = rng.choice([1, 2, 5, 50, live // 2, live, max(1, live - 1), live % CHUNK + 1])
                    if how in ("first", "middle"):
                        amount = min(amount, 3000)
                    batch.add("free %s %d" % (how, amount), "", "free")
                    live = max(0, live - amount)
                    orders.add(how)
                    emptied += live == 0

                def judge(answer, live=live, peak=peak):
                    try:
                        count, chunks, high = [int(item) for item in answer.split()]
                    except ValueError:
                        return answer
                    if count != live or high != peak:
                        return "%d items, expected %d" % (count, live)
                    # the number of chunks doubles: never more than twice what was needed
                    if chunks > 2 * ((peak + CHUNK - 1) // CHUNK):
                        return "%d chunks for %d items at most" % (chunks, peak)
                    return None
                batch.add("check", judge, "check")
                ctx.count("checkpoints")
            batch.add("end", "", "end")
            ctx.count("allocations", made)
            ctx.case((size, tuple(sorted(orders)), (peak + CHUNK - 1) // CHUNK, min(emptied, 3), made.bit_length()))
    rounds(ctx, driver, "pool", make, ctx.n(30, 1500))
