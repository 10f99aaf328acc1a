"""P02: responses do not depend on the segmentation of the requests."""
import random
import re
import socket
import threading
import time

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from p03 import History, make_site, one_request
from website import content

LEVEL = "exploration"
RULE = ("a case is one segmentation of one stream of requests, every segment read by the server before the next one is sent (a control exchange on "
        "another connection proves a turn of its event loop); the bytes answered are compared with those of the unsegmented stream and the model; "
        "distinct by (stream, cut positions)")
ASSUMPTIONS = ["streams end with a request without keep alive, so that the answers end with the connection"]


def small_history(rng, site):
    """A short stream, every request of it valid; the last one closes."""
    for _ in range(200):
        h = History(rng, site, rng.choice([1, 1, 2, 3, 4]))
        if not h.closing:
            continue
        if len(h.data) <= 2600 and sum(len(i[2]["body"] or b"") for i in h.items if i[0] != b"HEAD") < 300000:
            return h
    return None


class Batch:
    """Many connections advanced in lockstep."""

    def __init__(self, server, control):
        self.server, self.control = server, control

    def turn(self):
        """Two exchanges on the control connection: whatever was sent before
        has been read by the event loop afterwards."""
        for _ in range(2):
            self.control.send(b"GET /one HTTP/1.1\r\nConnection: keep-alive\r\n\r\n")
            self.control.read_response()

    def run(self, plans):
        """plans: [(data, cuts)], returns the answered bytes (or exception)."""
        conns = []
        for data, cuts in plans:
            conns.append(Conn(self.server.port, timeout=60))
        pieces = []
        for data, cuts in plans:
            edges = [0] + list(cuts) + [len(data)]
            pieces.append([data[a:b] for a, b in zip(edges, edges[1:])])
        turns = max(len(p) for p in pieces)
        early = {}
        for r in range(turns):
            for i, p in enumerate(pieces):
                if r < len(p):
                    try:
                        conns[i].send(p[r])
                    except Closed as error:
                        early[i] = "closed before the whole stream was sent"
            if r < turns - 1:
                self.turn()
        out = []
        for i, conn in enumerate(conns):
            try:
                out.append(conn.read_eof(60))
            except Late as error:
                out.append(error)
            conn.close()
        return out


def plans_for(ctx, rng, data):
    size = len(data)
    out = []
    limit = ctx.n(420, 2700)
    singles = list(range(1, size))
    if len(singles) > limit:
        rng.shuffle(singles)
        singles = sorted(singles[:limit])
    out += [[c] for c in singles]
    for _ in range(ctx.n(60, 300)):
        k = min(size - 1, rng.choice([2, 2, 3, 4, 8, 20]))
        out.append(sorted(rng.sample(range(1, size), k)))
    # runs of single bytes around interesting places, and the whole stream in
    # tiny segments
    for _ in range(ctx.n(6, 20)):
        start = rng.randrange(1, size)
        out.append(list(range(start, min(size, start + rng.choice([5, 20, 60])))))
    if size < 900:
        out.append(list(range(1, size)))
        out.append(list(range(2, size, 2)))
    out.append(list(range(7, size, 7)))
    return out


def run(ctx):
    rng = ctx.rng
    for index in range(ctx.n(30, 200)):
        backend = "select" if index % 3 == 2 else "asan"
        out = build(backend)
        site = make_site(rng, rng.random() < 0.2)
        try:
            with serving(ctx, out, site.ini(), backend, files=site.files) as server:
                for _ in range(ctx.n(4, 8)):
                    session(ctx, rng, server, site, backend)
        except Skip:
            pass
        except (Closed, Late) as error:
            ctx.unsure("control connection: %s" % error)
        if ctx.late():
            break


def session(ctx, rng, server, site, label):
    history = small_history(rng, site)
    if history is None:
        return
    data = history.data
    context = {"data": data, "requests": [(m, t, b) for m, t, _e, _k, b in history.items]}
    try:
        control = Conn(server.port, timeout=60)
        batch = Batch(server, control)
        reference = batch.run([(data, [])])[0]
    except (Closed, Late, OSError):
        alive_or_report(ctx, server, label, context)
        raise Skip()
    if isinstance(reference, Late):
        alive_or_report(ctx, server, label, context)
        ctx.stuck("reference: %s" % reference, **context)
        return
    problem = against_model(history, reference)
    if problem:
        ctx.violation("unsegmented:%s" % re.sub(r"b?'.*?'|\d+", "N", problem)[:60], problem, **context)
        return
    plans = plans_for(ctx, rng, data)
    rng.shuffle(plans)
    try:
        for start in range(0, len(plans), 48):
            group = plans[start:start + 48]
            results = batch.run([(data, cuts) for cuts in group])
            for cuts, got in zip(group, results):
                ctx.case((data, tuple(cuts)))
                ctx.count("segments", len(cuts) + 1)
                ctx.count("segmentations_single" if len(cuts) == 1 else "segmentations_multi")
                if got != reference:
                    verdict(ctx, server, batch, history, data, cuts, got, reference, label, context)
    except (Closed, Late, OSError) as error:
        alive_or_report(ctx, server, label, context)
        ctx.unsure("batch: %s" % error)
        raise Skip()
    finally:
        control.close()
    ctx.sample({"requests": context["requests"], "bytes": len(data), "segmentations": len(plans)})


def verdict(ctx, server, batch, history, data, cuts, got, reference, label, context):
    alive_or_report(ctx, server, label, dict(context, cuts=cuts))
    again = batch.run([(data, cuts)])[0]
    if again == reference and isinstance(got, Late):
        ctx.stuck("late answer, not repeated: %s" % got, **context)
        return
    what = "no complete answer (%s, %d bytes)" % (got, len(got.partial)) if isinstance(got, Late) else \
        "%d bytes, unsegmented %d, first difference at %d" % (
            len(got), len(reference), next((i for i, (a, b) in enumerate(zip(got, reference)) if a != b), min(len(got), len(reference))))
    where = [data[max(0, c - 8):c].decode("latin-1") + "|" + data[c:c + 8].decode("latin-1") for c in cuts[:3]]
    inside = "body"
    for i, mark in enumerate(history.marks):
        if cuts and cuts[0] < mark:
            start = history.marks[i - 1] if i else 0
            head = data.find(b"\r\n\r\n", start)
            line = data.find(b"\r\n", start)
            inside = "line" if cuts[0] <= line else "head" if cuts[0] < head + 4 else "body-" + history.items[i][4]
            break
    ctx.violation("differs:%s:%s" % (inside, "late" if isinstance(got, Late) else "bytes"),
                  "cuts %s (%s): %s" % (cuts[:10], where, what), cuts=cuts, got=got if isinstance(got, bytes) else str(got), reference=reference, **context)


class Replay(Conn):
    """Parses bytes already received."""

    def __init__(self, data):
        self.buffer, self.timeout, self.eof, self.received = data, 0, True, len(data)


def against_model(history, data):
    stream = Replay(data)
    for i, (method, target, expected, keep, coding) in enumerate(history.items):
        try:
            response = stream.read_response(head=method == b"HEAD")
        except (Closed, Malformed) as error:
            return "response %d: %s" % (i, error)
        diff = compare(expected, response, method == b"HEAD")
        if diff:
            return "response %d: %s" % (i, "; ".join(diff))
    if stream.buffer:
        return "%d bytes after the last response" % len(stream.buffer)
    return None
