"""P11: the reverse proxy relays requests and responses faithfully."""
import random
import re
import socket
import threading
import time
import zlib

from build import build
from client import Closed, Conn, Late, Malformed, parse_head
from drive import Skip, alive_or_report, serving

LEVEL = "exploration"
RULE = ("a case is one request through the proxy whose bytes at the recording upstream and at the client are both compared with what was planned; "
        "distinct by (method, framing of both messages, sizes, segmentation, ending of the upstream, position in the connection)")
ASSUMPTIONS = ["the header X-Viriatum-Proxy is added to both messages", "reason phrases are regenerated and trailers are dropped",
               "the connection of the client is kept when the upstream says 'Connection: keep-alive'",
               "a request that meets an upstream that closes at the same moment may get 502"]
METHODS = [b"GET", b"GET", b"GET", b"POST", b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS"]
STATUSES = [200, 200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 401, 403, 404, 411, 500, 503, 299, 599, 418]
BAD = ("none", "garbage", "midhead", "badchunk")
NAMES = [b"X-Tag", b"Accept", b"Cookie", b"x-lower", b"X_under", b"Content-Type", b"Accept-Encoding", b"C", b"Connectio", b"Conten", b"T", b"Proxy-Auth", b"Upgrade-Insecure", b"X-" + b"n" * 90]


class Plan:
    """What the upstream does with one request."""

    def __init__(self, rng, ident, big):
        self.ident = ident
        self.seed = rng.random()
        self.method = rng.choice(METHODS)
        self.keep = rng.random() < 0.75
        self.ending = "normal"
        roll = rng.random()
        if roll < 0.08:
            self.ending = rng.choice(BAD)
        elif roll < 0.12:
            self.ending = "truncated"
        elif roll < 0.16:
            self.ending = "extra"
        elif roll < 0.20:
            self.ending = "idle"
        # the request
        self.fields = fields(rng, rng.choice([0, 1, 3, 12]))
        self.body = b""
        self.request_framing = "none"
        if self.method in (b"POST", b"PUT"):
            self.body = payload(rng, rng.choice([0, 1, 200, 5000, 70000, big]))
            self.request_framing = rng.choice(["length", "length", "chunked"])
        self.tail = rng.choice([b"", b"/", b"/x", b"/a/b.html", b"?q=1&z=%20", b"/" + b"long" * rng.choice([1, 40, 300]), b"/%41%2f", b"/..;/x", b"//two", b"/a+b=c,d"])
        # the response
        self.status = rng.choice(STATUSES)
        self.version = b"1.1" if rng.random() < 0.9 else b"1.0"
        self.reason = rng.choice([b"OK", b"", b"Some Reason", b"x" * 300])
        self.rfields = fields(rng, rng.choice([0, 1, 4, 15]))
        self.framing = rng.choice(["length", "length", "length", "chunked", "eof"])
        if self.version == b"1.0" and self.framing == "chunked":
            self.framing = "length"
        self.rbody = payload(rng, rng.choice([0, 1, 10, 999, 8192, 30000, 65536, 300000, big]))
        self.interim = rng.choice([0, 0, 0, 0, 0, 0, 1, 2]) if self.version == b"1.1" else 0
        self.bodiless = self.method == b"HEAD" or self.status in (204, 304)
        if self.status in (204, 304) and self.framing == "eof":
            self.framing = "length"
        if self.ending == "truncated" and (self.framing == "eof" or self.bodiless or len(self.rbody) < 2):
            self.ending = "normal"
        if self.ending == "badchunk" and (self.framing != "chunked" or self.bodiless):
            self.ending = "garbage"
        if self.framing == "eof" and not self.bodiless and self.ending in ("extra", "idle"):
            self.ending = "normal"
        if self.ending == "extra":
            self.rbody = self.rbody[:6000]
        self.pace = "once" if self.ending == "extra" else rng.choice(["once", "once", "once", "pieces", "bytes", "slow"])

    @property
    def kept(self):
        """The connection of the client stays open after the response."""
        return self.keep and (self.framing != "eof" or self.bodiless) and self.ending in ("normal", "extra", "idle")

    def head(self):
        out = b""
        for _ in range(self.interim):
            out += b"HTTP/1.1 103 Early Hints\r\nX-Interim: 1\r\n\r\n"
        lines = [b"HTTP/" + self.version + b" %d " % self.status + self.reason]
        lines += [b"X-Id: " + self.ident]
        rng = random.Random(self.seed)
        lines += wire(rng, self.rfields)
        if self.keep:
            lines.append(b"Connection: keep-alive")
        elif rng.random() < 0.5:
            lines.append(b"Connection: close")
        if self.framing == "length" and not (self.status == 204):
            lines.append(b"Content-Length: %d" % len(self.rbody))
        if self.framing == "chunked" and not (self.status == 204):
            lines.append(b"Transfer-Encoding: chunked")
        return out + b"\r\n".join(lines) + b"\r\n\r\n"

    def wire_body(self):
        if self.bodiless:
            return b""
        if self.framing != "chunked":
            return self.rbody
        return chunks(random.Random(self.seed), self.rbody, trailers=True)

    def request(self, path):
        rng = random.Random(self.seed)
        lines = [self.method + b" " + path + self.target() + b" HTTP/1.1", b"Host: here", b"X-Id: " + self.ident]
        lines += wire(rng, self.fields)
        lines.append(b"Connection: keep-alive")
        body = self.body
        if self.request_framing == "length":
            lines.append(b"Content-Length: %d" % len(self.body))
        elif self.request_framing == "chunked":
            lines.append(b"Transfer-Encoding: chunked")
            body = chunks(rng, self.body, trailers=False)
        return b"\r\n".join(lines) + b"\r\n\r\n" + body

    def target(self):
        return b"/" + self.ident + self.tail

    def expected_fields(self):
        out = [("X-Viriatum-Proxy", "1"), ("Host", "here"), ("X-Id", self.ident.decode())] + [(n.decode(), v.decode("latin-1")) for n, v in self.fields]
        out.append(("Connection", "keep-alive"))
        if self.request_framing == "length":
            out.append(("Content-Length", str(len(self.body))))
        elif self.request_framing == "chunked":
            out.append(("Transfer-Encoding", "chunked"))
        return out

    def expected_response_fields(self):
        head = self.head().split(b"\r\n\r\n")[self.interim]
        lines = head.split(b"\r\n")[1:]
        out = [("X-Viriatum-Proxy", "1")]
        for line in lines:
            if line[:1] in (b" ", b"\t"):
                name, value = out.pop()
                out.append((name, value + " " + line.strip().decode("latin-1")))
            else:
                name, value = line.split(b":", 1)
                out.append((name.decode(), value.strip().decode("latin-1")))
        return out

    def key(self):
        return (self.method, self.request_framing, len(self.body), self.status, self.framing, len(self.rbody), self.pace, self.ending, self.keep, self.interim)

    def describe(self):
        return {"id": self.ident, "method": self.method, "target": self.target(), "request_framing": self.request_framing, "request_body": len(self.body),
                "status": self.status, "framing": self.framing, "body": len(self.rbody), "pace": self.pace, "ending": self.ending, "keep": self.keep,
                "interim": self.interim, "version": self.version}


def payload(rng, size):
    unit = bytes(rng.randrange(256) for _ in range(min(size, 997)))
    return (unit * (size // max(1, len(unit)) + 1))[:size]


def fields(rng, count):
    out = []
    for _ in range(count):
        name = rng.choice(NAMES)
        size = rng.choice([0, 1, 5, 30, 30, 120, 127, 128, 129, 1000, 1023, 1024, 1025, 4000])
        value = bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789 ,;=:/\"%()\xe9\xff") for _ in range(size)).strip()
        out.append((name, value))
    return out


def wire(rng, pairs):
    out = []
    for name, value in pairs:
        out.append(name + b":" + rng.choice([b" ", b" ", b" ", b"", b"  ", b"\t"]) + value)
    return out


def chunks(rng, body, trailers):
    out, pos = [], 0
    while pos < len(body):
        size = min(len(body) - pos, rng.choice([1, 7, 16, 300, 4096, 65536, 1 << 20]))
        if rng.random() < 0.02 or len(body) > 65536:
            size = min(len(body) - pos, max(size, 30000))
        form = rng.choice([b"%x", b"%X", b"0%x", b"%x;ext=1"])
        out.append(form % size + b"\r\n" + body[pos:pos + size] + b"\r\n")
        pos += size
    out.append(b"0\r\n" + (b"X-Trailer: 1\r\nX-More: 2\r\n" if trailers and rng.random() < 0.4 else b"") + b"\r\n")
    return b"".join(out)


class Upstream:
    """Records every request it gets and answers as planned."""

    def __init__(self, name):
        self.name = name
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(256)
        self.port = self.sock.getsockname()[1]
        self.log, self.problems, self.plans = [], [], {}
        self.accepted = 0
        self.open = 0
        self.lock = threading.Lock()
        self.alive = True
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while self.alive:
            try:
                sock, _address = self.sock.accept()
            except OSError:
                return
            self.accepted += 1
            threading.Thread(target=self.serve, args=(sock, self.accepted), daemon=True).start()

    def stop(self):
        self.alive = False
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def serve(self, sock, number):
        with self.lock:
            self.open += 1
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        sock.settimeout(120)
        try:
            self.exchange(sock, number)
        except OSError:
            pass
        except Exception as error:  # noqa: what arrived is not a request
            self.problems.append("%s: %s" % (type(error).__name__, error))
        finally:
            sock.close()
            with self.lock:
                self.open -= 1

    def exchange(self, sock, number):
        buffer = b""
        while True:
            while b"\r\n\r\n" not in buffer:
                data = sock.recv(262144)
                if not data:
                    # the proxy may go away between the parts of a request it
                    # never announced as complete, but it sends whole requests
                    if buffer:
                        self.problems.append("a request was cut: %r" % buffer[:200])
                    return
                buffer += data
            head, _sep, buffer = buffer.partition(b"\r\n\r\n")
            lines = head.split(b"\r\n")
            m = re.match(rb"^([A-Z]+) (/[^ ]*) HTTP/1\.1$", lines[0])
            if not m:
                raise ValueError("request line %r" % lines[0][:200])
            _v, _s, _r, pairs = parse_head(b"HTTP/1.1 200 OK\r\n" + b"\r\n".join(lines[1:]))
            values = {k.lower(): v for k, v in pairs}
            body = b""
            if values.get("transfer-encoding") == "chunked":
                while True:
                    while b"\r\n" not in buffer:
                        buffer += self.more(sock)
                    line, _sep, buffer = buffer.partition(b"\r\n")
                    if not re.match(rb"^[0-9a-fA-F]+$", line):
                        raise ValueError("chunk size %r" % line[:100])
                    size = int(line, 16)
                    while len(buffer) < size + 2:
                        buffer += self.more(sock)
                    if buffer[size:size + 2] != b"\r\n":
                        raise ValueError("end of chunk %r" % buffer[size:size + 2])
                    body += buffer[:size]
                    buffer = buffer[size + 2:]
                    if size == 0:
                        break
            elif "content-length" in values:
                size = int(values["content-length"])
                parts, have = [buffer], len(buffer)
                while have < size:
                    parts.append(self.more(sock))
                    have += len(parts[-1])
                data = b"".join(parts)
                body, buffer = data[:size], data[size:]
            ident = m.group(2)[1:].split(b"/")[0].split(b"?")[0]
            plan = self.plans.get(ident)
            with self.lock:
                self.log.append((ident, m.group(1), m.group(2), pairs, body, number))
            if plan is None:
                raise ValueError("unknown request %r" % m.group(2)[:100])
            if not self.answer(sock, plan):
                return

    @staticmethod
    def more(sock):
        data = sock.recv(262144)
        if not data:
            raise ValueError("the request ended before its body")
        return data

    def answer(self, sock, plan):
        rng = random.Random(plan.seed)
        if plan.ending == "none":
            return False
        if plan.ending == "garbage":
            sock.sendall(rng.choice([b"\x00\xff\x00garbage\r\n\r\n", b"SSH-2.0-OpenSSH\r\n", b"HTTP/a.b 200\r\n\r\n", b"HTTP/1.1 2x0 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\n\x01bad: 1\r\n\r\n"]))
            time.sleep(rng.choice([0, 0.05]))
            return False
        head, body = plan.head(), plan.wire_body()
        if plan.ending == "midhead":
            sock.sendall(head[:rng.randrange(0, len(head.split(b"\r\n\r\n")[plan.interim]) - 1)] if plan.interim == 0 else head[:-3])
            return False
        data = head + body
        if plan.ending == "truncated":
            data = data[:len(head) + rng.randrange(0, len(body) - 1)]
            self.cut = len(data)
        if plan.ending == "badchunk":
            data = head + b"5\r\nhello\r\nzz\r\n"
        if plan.ending == "extra":
            data += rng.choice([b"x", b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil", b"\r\n" * 5 + b"junk", b"HTTP/1.1 200 OK\r\nX-Id: other"])
        self.paced(sock, rng, plan, data, len(head))
        if plan.ending == "badchunk":
            time.sleep(rng.choice([0, 0.05]))
            return False
        if plan.ending == "truncated":
            return False
        if plan.ending == "idle":
            return False
        return plan.keep and (plan.framing != "eof" or plan.bodiless)

    @staticmethod
    def paced(sock, rng, plan, data, head):
        if plan.pace == "once":
            sock.sendall(data)
            return
        pos = 0
        if plan.pace == "bytes":
            limit = min(len(data), max(60, min(head + 40, 400)))
            while pos < limit:
                sock.sendall(data[pos:pos + 1])
                pos += 1
                if rng.random() < 0.3:
                    time.sleep(0.0005)
            sock.sendall(data[pos:])
            return
        cuts = sorted(rng.randrange(len(data)) for _ in range(12)) if data else []
        if plan.pace == "pieces":
            cuts += [c for c in range(head - 6, head + 3) if 0 < c < len(data)]
        for cut in sorted(cuts) + [len(data)]:
            if cut > pos:
                sock.sendall(data[pos:cut])
                pos = cut
                time.sleep(rng.choice([0.001, 0.003]) if plan.pace == "pieces" else rng.choice([0.005, 0.02]))


class Client(threading.Thread):
    def __init__(self, ctx, seed, server, ups, label, rounds, big):
        threading.Thread.__init__(self)
        self.ctx, self.rng, self.server, self.ups, self.label, self.rounds, self.big = ctx, random.Random(seed), server, ups, label, rounds, big
        self.stage = None
        self.error, self.problem, self.sent, self.aborted = None, None, [], set()
        self.name_ = b"c%d" % self.rng.randrange(10 ** 9)
        self.count = 0

    def run(self):
        try:
            self.work()
        except Exception as error:  # noqa: judged by the caller
            self.error = type(error)("%s, at %s" % (error, self.stage))

    def plan(self, **force):
        self.count += 1
        p = Plan(self.rng, self.name_ + b"-%d" % self.count, self.big if self.rng.random() < 0.3 else 20000)
        for k, v in force.items():
            setattr(p, k, v)
        up = self.rng.choice(self.ups)
        up.plans[p.ident] = p
        return p, up

    def work(self):
        rng = self.rng
        conn, position = None, 0
        for _index in range(self.rounds):
            if conn is None:
                conn, position = Conn(self.server.port, timeout=60, rcvbuf=4096 if rng.random() < 0.1 else None), 0
                closing = False
            roll = rng.random()
            if roll < 0.06:
                self.stage = "file after %r" % (self.sent and self.sent[-1][0].describe())
                conn.send(b"GET /file/file.txt HTTP/1.1\r\nConnection: keep-alive\r\n\r\n")
                response = conn.read_response()
                if response.status != 200 or response.body != b"plain file":
                    self.problem = "file of the same connection: %r" % response.describe()
                    return
                continue
            if roll < 0.10:
                self.stage = "dead upstream after %r" % (self.sent and self.sent[-1][0].describe())
                conn.send(b"GET /dead/x HTTP/1.1\r\nConnection: keep-alive\r\n\r\n")
                response = conn.read_response()
                self.ctx.case((self.label, "dead", position))
                self.ctx.count("dead_upstreams")
                if response.status != 502 or not response.keep_alive:
                    self.problem = "upstream that refuses connections: %r" % response.describe()
                    return
                position += 1
                continue
            burst = rng.choice([1, 1, 1, 1, 3])
            work = []
            for _ in range(burst):
                plan, up = self.plan()
                work.append((plan, up))
                if not plan.kept:
                    break
            data = b"".join(plan.request(up.path) for plan, up in work)
            if rng.random() < 0.05:
                # goes away in the middle
                for plan, _up in work:
                    self.aborted.add(plan.ident)
                conn.send(data[:rng.randrange(len(data) + 1)])
                time.sleep(rng.choice([0, 0, 0.01, 0.05]))
                if rng.random() < 0.5:
                    conn.reset()
                else:
                    conn.close()
                conn = None
                self.ctx.count("aborted_clients")
                continue
            sender = None
            if rng.random() < 0.3 and len(data) < 100000:
                cuts = sorted(rng.randrange(len(data)) for _ in range(6))
                conn.send_pieces(data, cuts, 0.002)
            else:
                sender = threading.Thread(target=self.push, args=(conn, data), daemon=True)
                sender.start()
            for plan, up in work:
                answered = self.receive(conn, plan, position, closing)
                if not answered:
                    return
                if answered == "given up":
                    self.aborted.add(plan.ident)
                    closing = False
                    continue
                self.sent.append((plan, up))
                closing = plan.ending == "idle"
                position += 1
            if sender:
                sender.join()
            if answered == "given up":
                pass
            elif not work[-1][0].kept and work[-1][0].ending not in BAD:
                self.stage = "end of the connection after %r" % work[-1][0].describe()
                rest = conn.read_eof(60) if not conn.eof else b""
                if rest:
                    self.problem = "bytes after the last response: %r of %r" % (rest[:100], work[-1][0].describe())
                    return
                conn.close()
                conn = None
            elif work[-1][0].ending == "badchunk":
                conn.close()
                conn = None
            elif conn.buffer:
                self.problem = "bytes after the response: %r of %r" % (conn.buffer[:100], work[-1][0].describe())
                return
        if conn:
            conn.close()

    @staticmethod
    def push(conn, data):
        try:
            conn.send(data)
        except (Closed, Late):
            pass

    def receive(self, conn, plan, position, closing):
        ctx = self.ctx
        ctx.case((self.label.split("/")[0],) + plan.key() + (position,))
        ctx.count("exchanges")
        ctx.count("ending_" + plan.ending)
        ctx.count("framing_" + plan.framing)
        try:
            response = conn.read_response(head=plan.method == b"HEAD")
            seen = 0
            while response.status == 103:
                seen += 1
                if response.get("x-interim") != "1":
                    self.problem = "interim response %r" % response.describe()
                    return False
                response = conn.read_response(head=plan.method == b"HEAD")
        except Closed as error:
            if plan.ending in ("truncated", "badchunk"):
                # the part received has to be the beginning of the body
                ctx.count("truncated_seen")
                return True
            self.problem = "%s (received %r) for %r" % (error, error.partial[:100], plan.describe())
            return False
        except (Late, Malformed) as error:
            self.problem = "%s: %s for %r" % (type(error).__name__, error, plan.describe())
            return False
        if closing and response.status == 502 and plan.status != 502:
            # met the upstream while it was closing
            ctx.count("met_closing_upstream")
            return "given up"
        if plan.ending in BAD and plan.ending != "badchunk":
            # a request that was given up on is answered with an error
            if response.status != 502:
                self.problem = "answered with %r, the upstream gave none: %r" % (response.describe(), plan.describe())
                return False
            if not response.keep_alive:
                self.problem = "502 without keeping the connection %r" % response.describe()
                return False
            return True
        if plan.ending in ("truncated", "badchunk"):
            self.problem = "a complete response of %d bytes, the upstream did not complete it: %r" % (len(response.body), plan.describe())
            return False
        text = []
        if seen > plan.interim:
            text.append("%d interim responses, %d were sent" % (seen, plan.interim))
        if response.status != plan.status:
            text.append("status %d" % response.status)
        expected = plan.expected_response_fields()
        if response.headers != expected:
            odd = [p for p in response.headers if p not in expected] + [p for p in expected if p not in response.headers]
            text.append("headers differ: %r" % (odd[:4] or "order"))
        body = b"" if plan.bodiless else plan.rbody
        if response.body != body:
            first = next((i for i, (a, b) in enumerate(zip(response.body, body)) if a != b), min(len(body), len(response.body)))
            text.append("body of %d bytes, expected %d, first difference at %d" % (len(response.body), len(body), first))
        ctx.count("body_bytes", len(body))
        if text:
            self.problem = "%s for %r" % ("; ".join(text), plan.describe())
            return False
        return True


def spelled(rng, port):
    """The address of an upstream, only its host and port say where it is."""
    hosts = ["127.0.0.1", "127.0.0.1"]
    try:
        if socket.gethostbyname("localhost") == "127.0.0.1":
            hosts.append("localhost")
    except OSError:
        pass
    return "http://%s%s:%d%s" % (rng.choice(["", "", "", "user:pass@"]), rng.choice(hosts), port, rng.choice(["/", "/", "", "/x", "?a=b", "/#c"]))


def history(ctx, rng, out, label):
    ups = [Upstream("a"), Upstream("b")]
    dead = socket.socket()
    dead.bind(("127.0.0.1", 0))
    try:
        ini = "[general]\nuse_template = Off\n\n[location:files]\npath = ^/file\nhandler = file\nbase_path = www\n\n"
        for up in ups:
            up.path = b"/" + up.name.encode()
            ini += "[location:%s]\npath = ^/%s/\nhandler = proxy\nproxy_pass = %s\n\n" % (up.name, up.name, spelled(rng, up.port))
        ini += "[location:dead]\npath = ^/dead/\nhandler = proxy\nproxy_pass = %s\n\n" % (
            spelled(rng, dead.getsockname()[1]) if rng.random() < 0.7 else rng.choice(["nonsense", "http:", "http:/x", "http://", "http:///x"]))
        with serving(ctx, out, ini, label, files={"file.txt": b"plain file"}) as server:
            count = rng.choice([1, 4, 10])
            base = server.fds()
            clients = [Client(ctx, rng.random(), server, ups, label, max(5, 60 // count), ctx.n(400000, 4000000)) for _ in range(count)]
            for c in clients:
                c.start()
            for c in clients:
                c.join()
            context = {"clients": count}
            for c in clients:
                if c.problem:
                    alive_or_report(ctx, server, label, context)
                    kind = re.sub(r"[^A-Za-z ].*", "", c.problem)[:50].strip()
                    ctx.violation("relay:" + kind, "%s: %s" % (label, c.problem), **context)
                    return
                if c.error:
                    alive_or_report(ctx, server, label, context)
                    ctx.violation("exchange:" + type(c.error).__name__, "%s: %s" % (label, c.error), **context)
                    return
            # what the upstreams saw against what was sent
            seen = {}
            for up in ups:
                for entry in up.log:
                    seen.setdefault(entry[0], []).append((up, entry))
            aborted = set().union(*[c.aborted for c in clients])
            for c in clients:
                for plan, up in c.sent:
                    entries = seen.get(plan.ident, [])
                    if len(entries) != 1:
                        if plan.ending in BAD or len(entries) > 1:
                            pass
                        ctx.violation("delivered-%d-times" % len(entries), "%s: a request reached the upstreams %d times: %r" % (label, len(entries), plan.describe()))
                        return
                    where, (_i, method, target, pairs, body, _n) = entries[0]
                    text = []
                    if where is not up:
                        text.append("sent to upstream %s instead of %s" % (where.name, up.name))
                    if method != plan.method or target != plan.target():
                        text.append("request line %r %r" % (method, target))
                    if pairs != plan.expected_fields():
                        odd = [p for p in pairs if p not in plan.expected_fields()] + [p for p in plan.expected_fields() if p not in pairs]
                        text.append("headers differ: %r" % (odd[:4] or "order"))
                    if body != plan.body:
                        text.append("body of %d bytes instead of %d" % (len(body), len(plan.body)))
                    if text:
                        ctx.violation("request:" + re.sub(r"[^A-Za-z ].*", "", text[0])[:30].strip(), "%s: %s for %r" % (label, "; ".join(text), plan.describe()))
                        return
                    ctx.count("requests_compared")
            sent = {plan.ident for c in clients for plan, _up in c.sent}
            for ident, entries in seen.items():
                if ident not in sent and ident not in aborted:
                    ctx.violation("unknown-request", "%s: the upstream got a request nobody sent: %r" % (label, entries[0][1][:3]))
                if len(entries) > 1:
                    ctx.violation("delivered-twice", "%s: an aborted request reached the upstreams %d times" % (label, len(entries)))
            for up in ups:
                problems = [p for p in up.problems if not p.startswith(("a request was cut", "ValueError: the request ended")) or not aborted]
                if problems:
                    ctx.violation("upstream:" + re.sub(r"[^A-Za-z ].*", "", problems[0])[:40], "%s: the upstream got %s" % (label, problems[0]))
            ctx.count("upstream_connections", sum(up.accepted for up in ups))
            # the connections to the upstreams are given back
            for _ in range(500):
                now = server.fds()
                if now is not None and len(now) <= len(base):
                    break
                time.sleep(0.02)
            else:
                ctx.violation("connections-left", "%s: %d descriptors, %d at first" % (label, len(now), len(base)))
            ctx.sample({"label": label, "clients": count, "accepted": [up.accepted for up in ups], "example": clients[0].sent[0][0].describe() if clients[0].sent else None})
    finally:
        dead.close()
        for up in ups:
            up.stop()


class Pressure(threading.Thread):
    """One connection with responses larger than what the proxy keeps, read in
    jerks, or with requests read in jerks by the upstream."""
    KEPT = 3 << 20

    def __init__(self, ctx, seed, server, path, port, label):
        threading.Thread.__init__(self)
        self.ctx, self.rng, self.server, self.path, self.label = ctx, random.Random(seed), server, path, label
        self.problem, self.error, self.conn = None, None, None

    def run(self):
        try:
            self.work()
        except Exception as error:  # noqa: judged by the caller
            self.error = error
        finally:
            if self.conn:
                self.conn.close()

    def work(self):
        rng = self.rng
        conn = None
        for index in range(rng.choice([1, 2, 3])):
            if conn is None:
                conn = self.conn = Conn(self.server.port, timeout=60, rcvbuf=rng.choice([30000, 30000, 200000, None]))
            upload = rng.random() < 0.25
            size = rng.randrange(3 << 20, 9 << 20) if upload else rng.choice([rng.randrange(1 << 20, 4 << 20), rng.randrange(6 << 20, 40 << 20)])
            framing = rng.choice(["length", "length", "chunked", "eof"])
            order = "%s-%d-%d-%d-%d" % (framing, size, rng.randrange(256), upload, rng.randrange(10 ** 9))
            leaves = rng.random() < 0.15
            shape = (self.label, framing, size.bit_length(), upload, index, leaves)
            self.ctx.case(("pressure",) + shape)
            unit = Slow.unit(order)
            Slow.progress[order] = 0
            if upload:
                body = (unit * (size // len(unit) + 1))[:size]
                conn.send(b"POST " + self.path + order.encode() + b" HTTP/1.1\r\nConnection: keep-alive\r\nContent-Length: %d\r\n\r\n" % size)
                conn.send(body)
                response = conn.read_response()
                want = b"got %d %08x" % (size, zlib.crc32(body))
                self.ctx.count("slow_uploads")
                if response.status != 200 or response.body != want:
                    self.problem = "upload of %d bytes answered with %r, expected %r" % (size, response.describe(), want)
                    return
                continue
            conn.send(b"GET " + self.path + order.encode() + b" HTTP/1.1\r\nConnection: keep-alive\r\n\r\n")
            data = b""
            while b"\r\n\r\n" not in data:
                more = conn.sock.recv(4096)
                if not more:
                    self.problem = "closed before the response"
                    return
                data += more
            head, _sep, rest = data.partition(b"\r\n\r\n")
            _version, status, _reason, pairs = parse_head(head)
            if status != 200:
                self.problem = "status %d for %s" % (status, order)
                return
            reader = Reader(conn.sock, rest)
            reader.pauses = sorted((rng.choice([0, rng.randrange(size)]) for _ in range(rng.choice([1, 1, 2]))), reverse=True)
            reader.watch = lambda got, order=order, size=size: self.paused(order, got, size)
            reader.small = rng.random() < 0.3
            good, crc = 0, 0
            if leaves:
                reader.read(rng.randrange(size // 2))
                time.sleep(rng.choice([0, 0.3]))
                if rng.random() < 0.5:
                    conn.reset()
                else:
                    conn.close()
                conn = self.conn = None
                self.ctx.count("left_under_pressure")
                continue
            if framing == "length":
                good, crc = reader.read(size)
            elif framing == "eof":
                good, crc = reader.read(1 << 40)
            else:
                while True:
                    line = reader.line()
                    if not re.match(rb"^[0-9a-f]+$", line):
                        self.problem = "chunk size %r for %s after %d bytes" % (line[:60], order, good)
                        return
                    length = int(line, 16)
                    if length:
                        got, crc = reader.read(length, crc)
                        good += got
                    if reader.line() != b"":
                        self.problem = "end of a chunk for %s" % order
                        return
                    if not length:
                        break
            want = zlib.crc32((unit * (size // len(unit) + 1))[:size])
            self.ctx.count("pressure_bytes", good)
            self.ctx.count("pressure_transfers")
            if good != size or crc != want:
                self.problem = "%d bytes of %d%s: %s" % (good, size, "" if good != size else ", which differ", order)
                return
            if reader.rest:
                self.problem = "bytes after the response %r" % reader.rest[:60]
                return
            if framing == "eof":
                conn.close()
                conn = self.conn = None

    def paused(self, order, got, size):
        time.sleep(self.rng.choice([0.2, 0.6, 1.2]))
        self.ctx.count("pauses")
        held = None
        for _ in range(3):
            # while things move the parts are not read at the same time
            done, queued = Slow.progress[order], queues([Slow.ports.get(order), self.conn.sock.getsockname()[1]])
            if queued is None:
                break
            held = done - queued - got
            if held < self.KEPT or Slow.progress[order] >= size:
                break
            time.sleep(0.4)
        if held is not None:
            self.ctx.count("held_measured")
            self.ctx.top("held_most", held)
            if held > self.KEPT and Slow.progress[order] < size:
                self.problem = "the server keeps %d bytes for a paused client" % held
        if 0 < Slow.progress[order] < size:
            self.ctx.count("pauses_held")


def queues(ports):
    """Bytes in the queues of the sockets at these ports, of both ends."""
    total = 0
    try:
        with open("/proc/net/tcp") as handle:
            for line in handle.read().split("\n")[1:]:
                fields = line.split()
                if len(fields) > 4 and {int(fields[1].split(":")[1], 16), int(fields[2].split(":")[1], 16)} & set(ports):
                    sent, received = fields[4].split(":")
                    total += int(sent, 16) + int(received, 16)
    except OSError:
        return None
    return total


class Reader:
    def __init__(self, sock, rest):
        self.sock, self.rest, self.total, self.pauses, self.watch, self.small = sock, rest, 0, [], None, False

    def more(self):
        while self.pauses and self.total >= self.pauses[-1]:
            self.pauses.pop()
            self.watch(self.total)
        data = self.sock.recv(3000 if self.small and self.total % 7 == 0 else 262144)
        self.total += len(data)
        return data

    def read(self, size, crc=0):
        done = 0
        while done < size:
            data = self.rest or self.more()
            if not data:
                break
            part, self.rest = data[:size - done], data[size - done:]
            crc = zlib.crc32(part, crc)
            done += len(part)
        return done, crc

    def line(self):
        while b"\r\n" not in self.rest:
            data = self.more()
            if not data:
                raise Closed("end of stream", self.rest)
            self.rest += data
        line, _sep, self.rest = self.rest.partition(b"\r\n")
        return line


class Slow:
    """An upstream that gives whatever size is asked for as fast as it goes,
    and reads what it gets in jerks."""
    progress, ports = {}, {}

    @staticmethod
    def unit(order):
        return random.Random(order).randbytes(65521)

    def __init__(self):
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 65536)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                sock, _address = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(sock,), daemon=True).start()

    def stop(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def serve(self, sock):
        try:
            sock.settimeout(120)
            buffer = b""
            while self.exchange(sock, buffer):
                pass
        except OSError:
            pass
        finally:
            sock.close()

    def exchange(self, sock, buffer):
        while b"\r\n\r\n" not in buffer:
            data = sock.recv(4096)
            if not data:
                return False
            buffer += data
        head, _sep, rest = buffer.partition(b"\r\n\r\n")
        order = head.split(b" ")[1].lstrip(b"/").decode()
        framing, size, _tag, upload, _n = order.split("-")
        self.ports[order] = sock.getpeername()[1]
        size, rng, unit = int(size), random.Random(order), self.unit(order)
        if upload == "1":
            crc, done = zlib.crc32(rest), len(rest)
            pause = rng.randrange(size)
            while done < size:
                data = sock.recv(min(size - done, 262144))
                if not data:
                    return False
                if done <= pause < done + len(data):
                    time.sleep(0.4)
                crc = zlib.crc32(data, crc)
                done += len(data)
            text = b"got %d %08x" % (done, crc)
            sock.sendall(b"HTTP/1.1 200 OK\r\nConnection: keep-alive\r\nContent-Length: %d\r\n\r\n" % len(text) + text)
            return True
        sock.sendall(b"HTTP/1.1 200 OK\r\nConnection: %s\r\n%s\r\n" % (b"close" if framing == "eof" else b"keep-alive", b"Content-Length: %d\r\n" % size if framing == "length" else
                                                                        b"Transfer-Encoding: chunked\r\n" if framing == "chunked" else b""))
        done = 0
        while done < size:
            at = done % len(unit)
            data = unit[at:at + min(size - done, rng.choice([65536, 65536, 5000, 1]))]
            if framing == "chunked":
                sock.sendall(b"%x\r\n" % len(data) + data + b"\r\n")
            else:
                sock.sendall(data)
            done += len(data)
            self.progress[order] = done
        if framing == "chunked":
            sock.sendall(b"0\r\n\r\n")
        return framing != "eof"


def pressure(ctx, rng, out, label):
    up = Slow()
    ini = "[general]\nuse_template = Off\n\n[location:p]\npath = ^/p/\nhandler = proxy\nproxy_pass = http://127.0.0.1:%d/\n\n" % up.port
    try:
        with serving(ctx, out, ini, label, files={"file.txt": b"plain file"}) as server:
            base = server.fds()
            clients = [Pressure(ctx, rng.random(), server, b"/p/", up.port, label) for _ in range(rng.choice([1, 3]))]
            for c in clients:
                c.start()
            for c in clients:
                c.join()
            for c in clients:
                if c.problem or c.error:
                    text = c.problem or "%s: %s" % (type(c.error).__name__, c.error)
                    alive_or_report(ctx, server, label, {})
                    ctx.violation("pressure:" + re.sub(r"[0-9].*", "", text)[:40].strip(), "%s: %s" % (label, text))
                    return
            for _ in range(500):
                now = server.fds()
                if now is not None and len(now) <= len(base):
                    break
                time.sleep(0.02)
            else:
                ctx.violation("connections-left", "%s: %d descriptors, %d at first" % (label, len(now), len(base)))
    finally:
        up.stop()
        Slow.progress.clear()
        Slow.ports.clear()


def run(ctx):
    rng = ctx.rng
    for variant in ("asan", "select"):
        build(variant, ("server",))
    for index in range(ctx.n(27, 400)):
        variant = "select" if index % 3 == 2 else "asan"
        try:
            if index % 4 == 3:
                pressure(ctx, rng, build(variant, ("server",)), "pressure/%s" % variant)
            else:
                history(ctx, rng, build(variant, ("server",)), "history/%s" % variant)
        except Skip:
            pass
        if ctx.late():
            break
