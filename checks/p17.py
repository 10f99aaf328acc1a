"""P17: HTTP messages are parsed into exactly their parts, however divided."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one sequence of messages parsed in one division; distinct by (request or response, method or status, coding of the body, kinds of headers, ends of line, division, kind of damage)"
ASSUMPTIONS = ["a message has at most one of each framing header", "what is right after a message that failed is not parsed"]
METHODS = ["DELETE", "GET", "HEAD", "POST", "PUT", "CONNECT", "OPTIONS", "TRACE", "COPY", "LOCK", "MKCOL", "MOVE", "PROPFIND", "PROPPATCH", "UNLOCK", "REPORT",
           "MKACTIVITY", "CHECKOUT", "MERGE", "M-SEARCH", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE", "PATCH"]
CHUNKED, KEEP, CLOSE = 1, 2, 4
TOKEN = b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
NEAR = [b"Content-Lengt", b"Content-Lengthx", b"Content-Type", b"Connectio", b"Connections", b"Conx", b"Co", b"C", b"Cookie", b"Transfer-Encodin", b"Transfer-Encodings", b"TE",
        b"Upgrad", b"Upgrades", b"Proxy-Connectio", b"Proxy-Connections", b"Proxy-Authorization", b"U", b"T", b"P", b"Content-Lengti", b"X-Content-Length", b"Content_Length",
        b"content-length-", b"Contenx-Length", b"Connectiom"]


def klass(value):
    return value if value < 4 else 10 + value.bit_length()


def case(rng, name):
    how = rng.random()
    if how < 0.6:
        return name
    return bytes(rng.choice([char, ord(chr(char).upper()), ord(chr(char).lower())]) for char in name)


class Message:
    def __init__(self, rng, request, last):
        self.rng = rng
        self.marks = []
        end = rng.choice([b"\r\n"] * 4 + [b"\n"])
        out, events = b"", []
        if request and rng.random() < 0.1:
            out += b"\r\n" * rng.choice([1, 2])
        events.append("B")
        flags, length, upgrade = 0, -1, 0
        self.eof = False
        major, minor = rng.choice([(1, 1)] * 5 + [(1, 0), (1, 10), (2, 0), (999, 999), (9, 123)])
        if request:
            method = rng.choice(METHODS) if rng.random() < 0.7 else "GET"
            url = self.url(method)
            out += method.encode() + b" " * rng.choice([1, 1, 1, 3]) + url
            if rng.random() < 0.03 and method != "CONNECT" and not url.startswith(b"h"):
                major, minor = 0, 9
                out += end
            else:
                out += b" " * rng.choice([1, 1, 1, 2]) + b"HTTP/%d.%d" % (major, minor) + end
            events += ["U:" + hexa(url), "L"]
            head = method
            self.kind = method
        else:
            status = rng.choice([100, 101, 200, 204, 206, 301, 304, 404, 500, 999, 1, 20, rng.randrange(100, 1000)])
            reason = rng.choice([b"", b" ", b" OK", b" Not Found : really\x80"])
            out += b"HTTP/%d.%d" % (major, minor) + b" " * rng.choice([1, 1, 2]) + b"%d" % status + reason + end
            events.append("L")
            head = "%d" % status
            self.kind = status
        headers = []
        for _ in range(rng.choice([0, 1, 2, 5, 20])):
            name = bytes(rng.choice(TOKEN) for _ in range(rng.choice([1, 2, 8, 20, 300] if rng.random() < 0.1 else [1, 2, 8, 20])))
            if rng.random() < 0.4:
                name = rng.choice(NEAR)
            if name.lower() in (b"connection", b"content-length", b"transfer-encoding", b"upgrade", b"proxy-connection"):
                continue
            value = bytes(rng.choice(bytes(range(32, 127)) + b"\t\x80\xff") for _ in range(rng.choice([0, 1, 10, 400] if rng.random() < 0.1 else [0, 1, 10])))
            if rng.random() < 0.3:
                value = rng.choice([b"chunked", b"close", b"keep-alive", b"0", b"10", b"18446744073709551617", b":", b"a: b", b"upgrade"])
            headers.append((name, value.lstrip(b" \t"), 0))
        kind = rng.random()
        body, coded, trailers = b"", b"", []
        if kind < 0.35:
            size = rng.choice([0, 1, 2, 10, 300, 5000])
            body = coded = rng.randbytes(size)
            length = size
            headers.append((case(rng, b"Content-Length"), rng.choice([b"%d", b"%d", b"%d", b"%06d"]) % size, 0))
            self.body = "length"
        elif kind < 0.7:
            flags |= CHUNKED
            headers.append((case(rng, b"Transfer-Encoding"), case(rng, b"chunked"), 0))
            for _ in range(rng.choice([0, 1, 2, 6])):
                data = rng.randbytes(rng.choice([1, 2, 9, 10, 15, 16, 17, 255, 256, 4000]))
                body += data
                form = rng.choice([b"%x", b"%X", b"%x", b"0%x", b"%x;name=value", b"%x ;a", b"%x "])
                coded += form % len(data) + b"\r\n" + data + b"\r\n"
            coded += rng.choice([b"0", b"0", b"000", b"0;last"]) + b"\r\n"
            if rng.random() < 0.3:
                trailers = [(b"X-Trailer", b"value"), (b"Other", b"")][:rng.choice([1, 2])]
            coded += b"".join(name + b": " + value + b"\r\n" for name, value in trailers) + b"\r\n"
            self.body = "chunked"
        else:
            self.body = "none"
            if request and rng.random() < 0.3:
                # codings that only look like the one that is known
                value = case(rng, rng.choice([b"chunkedly", b"chunkedx", b"chunke", b"xchunked", b"identity", b"chunked x", b"chunked2", b"chunked-", b"gzip", b"c", b"chunk"]))
                headers.append((case(rng, b"Transfer-Encoding"), value, 0))
                self.body = "other coding"
            if not request:
                if last and rng.random() < 0.5:
                    body = coded = rng.randbytes(rng.choice([0, 1, 100]))
                    self.eof = True
                    self.body = "eof"
                else:
                    headers.append((b"Content-Length", b"0", 0))
                    length = 0
        if rng.random() < 0.5:
            value = rng.choice([b"keep-alive", b"close", b"Keep-Alive", b"CLOSE", b"upgrade", b"keep-alive2", b"closed", b"keep-aliv", b"clos", b"x-close", b"kclose", b"keep-alive  ", b"close x", b"keep-alive x", b"close-", b"keep-alivekeep-alive", b"closeclose"])
            name = rng.choice([b"Connection", b"Connection", b"Proxy-Connection"])
            headers.append((case(rng, name), value, 0))
            token = value.lower().rstrip(b" ")
            flags |= KEEP if token == b"keep-alive" else CLOSE if token == b"close" else 0
        if rng.random() < 0.05:
            headers.append((case(rng, b"Upgrade"), b"websocket", 0))
            upgrade = 1
        rng.shuffle(headers)
        for name, value, _ in headers:
            events += ["F:" + hexa(name), "V:" + hexa(value)]
            out += name + b":" + rng.choice([b" ", b" ", b"", b"  ", b"\t"]) + value + end
        out += end
        if request and self.kind == "CONNECT":
            # what follows is not a message
            upgrade = 1
            coded, body, trailers = b"", b"", []
            self.body += " connect"
        events.append("H:%s,%d.%d,%d,%d,%d" % (head, major, minor, length, flags, upgrade))
        self.header_size = len(out)
        out += coded
        if body:
            events.append("D:" + body.hex())
        for name, value in trailers:
            events += ["F:" + hexa(name), "V:" + hexa(value)]
        if self.eof:
            events += ["E", "EOF:0"]
        else:
            events.append("E")
        self.data, self.events, self.end = out, events, end

    def url(self, method):
        rng = self.rng
        chars = bytes(char for char in range(33, 127) if char not in b"#?") + b"\x80\xc3\xff"
        part = lambda: bytes(rng.choice(chars) for _ in range(rng.choice([0, 1, 5, 30, 2000] if rng.random() < 0.05 else [0, 1, 5, 30])))
        if method == "CONNECT":
            return b"host-name.example:%d" % rng.randrange(65536)
        out = b"/" + part()
        if rng.random() < 0.1:
            out = b"http://ex_am-ple.com" + rng.choice([b"", b":8080"]) + out
        if rng.random() < 0.05:
            return b"*"
        if rng.random() < 0.3:
            out += b"?" + rng.choice([b"", b"?"]) + part() + rng.choice([b"", b"?x"])
        if rng.random() < 0.2:
            out += b"#" + part() + rng.choice([b"", b"#?"])
        return out


def divisions(rng, size, interesting):
    how = rng.random()
    if how < 0.25:
        return []
    if how < 0.45:
        return list(range(1, size)) if size < 1500 else sorted(rng.sample(range(1, size), 300))
    if how < 0.7:
        return [max(1, min(size - 1, rng.choice(interesting) + rng.randrange(-3, 4)))]
    return sorted({rng.randrange(1, size) for _ in range(rng.choice([1, 2, 5, 30]))})


def malformed(rng, request):
    """A message that has to be refused, with its kind."""
    line = rng.choice([b"GET /path HTTP/1.1", b"POST /path?a=b HTTP/1.1"]) if request else b"HTTP/1.1 200 OK"
    kind = rng.choice((["method", "method start", "target", "target byte", "version", "version letter", "version high"] if request else ["status", "status high", "version", "version letter", "version high", "start"]) +
                      ["name", "name empty", "length", "length later", "length high", "chunk", "chunk later", "chunk high"])
    headers, rest = b"Host: a\r\n", b""
    if kind == "method":
        name = rng.choice(METHODS)
        while name in METHODS or any(other.startswith(name) for other in METHODS):
            name = rng.choice(METHODS)
            at = rng.randrange(1, len(name) + 1)
            name = name[:at] + rng.choice("XQ9z_") + name[at + rng.randrange(2):]
        line = name.encode() + b" / HTTP/1.1"
    elif kind == "method start":
        line = rng.choice([b"get", b"1GET", b"_", b"@", b"\x80", b"XGET", b":", b"BREW"]) + b" / HTTP/1.1"
    elif kind == "target":
        line = b"GET " + rng.choice([b"?x", b"#", b"\x01", b"1", b"\x7f", b"\xff", b"@", b"ht tp:"]) + b" HTTP/1.1"
    elif kind == "target byte":
        line = b"GET /ab" + rng.choice([b"\x00", b"\x01", b"\x1f", b"\x7f", b"\t", b"?\x02", b"?a\x03", b"#\x04", b"#a\x7f", b"? \x01"]) + b"c HTTP/1.1"
    elif kind == "version":
        line = line.replace(b"HTTP/1.1", rng.choice([b"HTTP/0.1", b"HTTP/.1", b"HTTP/a.1", b"HTTP/1.", b"HTTP/-1.1"]) if request else rng.choice([b"HTTP/0.1", b"HTTP/.1", b"HTTP/a.1", b"HTTP/1."]))
    elif kind == "version letter":
        line = line.replace(b"HTTP/1.1", rng.choice([b"HTTP/1a.1", b"HTTP/1.a", b"HTTP/1.1a", b"HTTP/1..1"]))
    elif kind == "version high":
        line = line.replace(b"HTTP/1.1", rng.choice([b"HTTP/1000.1", b"HTTP/1.1000", b"HTTP/9999.1", b"HTTP/1.99999"]))
    elif kind == "status":
        line = b"HTTP/1.1 " + rng.choice([b"x00", b"2x0", b"20:", b"-20", b"20\x00"]) + b" OK"
    elif kind == "status high":
        line = b"HTTP/1.1 " + rng.choice([b"1000", b"99999"]) + b" OK"
    elif kind == "start":
        line = rng.choice([b"XTTP/1.1 200 OK", b"\x00", b"1", b"http/1.1 200 OK"])
    elif kind == "name":
        headers += b"X" + rng.choice([b"\x00", b"\x01", b"(", b")", b",", b";", b"<", b"=", b">", b"?", b"@", b"[", b"\\", b"]", b"{", b"\x7f", b"\x80", b"\xff", b"\t"]) + b"a: 1\r\n"
    elif kind == "name empty":
        headers += b": value\r\n"
    elif kind == "length":
        headers += b"Content-Length: " + rng.choice([b"x", b"-1", b"+1", b".", b"\x00"]) + b"\r\n"
    elif kind == "length later":
        headers += b"Content-Length: " + rng.choice([b"1x", b"1-", b"12.0", b"0x10", b"1,2", b"3;"]) + b"\r\n"
    elif kind == "length high":
        headers += b"Content-Length: " + rng.choice([b"2147483648", b"4294967296", b"4294967297", b"9999999999", b"18446744073709551616", b"21474836470", b"1" * 40]) + b"\r\n"
    else:
        headers += b"Transfer-Encoding: chunked\r\n"
        first = rng.choice([b"", b"3\r\nabc\r\n"])
        rest = first + {"chunk": rng.choice([b"x", b"g", b"-1", b"\x80", b"\xff", b";", b" 1", b"\r\n"]),
                        "chunk later": rng.choice([b"1g", b"1-", b"1\x80", b"1.", b"1\x00"]),
                        "chunk high": rng.choice([b"80000000", b"100000000", b"fffffffff", b"7fffffff0", b"1" * 20])}[kind] + b"\r\nabc"
    return line + b"\r\n" + headers + b"\r\n" + rest, kind


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("http",)) + "/http"

    def make(batch):
        for _ in range(60):
            request = rng.random() < 0.6
            messages = []
            for index in range(rng.choice([1, 1, 2, 4])):
                messages.append(Message(rng, request, True))
                if messages[-1].eof:
                    break
            eof = messages[-1].eof
            data, interesting = b"", []
            for message in messages:
                interesting += [len(data) + 1, len(data) + message.header_size, len(data) + len(message.data)]
                data += message.data
            expected = " ".join(event for message in messages for event in message.events)
            kind = "request" if request else "response"
            for _ in range(3):
                cuts = divisions(rng, len(data), interesting)
                batch.add("%s 0 %d %s %s" % (kind[:3], eof, hexa(data), " ".join(str(cut) for cut in cuts)),
                          lambda answer, expected=expected: None if answer.strip() == expected else different(answer.strip(), expected), kind)
                ctx.case((kind, messages[0].kind, messages[0].body, messages[0].end, klass(len(cuts)), klass(len(messages)), klass(len(data))))
                ctx.count("messages_parsed", len(messages))
            if not request and messages[0].body in ("length", "chunked"):
                # the response to a HEAD ends with its headers
                head = messages[0]
                want = " ".join(event for event in head.events[:[event[0] for event in head.events].index("H") + 1]) + " E"
                batch.add("res 1 0 %s %s" % (hexa(head.data[:head.header_size]), " ".join(str(cut) for cut in divisions(rng, head.header_size, [head.header_size]))), want + " ", "head")
            bad, damage = malformed(rng, request)
            seen = []

            def refused(answer, damage=damage, seen=seen):
                if not answer.endswith("error"):
                    return "a message with a wrong %s is accepted: %r" % (damage, answer[:300])
                return None
            for _ in range(2):
                batch.add("%s 0 0 %s %s" % (kind[:3], hexa(bad), " ".join(str(cut) for cut in divisions(rng, len(bad), [len(bad) - 4]))), refused, "malformed")
            ctx.case(("malformed", kind, damage))
            # damage of any other kind: the same events whatever the division
            bad = bytearray(data)
            for _ in range(rng.choice([1, 2, 4])):
                at = rng.randrange(len(bad))
                bad[at:at + rng.choice([0, 1, 2])] = rng.choice([b"", b"\r", b"\n", b"\r\n", b" ", b":", b"\x00", b"\xff", b"0", b"HTTP/", b"\r\n\r\n", b"\t", b"chunked"])
            bad = bytes(bad)
            runs = []

            def same(answer, runs=runs):
                runs.append(answer)
                return None if answer == runs[0] else "divided answers %s" % different(answer, runs[0])
            for cuts in ([], divisions(rng, max(2, len(bad)), [len(bad) // 2]), list(range(1, min(len(bad), 1500)))):
                batch.add("%s 0 %d %s %s" % (kind[:3], eof, hexa(bad), " ".join(str(cut) for cut in cuts)), same, "damaged")
            ctx.case(("damaged", kind, klass(len(bad)), messages[0].body))
    rounds(ctx, driver, "parser", make, ctx.n(160, 6000))


def different(answer, expected):
    got, want = answer.split(" "), expected.split(" ")
    for index, (one, other) in enumerate(zip(got + ["nothing"], want + ["nothing"])):
        if one != other:
            return "event %d is %s, expected %s" % (index, one[:200], other[:200])
    return "%d events, expected %d" % (len(got), len(want))
