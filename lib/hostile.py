"""Generators of hostile byte streams for an HTTP server."""

METHODS = [b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"TRACE", b"CONNECT", b"COPY", b"LOCK", b"MKCOL", b"MOVE", b"PROPFIND",
           b"PROPPATCH", b"UNLOCK", b"REPORT", b"MKACTIVITY", b"CHECKOUT", b"MERGE", b"M-SEARCH", b"NOTIFY", b"SUBSCRIBE", b"UNSUBSCRIBE", b"PATCH"]
NAMES = [b"Host", b"Connection", b"Content-Length", b"Transfer-Encoding", b"Authorization", b"Range", b"If-None-Match", b"Cache-Control",
         b"Upgrade", b"Proxy-Connection", b"Expect", b"Cookie", b"User-Agent", b"X", b"Accept-Encoding", b"content-length", b"TRANSFER-ENCODING",
         b"Content-lengtH", b"Connectio", b"Connections", b"Transfer-Encodings", b"Rang", b"Ranges", b"If-None-Matc", b"Authorizatio"]
VALUES = [b"", b"x", b"keep-alive", b"close", b"Keep-Alive", b"keep-alive, close", b"chunked", b"identity", b"gzip, chunked", b"upgrade",
          b"bytes=0-", b"bytes=-1", b"bytes=5-2", b"bytes=0-99999999999999999999", b"bytes=-", b"bytes=", b"bytes", b"bytes=a-b", b"=-", b"-", b"=",
          b"0", b"1", b"5", b"-1", b"+5", b"4294967295", b"4294967296", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999",
          b"0x10", b"5 5", b"5,5", b"9223372036854775807", b"Basic", b"Basic ", b"Basic Og==", b"Basic =", b"Basic ====", b"Basic Zm9v", b"Basic Zm9vOmJhcg==",
          b"Basic \xff\xfe", b"basic Zm9vOmJhcg==", b"Digest x", b'"x"', b"*", b"no-cache", b"max-age=0", b"no-store, no-cache", b"100-continue"]
PIECES = [b"/", b"//", b"/.", b"/..", b"/../", b"%", b"%2", b"%2f", b"%2e%2e", b"%00", b"%zz", b"%%", b"?", b"?a=b", b"&", b"#", b"#frag", b";", b":", b"@",
          b"\\", b"~", b"*", b"[", b"{{", b"${", b"a", b"index.html", b"small.txt", b"dir", b"dir/", b"big.bin", b".", b".txt", b".html", b" ", b"\t",
          b"http://", b"http://x", b"http://x:80/", b"http://[::1]/", b"\xff", b"\x80", b"\0", b"%ff", b"+", b"=", b"'", b'"', b"<", b">", b"hello", b"lua", b"gif", b"diag", b"secret"]
TARGETS = [b"/", b"/small.txt", b"/index.html", b"/big.bin", b"/dir", b"/dir/", b"/missing", b"/hello", b"/lua/x", b"/gif/x", b"/diag/x", b"/secret/a.txt", b"*",
           b"", b"http://a/small.txt", b"small.txt", b"/dir/sub/", b"/empty.txt", b"/noext", b"/small.txt?x=1", b"/small.txt#y"]
LENGTHS = sorted({max(0, (1 << k) + d) for k in range(2, 15) for d in (-2, -1, 0, 1, 2)} | {0, 1, 3, 100, 200, 300, 1000, 1100, 5000, 10000})
FILL = [b"a", b"A", b"/", b".", b"%", b"%41", b"../", b"0", b"9", b" ", b"\t", b"=", b"-", b"\xff", b"\x01", b"/a", b"a/", b":", b"?", b"{", b"$", b"\""]


def fill(rng, length):
    unit = rng.choice(FILL)
    return (unit * (length // len(unit) + 1))[:length]


def target(rng):
    kind = rng.randrange(6)
    if kind <= 1:
        return rng.choice(TARGETS)
    if kind == 2:
        return b"/" + b"".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 9)))
    if kind == 3:
        return rng.choice([b"/", b"", b"/dir/", b"/small.txt?", b"/%", b"http://", b"/lua/", b"/gif/", b"/diag/", b"/secret/"]) + fill(rng, rng.choice(LENGTHS)) + rng.choice([b"", b".html", b"/", b".txt"])
    if kind == 4:
        return rng.choice(TARGETS) + rng.choice([b"?", b"#", b"/", b"%2f", b";"]) + fill(rng, rng.choice(LENGTHS[:40]))
    return bytes(rng.choice(b"/%.?#:&=;@abcXYZ019 \\\"<>[]{}|^`~\x7f\x80\xff\x01$!*'(),+-_") for _ in range(rng.randrange(0, 60)))


def header(rng):
    name = rng.choice(NAMES)
    if rng.random() < 0.15:
        name = rng.choice([fill(rng, rng.choice(LENGTHS[:48])), name[:rng.randrange(0, len(name) + 1)], name + b"x", b"", name.lower(), name.upper(), b" " + name, name + b" "])
    value = rng.choice(VALUES)
    r = rng.random()
    if r < 0.12:
        value += fill(rng, rng.choice(LENGTHS))
    elif r < 0.16:
        value = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))
    elif r < 0.2:
        value = rng.choice(VALUES) + rng.choice([b" ", b",", b"\t", b"-", b"="]) + rng.choice(VALUES)
    sep = rng.choice([b": "] * 12 + [b":", b" : ", b"", b":  ", b":\t", b"::", b"\r\n: "])
    end = rng.choice([b"\r\n"] * 20 + [b"\n", b"\r\n ", b"\r\n\t", b"\r", b"\r\r\n", b"\n\r"])
    return name + sep + value + end


def chunked(rng):
    out = b""
    for _ in range(rng.randrange(0, 5)):
        size = rng.choice([0, 1, 2, 9, 10, 15, 16, 17, 255, 256, 257, 1000])
        text = rng.choice([b"%x", b"%X", b"0%x", b"0000000000%x", b"%x;ext", b"%x;a=b", b"%x ", b" %x", b"-%x", b"+%x", b"%xg", b"0x%x"][:rng.choice([2, 2, 12])]) % size
        if rng.random() < 0.05:
            text = rng.choice([b"ffffffff", b"ffffffffffffffff", b"10000000000000000", b"7fffffffffffffff", b"80000000", b"", b"g", b"\xff"])
        out += text + rng.choice([b"\r\n"] * 12 + [b"\n", b"\r", b"\r\r\n"])
        out += fill(rng, size + rng.choice([0] * 12 + [-1, 1, 5]) if size else 0)
        out += rng.choice([b"\r\n"] * 12 + [b"\n", b"", b"\r", b"xx"])
    out += rng.choice([b"0\r\n\r\n"] * 6 + [b"", b"0\r\n", b"0\n\n", b"0\r\nTrailer: x\r\n\r\n", b"00\r\n\r\n", b"0;x\r\n\r\n", b"0\r\n: \r\n\r\n"])
    return out


def one_request(rng):
    method = rng.choice(METHODS[:4] + METHODS)
    if rng.random() < 0.05:
        method = rng.choice([b"", b"G", b"get", b"GETT", b"XYZZY", method + b"X", method[:-1], b"\0", b"M-", b"M-SEARCHX", fill(rng, 100), b" GET", b"HTTP/1.1", b"-"])
    version = rng.choice([b"HTTP/1.1"] * 12 + [b"HTTP/1.0", b"HTTP/1.0", b"HTTP/0.9", b"HTTP/2.0", b"HTTP/1.", b"HTTP/", b"HTTP/1.1x", b"HTTP/11", b"HTTP/999999.1", b"HTTP/1.99999",
                                               b"http/1.1", b"", b"HTTP", b"HTTP/a.b", b"HTTP/1.1 x", b"HTTP/4294967297.1"])
    line = method + rng.choice([b" "] * 20 + [b"  ", b"\t", b""]) + target(rng) + rng.choice([b" "] * 20 + [b"  ", b"\t", b""]) + version
    line += rng.choice([b"\r\n"] * 16 + [b"\n", b"\r", b" \r\n", b"\r\r\n"])
    heads = [header(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6, 30]))]
    if rng.random() < 0.5:
        heads.insert(0, b"Connection: keep-alive\r\n")
    body = b""
    r = rng.random()
    if r < 0.2:
        size = rng.choice([0, 1, 5, 100, 1023, 1024, 1025, 5000])
        heads.append(b"Content-Length: %d\r\n" % size)
        body = fill(rng, max(0, size + rng.choice([0] * 8 + [-1, 1, 10])))
    elif r < 0.4:
        heads.append(b"Transfer-Encoding: chunked\r\n")
        body = chunked(rng)
    elif r < 0.45:
        body = fill(rng, rng.choice(LENGTHS))
    rng.shuffle(heads)
    return line + b"".join(heads) + rng.choice([b"\r\n"] * 20 + [b"\n", b"", b"\r", b"\r\r\n", b" \r\n"]) + body


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        kind = rng.randrange(7)
        at = rng.randrange(len(data) + 1)
        if kind == 0 and data:
            data[at % len(data)] = rng.randrange(256)
        elif kind == 1:
            data[at:at] = bytes([rng.choice(b"\0\r\n :/%.;=-,\xff\x80\t09aZ")])
        elif kind == 2:
            del data[at:at + rng.choice([1, 1, 2, 5, 30])]
        elif kind == 3:
            end = at + rng.choice([1, 4, 20, 100])
            data[at:at] = data[at:end] * rng.choice([1, 2, 10])
        elif kind == 4:
            data[at:at] = fill(rng, rng.choice(LENGTHS[:50]))
        elif kind == 5:
            del data[at:]
        elif data:
            data[at % len(data)] ^= 1 << rng.randrange(8)
    return bytes(data)


def stream(rng):
    """One connection's worth of bytes."""
    r = rng.random()
    if r < 0.03:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300)))
    if r < 0.05:
        return rng.choice([b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + b"\0" * 50, b"\r\n" * rng.choice([1, 2, 50, 3000]), b"\n", b"\0" * rng.choice([1, 100, 5000]),
                           b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"SSH-2.0-x\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello", b"HELO x\r\n", b"\xff" * 1000])
    parts = [one_request(rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]
    data = b"".join(parts)
    if rng.random() < 0.45:
        data = mutate(rng, data)
    return data
