"""P15: TLS connections carry the same answers as plain ones."""
import base64
import hashlib
import os
import random
import re
import socket
import ssl
import struct
import threading
import time

from build import build
from client import Closed, Late, Malformed, Conn, request
from drive import Skip, alive_or_report, compare, serving
from frame import VERIF
from p03 import at_rest
from server import default_ini
from website import Location, Site, encode_path, random_files

LEVEL = "exploration"
RULE = ("a case is one response over TLS compared with the reference behaviour of the site, while other clients fail, stall or leave during handshakes and transfers; "
        "distinct by (back end, protocol version, certificate, kind of answer, size class, segmentation, history position, hostile company)")
ASSUMPTIONS = ["the system OpenSSL is trusted on both sides", "certificates are not verified by the clients"]

CERT = os.path.join(VERIF, "data", "tls")


def read(name):
    with open(os.path.join(CERT, name), "rb") as handle:
        return handle.read()


def context(version):
    tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    tls.check_hostname = False
    tls.verify_mode = ssl.CERT_NONE
    tls.minimum_version = tls.maximum_version = version
    return tls


VERSIONS = {"1.2": ssl.TLSVersion.TLSv1_2, "1.3": ssl.TLSVersion.TLSv1_3}


class Channel:
    """A TLS client that decides itself when and how the bytes of its records
    reach the socket. It looks like a socket to client.Conn."""

    def __init__(self, port, tls, rng, timeout=60, cut=0.0, rcvbuf=None, pause=0.0):
        self.rng, self.cut, self.pause = rng, cut, pause
        self.raw = socket.socket()
        if rcvbuf:
            self.raw.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.raw.settimeout(timeout)
        self.raw.connect(("127.0.0.1", port))
        self.raw.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.inward, self.outward = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.tls = tls.wrap_bio(self.inward, self.outward, server_hostname="localhost")
        self.segments = 0
        while True:
            try:
                self.tls.do_handshake()
                break
            except ssl.SSLWantReadError:
                self.flush()
                self.fill()
        self.flush()

    def flush(self):
        data = self.outward.read()
        while data:
            size = len(data)
            if self.cut and self.rng.random() < self.cut:
                size = self.rng.choice([1, 2, 4, 5, 6, 16, 100, 1000])
            self.raw.sendall(data[:size])
            self.segments += 1
            if size < len(data) and self.pause:
                time.sleep(self.rng.random() * self.pause)
            data = data[size:]

    def fill(self):
        data = self.raw.recv(self.rng.choice([1000, 17000, 65536]))
        if not data:
            self.inward.write_eof()
            raise ssl.SSLEOFError("end of the connection")
        self.inward.write(data)

    def sendall(self, data):
        # each write is a record of its own
        while data:
            size = len(data) if self.rng.random() < 0.5 else self.rng.choice([1, 3, 50, 1024, 16384])
            self.tls.write(data[:size])
            data = data[size:]
            if self.rng.random() < 0.5:
                self.flush()
        self.flush()

    def recv(self, size):
        while True:
            try:
                return self.tls.read(size)
            except ssl.SSLWantReadError:
                try:
                    self.fill()
                except ssl.SSLEOFError:
                    raise ConnectionResetError("the connection ended without a closing alert")
            except ssl.SSLZeroReturnError:
                return b""

    def settimeout(self, value):
        self.raw.settimeout(value)

    def setsockopt(self, *args):
        self.raw.setsockopt(*args)

    def close(self, polite=True):
        try:
            if polite:
                try:
                    self.tls.unwrap()
                except (ssl.SSLError, OSError):
                    pass
                self.flush()
        except OSError:
            pass
        self.raw.close()

    def fileno(self):
        return self.raw.fileno()

    def shutdown(self, how):
        self.raw.shutdown(how)


def connect(server, channel, timeout=60):
    conn = Conn.__new__(Conn)
    conn.timeout, conn.buffer, conn.sock, conn.received, conn.eof = timeout, b"", channel, 0, False
    conn.asked = timeout
    return conn


def make_site(rng):
    files = random_files(rng, 14, big=1)
    for size in (0, 1, 16384, 16385, 262143, 262144, 262145, 1000000, 3000000):
        files["size%d.bin" % size] = rng.randbytes(size)
    files["index.html"] = b"the index"
    return Site(files, [Location("def", "^/default", "default")], index=["index.html"])


def good(ctx, rng, server, site, label, version, backend, errors, company):
    tls = context(VERSIONS[version])
    conn, position = None, 0
    names = [n for n, d in site.files.items() if d is not None]
    try:
        for _ in range(ctx.n(14, 30)):
            batch = []
            for _i in range(rng.choice([1, 1, 1, 2, 5])):
                if rng.random() < 0.25:
                    target = rng.choice([b"/", b"/default", b"/none", b"/default/x", b"/size1.bin/"])
                else:
                    name = rng.choice(names) if rng.random() < 0.5 else rng.choice([n for n in names if n.startswith("size")])
                    target = b"/" + encode_path(name.encode(), rng, 0.1)
                batch.append((rng.choice([b"GET"] * 5 + [b"HEAD"]), target))
            keep = rng.random() < 0.85
            cut = rng.choice([0.0, 0.0, 0.3, 0.9])
            try:
                if conn is None:
                    channel = Channel(server.port, tls, rng, cut=cut, rcvbuf=rng.choice([None, None, 4096, 30000]), pause=rng.choice([0, 0, 0.003]))
                    conn, position = connect(server, channel), 0
                data = b"".join(request(m, t, keep=keep or i < len(batch) - 1) for i, (m, t) in enumerate(batch))
                conn.send(data)
                for method, target in batch:
                    if rng.random() < 0.1:
                        time.sleep(rng.random() * 0.1)
                    expected = site.expect(method, target)
                    response = conn.read_response(head=method == b"HEAD")
                    diff = compare(expected, response, method == b"HEAD")
                    size = len(expected["body"] or b"")
                    with ctx.lock:
                        ctx.case((label, version, expected["kind"], size.bit_length(), bool(cut), min(position, 3), company, method))
                        ctx.count("responses")
                        ctx.count("bytes_compared", len(response.body))
                        ctx.top("largest_body", len(response.body))
                        ctx.top("longest_history", position)
                        if expected["kind"] == "file":
                            ctx.sample({"target": target, "size": size, "version": version, "segments": conn.sock.segments})
                    position += 1
                    if diff:
                        errors.append(("%s:%s" % (expected["kind"], diff[0].split(":")[0][:30]), "%s %r over TLS %s: %s" % (method, target, version, "; ".join(diff)), None))
                        return
                if not keep or not response.keep_alive:
                    rest = conn.sock.recv(10)
                    if rest:
                        errors.append(("extra", "%d bytes after the last response" % len(rest), None))
                    conn.sock.close(rng.random() < 0.5)
                    conn = None
                    with ctx.lock:
                        ctx.count("closed_with_alert")
            except Late as error:
                errors.append((None, str(error), None))
                return
            except (Closed, Malformed, OSError) as error:
                errors.append(("no-response:" + type(error).__name__, "%s: %s on %r at %d over TLS %s" % (type(error).__name__, error, batch[:3], position, version), batch))
                return
    finally:
        if conn:
            conn.sock.close(rng.random() < 0.5)


def uploads(ctx, rng, server, site, label, version, errors, alone):
    """Requests with bodies, in records of any size, also all of them pending at once."""
    try:
        channel = Channel(server.port, context(VERSIONS[version]), rng, cut=rng.choice([0.0, 0.0, 0.02]))
    except (ssl.SSLError, OSError) as error:
        errors.append(("upload-handshake", "TLS %s: %s" % (version, error), None))
        return
    channel.raw.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 22)
    conn = connect(server, channel)
    shape = []
    try:
        for step in range(ctx.n(7, 14)):
            requests, data = [], b""
            for _ in range(rng.choice([1, 1, 2, 5, 30])):
                method = rng.choice([b"POST", b"POST", b"PUT", b"GET", b"HEAD"])
                target = rng.choice([b"/size1.bin", b"/size0.bin", b"/size16384.bin", b"/default", b"/none", b"/"])
                size = rng.choice([0, 1, 100, 16383, 16384, 16385, 40000, 70000]) if rng.random() < 0.8 else rng.choice([262144, 999999, 1048576, 1100000, 2300000])
                body = (rng.choice([b"x", b"GET /size1.bin HTTP/1.1\r\n\r\n", b"\r\n0\r\n\r\n"]) * size)[:size]
                if rng.random() < 0.25:
                    piece = rng.choice([1000, 16384, 65536, 500000])
                    raw = request(method, target, chunked=[body[i:i + piece] for i in range(0, size, piece)], keep=True)
                else:
                    raw = request(method, target, body=body, keep=True)
                requests.append((method, target, size))
                data += raw
                if len(data) > 4000000:
                    break
            shape.append([r[2] for r in requests])
            rest = alone and rng.random() < 0.6
            if rest:
                records = b""
                while data:
                    size = rng.choice([1, 5, 700, 16384, 16384, 100000, 1000000]) if len(data) < 2000000 or rng.random() < 0.3 else 1000000
                    channel.tls.write(data[:size])
                    records += channel.outward.read()
                    data = data[size:]
                left = at_rest(server, [(connect(server, channel.raw), records)])[0]
                ctx.top("most_records_pending", len(records) - len(left))
                channel.raw.sendall(left)
            else:
                conn.send(data)
            for method, target, size in requests:
                expected = site.expect(method, target)
                response = conn.read_response(head=method == b"HEAD")
                diff = compare(expected, response, method == b"HEAD")
                if not response.keep_alive:
                    diff.append("not kept")
                with ctx.lock:
                    ctx.count("uploads")
                    ctx.count("upload_bytes", size)
                    ctx.case((label, version, "upload", method, size.bit_length(), rest, len(requests)))
                if diff:
                    errors.append(("upload:" + diff[0].split(":")[0][:30], "%s %r with a body of %d bytes over TLS %s: %s" % (method, target, size, version, "; ".join(diff)), shape))
                    return
    except Late as error:
        errors.append((None, str(error), None))
    except (Closed, Malformed, OSError) as error:
        errors.append(("upload:" + type(error).__name__, "%s: %s with bodies of %s bytes over TLS %s" % (type(error).__name__, error, shape[-1:], version), shape))
    finally:
        channel.close(rng.random() < 0.5)


class Upstream:
    """What a proxy location asks: as many bytes as the target says, and a
    field that tells the body of the request."""

    def __init__(self):
        self.listener = socket.socket()
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(50)
        self.port = self.listener.getsockname()[1]
        self.asked = 0
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                sock, _ = self.listener.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(sock,), daemon=True).start()

    def serve(self, sock):
        data = b""
        try:
            while True:
                while b"\r\n\r\n" not in data:
                    more = sock.recv(65536)
                    if not more:
                        return
                    data += more
                head, data = data.split(b"\r\n\r\n", 1)
                length = re.search(rb"(?i)content-length: *(\d+)", head)
                length = int(length.group(1)) if length else 0
                while len(data) < length:
                    more = sock.recv(65536)
                    if not more:
                        return
                    data += more
                body, data = data[:length], data[length:]
                self.asked += 1
                line = head.split(b"\r\n")[0].split(b" ")
                size = int(line[1].split(b"/")[-1])
                answer = b"HTTP/1.1 200 OK\r\nConnection: keep-alive\r\nContent-Length: %d\r\nX-Told: %s %d %s\r\n\r\n" % (
                    size, line[0], length, hashlib.md5(body).hexdigest().encode())
                sock.sendall(answer + (b"" if line[0] == b"HEAD" else (b"0123456789abcdef" * (size // 16 + 1))[:size]))
        except OSError:
            pass
        finally:
            sock.close()

    def stop(self):
        self.listener.close()


SCRIPT = b"""function handle()
  local body = string.rep("abc", 100000)
  local head = "HTTP/1.1 200 OK\\r\\nConnection: keep-alive\\r\\nContent-Length: 300000\\r\\n\\r\\n"
  write_connection(connection, head .. body, #head + 300000)
end
"""


def twins(ctx, rng, backend):
    """Every kind of service, asked the same in plain and over TLS: what comes
    back is the same to the last byte."""
    up = Upstream()
    files = random_files(rng, 10, big=0)
    for size in (0, 1, 16384, 262144, 262145, 700000):
        files["size%d.bin" % size] = rng.randbytes(size)
    files.update({"safe/deep/a.txt": b"behind the password", "index.html": b"the index", "sub/index.html": b"another", "many": None})
    for i in range(rng.choice([0, 5, 300])):
        files["many/entry %d" % i] = b"x" * i
    locations = [("p", {"path": "^/p/", "handler": "proxy", "proxy_pass": "http://127.0.0.1:%d/" % up.port}),
                 ("lua", {"path": "^/lua", "handler": "lua"}), ("gif", {"path": "^/gif", "handler": "gif"}),
                 ("def", {"path": "^/default", "handler": "default"}), ("to", {"path": "^/to", "handler": "file", "redirect": "/elsewhere/x"}),
                 ("safe", {"path": "^/safe", "handler": "file", "auth_basic": "Safe", "auth_file": "etc/users"})]
    general = {}
    etc = {"cert/server.crt": read("rsa.crt"), "cert/server.key": read("rsa.key"), "handler.lua": SCRIPT, "etc/users": b"user:pass\n"}

    def still(server):
        for base, dirs, names in os.walk(server.www, topdown=False):
            for name in names + [""]:
                os.utime(os.path.join(base, name), (1300000000, 1300000000))

    secure = dict(general, ssl="On", ssl_csr="cert/server.crt", ssl_key="cert/server.key")
    out = build(backend, ("server", "modules"))
    inis = [default_ini(g, locations, "[mod_lua]\nscript_path = handler.lua\n") for g in (general, secure)]
    names = [n for n, d in files.items() if d is not None]
    ok = b"Basic " + base64.b64encode(b"user:pass")
    try:
        with serving(ctx, out, inis[0], backend, files=files, etc=etc, modules=("lua", "gif"), mutate=still) as plain, \
                serving(ctx, out, inis[1], backend, files=files, etc=etc, modules=("lua", "gif"), mutate=still) as over:
            for _ in range(ctx.n(25, 80)):
                data, shape = b"", []
                count = rng.choice([1, 2, 4, 12])
                for i in range(count):
                    kinds = ["file", "file", "size", "default", "redirect", "safe", "list", "none"]
                    # what upstream and the script answer keeps the connection
                    kind = rng.choice(kinds + ["proxy", "proxy", "lua", "gif"] if i < count - 1 else kinds)
                    target = {"file": b"/" + encode_path(rng.choice(names).encode(), rng, 0.1), "size": b"/size%d.bin" % rng.choice([0, 1, 16384, 262144, 262145, 700000]),
                              "proxy": b"/p/%d" % rng.choice([0, 1, 100, 16384, 70000, 262144, 1000000]), "lua": b"/lua", "gif": b"/gif", "default": b"/default?x",
                              "redirect": rng.choice([b"/to", b"/many", b"/to/?a=b"]), "safe": b"/safe/deep/" + rng.choice([b"a.txt", b"b.txt", b""]),
                              "list": rng.choice([b"/many/", b"/sub/", b"/", b"/safe/"]), "none": b"/none"}[kind]
                    headers = []
                    if rng.random() < 0.3:
                        headers.append((b"Range", rng.choice([b"bytes=0-0", b"bytes=1-", b"bytes=-5", b"bytes=16383-300000", b"bytes=9999999-", b"x"])))
                    if kind == "safe" and rng.random() < 0.6:
                        headers.append((b"Authorization", rng.choice([ok, ok, b"Basic cm9vdDpyb290", b"Basic"])))
                    if rng.random() < 0.2:
                        headers.append((b"Cache-Control", rng.choice([b"no-cache", b"max-age=0"])))
                    method = rng.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST", b"PUT"])
                    body = b"" if method in (b"GET", b"HEAD") else rng.choice([b"y", b"GET / HTTP/1.1\r\n\r\n"]) * rng.choice([0, 1, 100, 16384, 50000])
                    data += request(method, target, headers, body, keep=i < count - 1)
                    shape.append((kind, method, len(body), i))
                asked, got = up.asked, []
                cut = rng.choice([0.0, 0.0, 0.1])
                for server, version in ((plain, None), (over, rng.choice(["1.2", "1.3"]))):
                    try:
                        conn = connect(server, Channel(server.port, context(VERSIONS[version]), rng, cut=cut, rcvbuf=rng.choice([None, 4096]))) if version else Conn(server.port, timeout=60)
                        try:
                            conn.send(data)
                            got.append(conn.read_eof(60))
                        finally:
                            conn.sock.close()
                    except Late as error:
                        alive_or_report(ctx, server, backend, (inis, shape))
                        ctx.stuck("%s over %s: %s" % (shape, version, error), shape=shape, data=data)
                        return
                    except (Closed, Malformed, OSError) as error:
                        alive_or_report(ctx, server, backend, (inis, shape))
                        ctx.violation("twins:%s" % type(error).__name__, "%s over %s: %s" % (shape, version, error), shape=shape, data=data)
                        return
                    asked, told = up.asked, up.asked - asked
                    got.append(told)
                left, right = got[0::2]
                ctx.count("twin_answers", count)
                ctx.count("twin_bytes", len(left))
                for entry in shape:
                    ctx.case((backend, "twins", entry[0], entry[1], min(entry[3], 3), version))
                if left != right or got[1] != got[3]:
                    at = next((i for i in range(min(len(left), len(right))) if left[i] != right[i]), min(len(left), len(right)))
                    ctx.violation("twins:answers", "after %s the plain server sent %d bytes and asked upstream %d times, the one over TLS %s sent %d and asked %d; from %d on %r and %r" % (
                        shape, len(left), got[1], version, len(right), got[3], at, left[at:at + 80], right[at:at + 80]), ini=inis, data=data)
                    return
    except Skip:
        pass
    finally:
        up.stop()


def hello(tls):
    inward, outward = ssl.MemoryBIO(), ssl.MemoryBIO()
    client = tls.wrap_bio(inward, outward, server_hostname="localhost")
    try:
        client.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return outward.read()


HOSTILE = ["garbage", "plain http", "part of hello", "reset in hello", "damaged hello", "stall in hello", "nothing", "huge record", "reset in handshake", "damaged finish",
           "alert", "garbage after handshake", "reset in transfer", "leave in transfer", "plain after handshake", "half record", "renegotiate", "close at once", "no common cipher", "old version"]


def hostile(ctx, rng, server, kind, version, held):
    """One client that misbehaves."""
    tls = context(VERSIONS[version])
    if kind in ("garbage after handshake", "reset in transfer", "leave in transfer", "plain after handshake", "half record", "close at once"):
        channel = Channel(server.port, tls, rng, timeout=20, rcvbuf=4096)
        raw = channel.raw
        if kind in ("reset in transfer", "leave in transfer"):
            channel.sendall(request(b"GET", b"/size3000000.bin"))
            if rng.random() < 0.7:
                raw.recv(rng.choice([1, 1000, 20000]))
        elif kind == "garbage after handshake":
            raw.sendall(rng.randbytes(rng.choice([1, 5, 6, 100, 5000])))
        elif kind == "plain after handshake":
            raw.sendall(request(b"GET", b"/index.html"))
        elif kind == "half record":
            channel.tls.write(request(b"GET", b"/index.html"))
            data = channel.outward.read()
            raw.sendall(data[:rng.randrange(1, len(data))])
    else:
        raw = socket.create_connection(("127.0.0.1", server.port), timeout=20)
        data = hello(tls)
        if kind == "garbage":
            raw.sendall(rng.randbytes(rng.choice([1, 5, 6, 11, 100, 70000])))
        elif kind == "plain http":
            raw.sendall(request(b"GET", b"/"))
        elif kind in ("part of hello", "reset in hello", "stall in hello"):
            raw.sendall(data[:rng.randrange(1, len(data))])
        elif kind == "damaged hello":
            data = bytearray(data)
            for _ in range(rng.choice([1, 1, 3, 20])):
                data[rng.randrange(len(data))] = rng.randrange(256)
            raw.sendall(bytes(data))
        elif kind == "huge record":
            raw.sendall(b"\x16\x03\x01\xff\xff" + rng.randbytes(65535))
        elif kind in ("reset in handshake", "damaged finish"):
            inward, outward = ssl.MemoryBIO(), ssl.MemoryBIO()
            client = tls.wrap_bio(inward, outward, server_hostname="localhost")
            try:
                client.do_handshake()
            except ssl.SSLWantReadError:
                pass
            raw.sendall(outward.read())
            inward.write(raw.recv(rng.choice([5, 100, 65536])))
            if kind == "damaged finish":
                try:
                    while True:
                        try:
                            client.do_handshake()
                            break
                        except ssl.SSLWantReadError:
                            more = outward.read()
                            if more:
                                break
                            inward.write(raw.recv(65536))
                    more = bytearray(outward.read() or rng.randbytes(60))
                    more[-1] ^= 0x55
                    raw.sendall(bytes(more))
                except (ssl.SSLError, OSError):
                    pass
        elif kind == "alert":
            raw.sendall(data + b"\x15\x03\x03\x00\x02\x02" + bytes([rng.randrange(256)]))
        elif kind == "renegotiate":
            raw.sendall(data + data)
        elif kind == "no common cipher":
            odd = context(VERSIONS["1.2"])
            odd.set_ciphers("PSK:@SECLEVEL=0")
            raw.sendall(hello(odd))
        elif kind == "old version":
            raw.sendall(b"\x80\x2e\x01\x00\x02\x00\x15\x00\x00\x00\x10\x01\x00\x80" + rng.randbytes(40) if rng.random() < 0.5 else data[:9] + b"\x03\x00" + data[11:])
    if kind in ("reset in hello", "reset in handshake", "reset in transfer") or rng.random() < 0.2:
        raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        raw.close()
    elif kind in ("stall in hello", "nothing") or rng.random() < 0.3:
        held.append(raw)
    else:
        if rng.random() < 0.5:
            # what the server says of it, until it closes or stays silent
            raw.settimeout(0.2)
            try:
                while raw.recv(65536):
                    pass
            except OSError:
                pass
        raw.close()


def company_of(ctx, rng, server, stop, kinds, problems):
    held, done = [], 0
    try:
        while not stop.is_set():
            kind = rng.choice(kinds)
            try:
                hostile(ctx, rng, server, kind, rng.choice(["1.2", "1.3"]), held)
            except (OSError, ssl.SSLError, ValueError) as error:
                problems.append("%s: %s" % (kind, error))
            with ctx.lock:
                ctx.count("hostile_" + kind.replace(" ", "_"))
            done += 1
            while len(held) > 12:
                held.pop(rng.randrange(len(held))).close()
            time.sleep(rng.choice([0, 0.001, 0.01]))
    finally:
        for raw in held:
            raw.close()


def run(ctx):
    rng = ctx.rng
    ctx.lock = threading.Lock()
    for index in range(ctx.n(4, 30)):
        twins(ctx, rng, ["asan", "select"][index % 2])
    for index in range(ctx.n(12, 160)):
        backend = "select" if index % 3 == 2 else "asan"
        certificate = ["rsa", "ec"][index % 2]
        site = make_site(rng)
        ini = site.ini({"ssl": "On", "ssl_csr": "cert/server.crt", "ssl_key": "cert/server.key"})
        etc = {"cert/server.crt": read(certificate + ".crt"), "cert/server.key": read(certificate + ".key")}
        kinds = HOSTILE if index % 4 == 0 else rng.sample(HOSTILE, rng.choice([1, 2, 5])) if index % 4 != 1 else []
        company = "none" if not kinds else "all" if len(kinds) == len(HOSTILE) else ",".join(sorted(kinds)[:2])
        label = (backend, certificate)
        try:
            with serving(ctx, build(backend), ini, backend, files=site.files, etc=etc) as server:
                before = None
                stop, errors, problems = threading.Event(), [], []
                # the first connection makes the libraries open what they keep
                good(ctx, random.Random(1), server, site, label, "1.3", backend, errors, "warm up")
                before = settled(server, None)
                bad = [threading.Thread(target=company_of, args=(ctx, random.Random(rng.getrandbits(32)), server, stop, kinds, problems)) for _ in range(2 if kinds else 0)]
                threads = [threading.Thread(target=good, args=(ctx, random.Random(rng.getrandbits(32)), server, site, label, rng.choice(["1.2", "1.3"]), backend, errors, company))
                           for _ in range(rng.choice([1, 3, 6]))]
                threads.append(threading.Thread(target=uploads, args=(ctx, random.Random(rng.getrandbits(32)), server, site, label, rng.choice(["1.2", "1.3"]), errors, False)))
                for t in bad + threads:
                    t.start()
                for t in threads:
                    t.join()
                stop.set()
                for t in bad:
                    t.join()
                for version in ("1.2", "1.3"):
                    if not errors:
                        uploads(ctx, random.Random(rng.getrandbits(32)), server, site, label, version, errors, True)
                if errors:
                    alive_or_report(ctx, server, backend, (ini, kinds, errors[:2]))
                for key, text, artifact in errors[:4]:
                    if key is None:
                        ctx.stuck(text, hostile=kinds, ini=ini)
                    else:
                        ctx.violation(key, "%s (with %s)" % (text, kinds), hostile=kinds, ini=ini, batch=artifact)
                if before is not None:
                    after = settled(server, len(before))
                    ctx.case((label, "descriptors", company))
                    if after is not None and len(after) > len(before):
                        ctx.violation("descriptors", "%d descriptors after all clients left, %d before (with %s)" % (len(after), len(before), kinds), before=before, after=after)
                ticks = server.cpu_ticks()
                time.sleep(0.5)
                used = server.cpu_ticks() - ticks
                ctx.top("idle_ticks", used)
                if used > 25:
                    ctx.violation("busy", "the server used %d ticks in half a second without clients (with %s)" % (used, kinds))
        except Skip:
            pass
        if ctx.late():
            break


def settled(server, target):
    """Descriptors of the server once they stop changing (or reach the target)."""
    last, since = None, time.time()
    deadline = time.time() + 15
    while time.time() < deadline:
        now = server.fds()
        if now is None:
            return None
        if target is not None and len(now) <= target:
            return now
        if now != last:
            last, since = now, time.time()
        if target is None and time.time() - since > 0.3:
            return now
        time.sleep(0.02)
    return last
