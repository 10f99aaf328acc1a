"""A strict HTTP/1.1 client over raw sockets: it never repairs what the server
sent, so framing errors are visible."""
import re
import select
import socket
import ssl
import time


class Closed(Exception):
    """The peer closed or reset before a complete response."""

    def __init__(self, message, partial=b""):
        Exception.__init__(self, message)
        self.partial = partial


class Late(Exception):
    """No progress within the timeout."""

    def __init__(self, message, partial=b""):
        Exception.__init__(self, message)
        self.partial = partial


class Malformed(Exception):
    """The bytes received are not a valid response."""


class Response:
    def __init__(self, version, status, reason, headers, body, raw_head):
        self.version, self.status, self.reason = version, status, reason
        self.headers, self.body, self.raw_head = headers, body, raw_head

    def get(self, name, default=None):
        values = [v for k, v in self.headers if k.lower() == name.lower()]
        if not values:
            return default
        return values[0]

    def all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    @property
    def keep_alive(self):
        return (self.get("connection") or "").lower() == "keep-alive"

    def describe(self):
        return {"status": self.status, "reason": self.reason, "headers": self.headers, "body": self.body}


TOKEN = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


def parse_head(head):
    lines = head.split(b"\r\n")
    m = re.match(rb"^HTTP/1\.([01]) ([1-5][0-9][0-9]) ([^\r\n]*)$", lines[0])
    if not m:
        raise Malformed("status line %r" % lines[0][:120])
    headers = []
    for line in lines[1:]:
        if b":" not in line or b"\n" in line or b"\r" in line:
            raise Malformed("header line %r" % line[:120])
        name, value = line.split(b":", 1)
        name = name.decode("latin-1")
        if not TOKEN.match(name):
            raise Malformed("header name %r" % name[:120])
        headers.append((name, value.strip().decode("latin-1")))
    return "1." + m.group(1).decode(), int(m.group(2)), m.group(3).decode("latin-1"), headers


# waits of 20 s and more that ended without an answer: a server that works
# causes none, so after many of them less patience is enough to get through
_waits = [0]


def patience(timeout):
    if timeout is None or _waits[0] < 6:
        return timeout
    return min(timeout, 25.0 if _waits[0] < 16 else 10.0)


class Conn:
    def __init__(self, port, timeout=20.0, tls=None, rcvbuf=None, host="127.0.0.1", sndbuf=None, source=None):
        self.asked = timeout
        timeout = patience(timeout)
        self.timeout = timeout
        self.buffer = b""
        sock = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        if rcvbuf:
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if sndbuf:
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        sock.settimeout(timeout)
        if source:
            sock.bind((source, 0))
        sock.connect((host, port))
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if tls is not None:
            sock = tls.wrap_socket(sock, server_hostname="localhost")
        self.sock = sock
        self.received = 0
        self.eof = False

    def send(self, data):
        try:
            self.sock.sendall(data)
        except socket.timeout:
            self._waited()
            raise Late("the peer does not read")
        except OSError as error:
            raise Closed("send: %s" % error, self.buffer)

    def _waited(self):
        if self.asked >= 20:
            _waits[0] += 1

    def send_pieces(self, data, cuts, pause=0.0):
        last = 0
        for cut in list(cuts) + [len(data)]:
            if cut > last:
                self.send(data[last:cut])
                last = cut
                if pause and cut < len(data):
                    time.sleep(pause)

    def _fill(self):
        if self.eof:
            raise Closed("end of stream", self.buffer)
        try:
            data = self.sock.recv(65536)
        except socket.timeout:
            self._waited()
            raise Late("no data within %.0f s" % self.timeout, self.buffer)
        except (ConnectionError, ssl.SSLError, OSError) as error:
            self.eof = True
            raise Closed("recv: %s" % error, self.buffer)
        if not data:
            self.eof = True
            raise Closed("end of stream", self.buffer)
        self.received += len(data)
        self.buffer += data

    def read_response(self, head=False, interim=True):
        while b"\r\n\r\n" not in self.buffer:
            if len(self.buffer) > 262144:
                raise Malformed("unterminated headers")
            if self.buffer and not b"HTTP/1."[:7].startswith(self.buffer[:7]) and not self.buffer.startswith(b"HTTP/1."):
                raise Malformed("not a response: %r" % self.buffer[:80])
            self._fill()
        raw, _sep, rest = self.buffer.partition(b"\r\n\r\n")
        version, status, reason, headers = parse_head(raw)
        self.buffer = rest
        lengths = [v for k, v in headers if k.lower() == "content-length"]
        coding = [v for k, v in headers if k.lower() == "transfer-encoding"]
        response = Response(version, status, reason, headers, b"", raw)
        if len(set(lengths)) > 1 or (lengths and not re.match(r"^[0-9]+$", lengths[0])):
            raise Malformed("content length %r" % lengths)
        if head or status in (204, 304) or 100 <= status < 200:
            return response
        if coding and coding[-1].lower() == "chunked":
            response.body = self._read_chunked()
        elif lengths:
            size = int(lengths[0])
            parts, have = [self.buffer], len(self.buffer)
            while have < size:
                self.buffer = b""
                try:
                    self._fill()
                except Closed as error:
                    raise Closed("%s with %d of %d bytes of the body" % (error, have, size), b"".join(parts))
                except Late as error:
                    raise Late("%s with %d of %d bytes of the body" % (error, have, size), b"".join(parts))
                parts.append(self.buffer)
                have += len(self.buffer)
            data = b"".join(parts)
            response.body, self.buffer = data[:size], data[size:]
        else:
            response.body = self.read_eof()
        return response

    def _line(self):
        while b"\r\n" not in self.buffer:
            if len(self.buffer) > 65536:
                raise Malformed("unterminated line")
            self._fill()
        line, _sep, self.buffer = self.buffer.partition(b"\r\n")
        return line

    def _read_chunked(self):
        out = []
        while True:
            line = self._line().split(b";")[0].strip()
            if not re.match(rb"^[0-9a-fA-F]+$", line):
                raise Malformed("chunk size %r" % line[:80])
            size = int(line, 16)
            if size == 0:
                while self._line() != b"":
                    pass
                return b"".join(out)
            while len(self.buffer) < size + 2:
                self._fill()
            out.append(self.buffer[:size])
            if self.buffer[size:size + 2] != b"\r\n":
                raise Malformed("chunk end %r" % self.buffer[size:size + 2])
            self.buffer = self.buffer[size + 2:]

    def read_eof(self, timeout=None):
        """Everything up to the end of the stream (a reset ends it too)."""
        if timeout is not None:
            self.asked, self.timeout = timeout, patience(timeout)
            self.sock.settimeout(self.timeout)
        parts = [self.buffer]
        self.buffer = b""
        while True:
            try:
                self._fill()
            except Closed:
                break
            except Late as error:
                self.buffer = b"".join(parts)
                raise Late(str(error), self.buffer)
            parts.append(self.buffer)
            self.buffer = b""
        return b"".join(parts)

    def extra(self, wait=0.0):
        """Bytes already received or arriving within the wait."""
        end = time.time() + wait
        while True:
            left = max(0.0, end - time.time())
            ready, _w, _x = select.select([self.sock], [], [], left)
            if not ready or self.eof:
                return self.buffer
            try:
                self._fill()
            except (Closed, Late):
                return self.buffer

    def reset(self):
        """Closes with a RST."""
        import struct
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()

    def close(self):
        try:
            self.sock.close()
        except OSError:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def request(method=b"GET", target=b"/", headers=(), body=b"", keep=True, version=b"1.1", chunked=None):
    """headers: list of (name, value) as bytes; chunked: list of pieces."""
    lines = [method + b" " + target + b" HTTP/" + version]
    lines.append(b"Host: localhost")
    if keep:
        lines.append(b"Connection: keep-alive")
    for name, value in headers:
        lines.append(name + b": " + value)
    if chunked is not None:
        lines.append(b"Transfer-Encoding: chunked")
        out = b"\r\n".join(lines) + b"\r\n\r\n"
        for piece in chunked:
            if piece:
                out += b"%x\r\n" % len(piece) + piece + b"\r\n"
        return out + b"0\r\n\r\n"
    if body:
        lines.append(b"Content-Length: %d" % len(body))
    return b"\r\n".join(lines) + b"\r\n\r\n" + body
