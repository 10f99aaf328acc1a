"""Helper of the demonstrations: runs /repo's built server in a scratch folder
as an unprivileged user and talks to it over plain sockets."""
import atexit
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LIBS = ["-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]


def compile_tree(san=False, modules=(), driver=None, flags=()):
    """Compiles the sources of the current directory (the roots of the runtime
    paths are relative there) into a new scratch folder."""
    from concurrent.futures import ThreadPoolExecutor
    top = tempfile.mkdtemp(prefix="seed-build-")
    atexit.register(shutil.rmtree, top, True)
    os.chmod(top, 0o755)
    cflags = (["-fsanitize=address,undefined", "-fno-sanitize=alignment"] if san else []) + ["-g", "-O1", "-w", "-fPIC", "-DHAVE_CONFIG_H", "-I" + HERE] + list(flags)
    jobs, objs = [], []
    for part in ("viriatum_commons", "viriatum"):
        for base, _d, names in os.walk(os.path.join("src", part)):
            for n in names:
                if n.endswith(".c"):
                    path = os.path.join(base, n)
                    obj = os.path.join(top, path.replace("/", "__")[:-2] + ".o")
                    extra = ["-Dmain=viriatum_main"] if driver and path.endswith("viriatum/viriatum.c") else []
                    objs.append(obj)
                    jobs.append(["gcc"] + cflags + extra + ["-Isrc/" + part, "-c", path, "-o", obj])
    for m in modules:
        folder = os.path.join("modules", "mod_" + m, "src", "viriatum_mod_" + m)
        srcs = [os.path.join(b, n) for b, _d, names in os.walk(folder) for n in names if n.endswith(".c")]
        jobs.append(["gcc"] + cflags + ["-shared", "-I" + folder] + srcs + (["-llua5.1"] if m == "lua" else []) +
                    ["-o", os.path.join(top, "libviriatum_mod_%s.so" % m)])

    def one(cmd):
        proc = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if proc.returncode:
            print(proc.stdout.decode(errors="replace")[-2000:])
            os._exit(2)

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, jobs))
    if driver:
        one(["gcc"] + cflags + ["-Isrc/viriatum", os.path.join(HERE, driver)] + objs + LIBS + ["-o", os.path.join(top, "driver")])
    else:
        one(["gcc"] + cflags + ["-rdynamic"] + objs + LIBS + ["-o", os.path.join(top, "viriatum")])
    return top


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


class Server:
    def __init__(self, ini, files, etc=None, args=(), modules=(), fd_limit=256, san=False, built=None, env0=None):
        self.dir = tempfile.mkdtemp(prefix="seed-")
        os.chmod(self.dir, 0o755)
        for name, data in [("etc/viriatum.ini", ini.encode() if isinstance(ini, str) else ini)] + \
                [("www/" + k, v) for k, v in files.items()] + list((etc or {}).items()):
            path = os.path.join(self.dir, name)
            os.makedirs(path if data is None else os.path.dirname(path), exist_ok=True)
            if data is not None:
                with open(path, "wb") as handle:
                    handle.write(data)
        os.makedirs(os.path.join(self.dir, "www"), exist_ok=True)
        os.makedirs(os.path.join(self.dir, "modules"), exist_ok=True)
        top = built or compile_tree(san, modules)
        for m in modules:
            shutil.copy(os.path.join(top, "libviriatum_mod_%s.so" % m), os.path.join(self.dir, "modules"))
        shutil.copy(os.path.join(top, "viriatum"), os.path.join(self.dir, "viriatum"))
        subprocess.call(["chown", "-R", "65534:65534", self.dir])
        self.port = free_port()

        def drop():
            import resource
            resource.setrlimit(resource.RLIMIT_NOFILE, (fd_limit, fd_limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if os.geteuid() == 0:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)

        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TZ": "UTC", "ASAN_OPTIONS": "detect_odr_violation=0:detect_leaks=0"}
        env.update(env0 or {})
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen([os.path.join(self.dir, "viriatum"), "--port=%d" % self.port, "--host=127.0.0.1"] + list(args),
                                     cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, preexec_fn=drop)
        for _ in range(500):
            if self.proc.poll() is not None:
                raise SystemExit("the server did not start: %s" % open(os.path.join(self.dir, "log"), errors="replace").read()[-800:])
            try:
                socket.create_connection(("127.0.0.1", self.port), 5).close()
                return
            except OSError:
                time.sleep(0.02)
        raise SystemExit("the server does not listen")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGTERM)
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Conn:
    def __init__(self, port, timeout=20, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        self.s.connect(("127.0.0.1", port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b = b""

    def send(self, data):
        self.s.sendall(data)

    def fill(self):
        data = self.s.recv(65536)
        if not data:
            raise EOFError("closed with %d bytes pending" % len(self.b))
        self.b += data

    def response(self, head=False):
        while b"\r\n\r\n" not in self.b:
            self.fill()
        top, _s, self.b = self.b.partition(b"\r\n\r\n")
        lines = top.split(b"\r\n")
        status = int(lines[0].split()[1])
        headers = {}
        for line in lines[1:]:
            k, _s, v = line.partition(b":")
            headers[k.strip().lower().decode()] = v.strip().decode("latin-1")
        body = b""
        if not head and status not in (204, 304) and status >= 200:
            if headers.get("transfer-encoding", "").lower() == "chunked":
                while True:
                    while b"\r\n" not in self.b:
                        self.fill()
                    line, _s, self.b = self.b.partition(b"\r\n")
                    size = int(line.split(b";")[0], 16)
                    while len(self.b) < size + 2:
                        self.fill()
                    body += self.b[:size]
                    self.b = self.b[size + 2:]
                    if size == 0:
                        break
            elif "content-length" in headers:
                size = int(headers["content-length"])
                while len(self.b) < size:
                    self.fill()
                body, self.b = self.b[:size], self.b[size:]
            else:
                try:
                    while True:
                        self.fill()
                except EOFError:
                    pass
                body, self.b = self.b, b""
        return status, headers, body

    def extra(self, wait=0.5):
        """Bytes beyond the responses read so far."""
        self.s.settimeout(wait)
        try:
            while True:
                self.fill()
        except (EOFError, OSError):
            pass
        return self.b

    def close(self):
        self.s.close()


def req(target, method="GET", headers=(), body=b"", keep=True):
    out = "%s %s HTTP/1.1\r\nHost: localhost\r\n" % (method, target)
    if keep:
        out += "Connection: keep-alive\r\n"
    for k, v in headers:
        out += "%s: %s\r\n" % (k, v)
    if body:
        out += "Content-Length: %d\r\n" % len(body)
    return out.encode("latin-1") + b"\r\n" + body


def check(condition, text):
    if not condition:
        print("FAIL:", text)
        sys.exit(1)


INI = "[general]\nuse_template = Off\nindex = index.html\n\n"


def location(name, path, **fields):
    return "[location:%s]\npath = %s\n" % (name, path) + "".join("%s = %s\n" % kv for kv in fields.items()) + "\n"
