"""P35: embedded in another program the service comes and goes."""
import os
import random
import re
import select
import shutil
import socket
import ssl
import subprocess
import tempfile
import time

from build import JAVA, build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, compare
from frame import VERIF
from libdrive import environment
from p14 import IP6
from p32 import delta_text
from server import NOBODY, SCRATCH, free_port, summarize
from website import Location, Site

LEVEL = "exploration"
RULE = ("a case is one call of the service embedded in a program, or one request that it was sent; distinct by (back end, what the call is, state of the service, "
        "turn in the process, how the service was started, kept connections)")
ASSUMPTIONS = ["the functions are called by one thread, and the one that runs the service by another",
               "a service is run at most once, and deleted after it ended", "a service stops within 30 seconds (bounded progress)"]

NOTHING = ["uptime", "name", "version", "platform", "flags", "compiler", "compilerVersion", "compilationDate", "compilationTime", "compilationFlags", "modules", "description"]
OPEN, CLOSED = 1, 2
CERT = os.path.join(VERIF, "data", "tls")


class Host:
    """The program, in a folder of its own."""

    def __init__(self, out, files, modules, etc):
        self.dir = tempfile.mkdtemp(prefix="verif-emb-", dir=SCRATCH)
        for name in ("www", "etc", "modules", "san"):
            os.mkdir(os.path.join(self.dir, name))
        shutil.copy2(os.path.join(out, "embed"), os.path.join(self.dir, "embed"))
        for name in modules:
            shutil.copy2(os.path.join(out, "modules", "libviriatum_mod_%s.so" % name), os.path.join(self.dir, "modules"))
        for name, data in [("www/" + k, v) for k, v in files.items()] + list(etc.items()):
            path = os.path.join(self.dir, name)
            os.makedirs(path if data is None else os.path.dirname(path), exist_ok=True)
            if data is not None:
                with open(path, "wb") as handle:
                    handle.write(data)
        for base, dirs, names in os.walk(self.dir):
            for name in [base] + [os.path.join(base, n) for n in dirs + names]:
                os.chown(name, NOBODY, NOBODY)
        os.chmod(self.dir, 0o755)

        def drop():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_NOFILE, (512, 512))
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)

        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.log = os.path.join(self.dir, "san", "log")
        self.proc = subprocess.Popen([os.path.join(self.dir, "embed")], cwd=self.dir, env=environment(self.log), stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=self.err, preexec_fn=drop, start_new_session=True)

    def ini(self, text):
        path = os.path.join(self.dir, "etc", "viriatum.ini")
        with open(path, "w") as handle:
            handle.write(text)
        os.chown(path, NOBODY, NOBODY)

    def ask(self, command, wait=60):
        """The answer to a command, or None when none comes."""
        try:
            self.proc.stdin.write(command.encode() + b"\n")
            self.proc.stdin.flush()
        except OSError:
            return None
        data = b""
        end = time.time() + wait
        while not data.endswith(b"\n"):
            ready, _w, _e = select.select([self.proc.stdout], [], [], max(0, end - time.time()))
            if not ready:
                return None
            piece = os.read(self.proc.stdout.fileno(), 1)
            if not piece:
                return None
            data += piece
        text = data.decode().strip()
        return bytes.fromhex(text[1:]).decode("latin-1") if text.startswith("=") else text

    def reports(self):
        out = ""
        folder = os.path.dirname(self.log)
        for name in sorted(os.listdir(folder)):
            with open(os.path.join(folder, name), errors="replace") as handle:
                out += handle.read()
        return out

    def cleanup(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        self.proc.stdin.close()
        self.proc.stdout.close()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Session:
    def __init__(self, ctx, rng, host, label):
        self.ctx, self.rng, self.host, self.label = ctx, rng, host, label
        self.turn, self.how, self.done = 0, "", []

    def broken(self, command):
        """The program gave no answer."""
        time.sleep(0.2)
        rc = self.host.proc.poll()
        text = self.host.reports()
        if rc is None:
            # is it held up, or slow
            end = time.time() + 30
            while time.time() < end and self.host.proc.poll() is None:
                time.sleep(0.1)
            rc, text = self.host.proc.poll(), self.host.reports()
        key = "report:" + summarize(text) if text.strip() else "died:%s:%s" % (command.split(" ")[0], rc) if rc is not None else "stuck:" + command
        self.fail(key, "%s: no answer to %s (exit %s): %s" % (self.label, command, rc, text[:1800]))

    def fail(self, key, message):
        self.ctx.violation(key, message, calls=self.done[-60:], how=self.how)
        raise Skip()

    def call(self, command, expected=None, state=""):
        self.done.append(command)
        got = self.host.ask(command)
        self.ctx.case((self.label, command, state, min(self.turn, 3), self.how))
        self.ctx.count("calls")
        if got is None:
            self.broken(command)
        self.done[-1] += " -> " + got[:60]
        if expected is not None and got != expected:
            self.fail("call:%s:%s" % (command, state), "%s: %s %s answered %r, expected %r" % (self.label, command, state, got[:300], expected))
        return got

    def nothing(self, state):
        self.call("exists", "0", state)
        for name in self.rng.sample(NOTHING, 4):
            self.call("string " + name, "null", state)
        for name in ("port", "connections", "status"):
            self.call(name, "-1", state)

    def facts(self, state, port, modules=None, since=None):
        """What the service says of itself."""
        rng = self.rng
        self.call("exists", "1", state)
        self.call("port", str(port), state)
        self.call("string name", "viriatum", state)
        version = self.call("string version", None, state)
        self.call("string getVersion", version, state)
        self.call("string getName", "viriatum", state)
        self.call("string hello", "Hello world, from Viriatum HTTP", state)
        said = {}
        for name in NOTHING:
            if name not in ("modules", "uptime"):
                said[name] = self.call("string " + name, None, state)
                if not said[name].isprintable() or not said[name] or said[name] == "null":
                    self.fail("fact:%s" % name, "%s: %s %s is %r" % (self.label, name, state, said[name][:200]))
        if said["description"] != "%s/%s (%s) (%s)" % (said["name"], said["version"], said["platform"], said["flags"]):
            self.fail("fact:description", "%s: the description %r is not made of %r" % (self.label, said["description"], said))
        if getattr(self, "said", said) != said:
            self.fail("fact:changed", "%s: %r was %r" % (self.label, said, self.said))
        self.said = said
        listed = self.call("string modules", None, state)
        if modules is not None and sorted(listed.replace(",", " ").split()) != sorted(modules):
            self.fail("fact:modules:" + state, "%s: the modules are %r, expected %r" % (self.label, listed[:200], modules))
        before = time.time()
        uptime = self.call("string uptime", None, state).rstrip()
        lowest, highest = 0 if since is None else int(before - since) - 2, int(time.time() - (since or self.started)) + 2
        if uptime not in [delta_text(value, 2) for value in range(max(0, lowest), highest + 1)]:
            self.fail("fact:uptime:" + state, "%s: the uptime is %r, %d to %d s after the start" % (self.label, uptime, lowest, highest))

    def count(self, expected, state):
        """The connections are told soon."""
        end = time.time() + 30
        while True:
            got = self.call("connections", None, state)
            if got == str(expected):
                return
            if time.time() > end:
                self.fail("connections:" + state, "%s: %s connections, expected %d" % (self.label, got, expected))
            time.sleep(0.02)


FILES = {"index.html": b"<html>index</html>", "a.txt": b"text" * 50, "big.bin": bytes(range(256)) * 3000, "d/b.txt": b"bb", "d/e/index.html": b"deep"}
TARGETS = [b"/", b"/a.txt", b"/big.bin", b"/d/b.txt", b"/d", b"/d/e/", b"/none", b"/d/none"]
FAILURES = {"handler": "Handler not found", "host": "Invalid host address", "port": "Problem binding socket", "certificate": "Problem loading ssl certificate", "key": "Problem loading ssl key",
            "host6": "Problem getting ip6 address information", "port6": "Problem binding socket"}


def one_life(s, site, modules):
    """A service from its creation to its end."""
    ctx, rng, host = s.ctx, s.rng, s.host
    s.turn += 1
    port = free_port()
    secure = rng.random() < 0.25
    failure = rng.choice([name for name in sorted(FAILURES) if IP6 or "6" not in name]) if rng.random() < 0.3 else None
    never = failure is None and rng.random() < 0.12
    s.how = failure or ("not run" if never else "tls" if secure else "plain")
    general = {"port": str(port), "host": "127.0.0.1", "handler": "dispatch"}
    if secure or failure in ("certificate", "key"):
        general.update(ssl="On", ssl_csr="cert/ec.crt", ssl_key="cert/ec.key")
    both = IP6 and (rng.random() < 0.25 or failure in ("host6", "port6"))
    if both:
        general.update(ip6="On", ip6_host="nothing" if failure == "host6" else "[::1]")
        s.how += " both"
    taken = None
    if failure == "handler":
        general["handler"] = "nothing"
    elif failure == "host":
        general["host"] = "no address"
    elif failure == "port":
        taken = socket.socket()
        taken.bind(("127.0.0.1", port))
        taken.listen(1)
    elif failure == "port6":
        taken = socket.socket(socket.AF_INET6)
        taken.bind(("::1", port))
        taken.listen(1)
    elif failure == "certificate":
        general["ssl_csr"] = "www/a.txt"
    elif failure == "key":
        general["ssl_key"] = "www/a.txt"
    host.ini(site.ini(general))
    s.call("drop")
    before = s.call("descriptors")
    s.nothing("before")
    if rng.random() < 0.3:
        s.call("ran", "", "before")
    s.started = time.time()
    s.call("init", "", "before")
    s.call("status", str(CLOSED), "made")
    s.call("connections", "0", "made")
    s.facts("made", port, [])
    if never:
        if rng.random() < 0.5:
            s.call("ran", "", "made")
    else:
        began = time.time()
        s.call("run", "started")
        if failure:
            message = s.call("wait", None, "failing")
            if message != "Problem running service (%s)\n" % FAILURES[failure]:
                s.fail("message:" + failure, "%s: a start that fails (%s) gave %r" % (s.label, failure, message))
            s.call("status", str(CLOSED), "failed")
            ctx.count("failed_starts")
        else:
            serve(s, site, port, secure, both, modules, began)
    if taken:
        taken.close()
    # the program has other uses for the descriptors
    held = rng.choice([0, 0, 1, 8, 40])
    if held:
        s.call("hold %d" % held, str(held))
    s.call("exists", "1", "ended")
    s.call("destroy", "", "ended")
    if s.call("held", None, "destroyed") != "0":
        s.fail("descriptors:closed", "%s: descriptors of the rest of the program are closed with the service (%s)" % (s.label, s.how))
    s.call("drop")
    s.nothing("destroyed")
    after = s.call("descriptors", None, "destroyed")
    # the library of TLS and the modules may keep some of their own at first
    if int(after) > int(before):
        s.fail("descriptors:kept", "%s: %s descriptors before the service and %s after it (%s)" % (s.label, before, after, s.how))
    probe = socket.socket()
    try:
        probe.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        probe.bind(("127.0.0.1", port))
        probe.listen(1)
    except OSError as error:
        s.fail("address", "%s: the address of the service is not free after it: %s" % (s.label, error))
    finally:
        probe.close()
    ctx.count("lives")


def serve(s, site, port, secure, both, modules, began):
    ctx, rng = s.ctx, s.rng
    tls = None
    if secure:
        tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        tls.check_hostname = False
        tls.verify_mode = ssl.CERT_NONE
    end = time.time() + 60
    while True:
        try:
            socket.create_connection(("127.0.0.1", port), 5).close()
            break
        except OSError:
            if s.call("ended", None, "starting") != "0":
                message = s.call("wait")
                if "binding" in message or "listening" in message:
                    # somebody else may have come to the port, but not again and again
                    ctx.busy = getattr(ctx, "busy", 0) + 1
                    if ctx.busy < 4:
                        raise Skip()
                s.fail("start", "%s: the service ended by itself: %r" % (s.label, message))
            if time.time() > end:
                s.fail("start", "%s: the service does not accept connections" % s.label)
            time.sleep(0.02)
    conns = []
    try:
        for _ in range(rng.choice([0, 1, 3, 12])):
            conns.append(Conn(port, timeout=60, tls=tls, host="::1" if both and rng.random() < 0.5 else "127.0.0.1"))
            ask(s, site, conns[-1])
        s.call("status", str(OPEN), "serving")
        s.count(len(conns) + 1 + both, "serving")
        s.facts("serving", port, modules, began)
        for _ in range(rng.choice([0, 5, 20])):
            if conns:
                ask(s, site, rng.choice(conns))
        for conn in conns[:rng.randrange(len(conns) + 1)]:
            conn.close()
            conns.remove(conn)
        s.count(len(conns) + 1 + both, "serving")
        pending = rng.choice([None, None, "unread", "half"]) if conns else None
        if pending == "unread":
            conns[0].send(request(b"GET", b"/big.bin") * 20)
        elif pending == "half":
            conns[0].send(request(b"GET", b"/a.txt")[:-4])
        s.how += " %s %d" % (pending, min(len(conns), 3))
        s.call("ran", "", "serving")
        since = time.time()
        while s.call("ended", None, "stopping") == "0":
            if time.time() - since > 30:
                s.fail("stop", "%s: the service does not end" % s.label)
            time.sleep(0.05)
        s.call("wait", "", "stopping")
        s.call("status", str(CLOSED), "ended")
        s.call("connections", "0", "ended")
        # everybody is let go
        for conn in conns:
            conn.sock.settimeout(30)
            try:
                while conn.sock.recv(65536):
                    pass
            except (ConnectionError, ssl.SSLError):
                pass
            except OSError as error:
                s.fail("kept", "%s: a connection is still open after the end of the service: %s" % (s.label, error))
            ctx.count("connections_released")
        if rng.random() < 0.3:
            s.call("ran", "", "ended")
    finally:
        for conn in conns:
            conn.close()


def ask(s, site, conn):
    target = s.rng.choice(TARGETS)
    s.ctx.case((s.label, "request", target, min(s.turn, 3), s.how))
    try:
        conn.send(request(b"GET", target))
        diff = compare(site.expect(b"GET", target), conn.read_response(), False)
    except (Closed, Late, Malformed, OSError) as error:
        diff = ["%s %s" % (type(error).__name__, error)]
        if s.host.proc.poll() is not None or s.host.reports().strip():
            s.broken("a request")
    s.ctx.count("requests")
    if diff:
        s.fail("answer", "%s: %s: %s" % (s.label, target, "; ".join(diff)))


def one_program(ctx, rng, index):
    backend = "embed_select" if index % 3 == 2 else "embed"
    modules = rng.choice([[], ["diag"], ["gif", "lua"], ["diag", "gif", "lua"]])
    out = build(backend, what=("modules",), drivers=("embed",))
    etc = {}
    for name in ("ec.crt", "ec.key"):
        with open(os.path.join(CERT, name), "rb") as handle:
            etc["cert/" + name] = handle.read()
    site = Site(FILES, [Location("all", "^/d/e", "file")], index=["index.html"])
    host = Host(out, FILES, modules, etc)
    s = Session(ctx, rng, host, backend)
    try:
        for _ in range(rng.choice([1, 2, 3, 6])):
            one_life(s, site, modules)
            if ctx.late():
                break
        host.proc.stdin.close()
        try:
            rc = host.proc.wait(60)
        except subprocess.TimeoutExpired:
            s.fail("stuck:end", "%s: the program does not end" % s.label)
        text = host.reports()
        ctx.count("programs")
        if "LeakSanitizer has encountered a fatal error" in text:
            ctx.unsure("leak checking is not possible here")
        elif text.strip() or rc != 0:
            s.fail("report:" + summarize(text) if text.strip() else "exit:%s" % rc, "%s: at the end of the program, exit %s: %s" % (s.label, rc, text[:1800]))
    except Skip:
        pass
    finally:
        host.cleanup()


def run(ctx):
    if not JAVA:
        ctx.unsure("the declarations of Java's native interface are not installed")
        return
    for index in range(ctx.n(40, 900)):
        one_program(ctx, random.Random(ctx.rng.getrandbits(32)), index)
        if ctx.late():
            break
