"""Runs the instrumented viriatum server in a throw-away directory, as an
unprivileged user, and collects what the sanitizers and the kernel report."""
import errno
import glob
import os
import random
import re
import shutil
import signal
import socket
import subprocess
import tempfile
import time

import peek

NOBODY = 65534
# what memory just allocated contains, in turns: code that depends on what was
# there before behaves differently. "reuse" hands released memory out again
# right away with its contents untouched, as ordinary allocators do.
FILLS = [
    "max_malloc_fill_size=4194304:malloc_fill_byte=190",
    "max_malloc_fill_size=0:quarantine_size_mb=0:thread_local_quarantine_size_kb=0",
    "max_malloc_fill_size=4194304:malloc_fill_byte=0",
    "max_malloc_fill_size=0:quarantine_size_mb=0:thread_local_quarantine_size_kb=0",
    "max_malloc_fill_size=4194304:malloc_fill_byte=2",
    "max_malloc_fill_size=4194304:malloc_fill_byte=255",
]
_started = [0]
SCRATCH = "/tmp"
EXITCODE = 86

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=86:abort_on_error=0:detect_leaks=%d:halt_on_error=1:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:detect_odr_violation=0:strict_string_checks=0:handle_abort=1:"
                    "%s:log_path=%s",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86:log_path=%s",
    "LSAN_OPTIONS": "exitcode=86:max_leaks=0:log_threads=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=86:log_path=%s",
}


class ServerDied(Exception):
    pass


class Unresponsive(Exception):
    pass


def default_ini(general=None, locations=(), extra=""):
    """locations: list of (name, {key: value})."""
    values = {"use_template": "Off", "index": "index.html"}
    values.update(general or {})
    lines = ["[general]"] + ["%s = %s" % kv for kv in values.items()] + [""]
    for name, fields in locations:
        lines.append("[location:%s]" % name)
        lines += ["%s = %s" % kv for kv in fields.items()] + [""]
    return "\n".join(lines) + "\n" + extra


def free_port():
    """A port that nobody listens at, apart from those the system gives to
    connections, so that none takes it before the server does. Another run
    at the same time is not to come to the same ones: not from the seed."""
    while True:
        port = random.SystemRandom().randrange(10000, 32000)
        try:
            for family, host in ((socket.AF_INET, ""), (socket.AF_INET6, "::")):
                try:
                    probe = socket.socket(family)
                except OSError:
                    continue
                with probe:
                    if family == socket.AF_INET6:
                        probe.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
                    probe.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    try:
                        probe.bind((host, port))
                        probe.listen(1)
                    except OSError as error:
                        if error.errno == errno.EADDRINUSE:
                            raise
        except OSError:
            continue
        return port


def split_reports(text):
    return text.strip()


def summarize(text):
    """A stable key for a sanitizer report: the kind and the innermost frames
    of the repository, without line numbers or addresses."""
    kind = "unknown"
    m = re.search(r"ERROR: (?:AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([A-Za-z0-9_-]+)", text)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", text)
    if m2 and not m:
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60]
    m3 = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", text)
    if m3:
        kind = m3.group(1).strip()
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([A-Za-z_0-9]+) [^\n]*?/(?:src|modules)/", text)
    return "%s@%s" % (kind, ">".join(frames[:3]))


# the servers not cleaned up yet
_live = set()


def abandon():
    for server in list(_live):
        try:
            server.cleanup()
        except Exception:
            pass


class Server:
    """root: files of the served directory, given as {path: bytes or None (dir)}."""

    def __init__(self, build_dir, ini, files=None, modules=(), args=(), leaks=True, binary="viriatum",
                 env=None, uid=NOBODY, etc=None, fd_limit=512, keep=False, mutate=None,
                 command=None, probe="127.0.0.1"):
        self.build_dir = build_dir
        self.dir = tempfile.mkdtemp(prefix="verif-srv-", dir=SCRATCH)
        _live.add(self)
        self.www = os.path.join(self.dir, "www")
        self.uid = uid
        self.keep = keep
        self.leaks = leaks
        self.env = env or {}
        self.args = list(args)
        # command: a function of the port giving the whole command line and
        # the configuration file (which then name the port), if any
        self.command = command
        self.probe = probe
        self.fd_limit = fd_limit
        # set by checks that judge the end of the server themselves
        self.judged = False
        self.proc = None
        self.reports = []
        self.binary = os.path.join(self.dir, "viriatum")
        shutil.copy2(os.path.join(build_dir, binary), self.binary)
        for name in ("www", "etc", "modules", "san"):
            os.mkdir(os.path.join(self.dir, name))
        for m in modules:
            shutil.copy2(os.path.join(build_dir, "modules", "libviriatum_mod_%s.so" % m), os.path.join(self.dir, "modules"))
        with open(os.path.join(self.dir, "etc", "viriatum.ini"), "w") as handle:
            handle.write(ini)
        for name, data in (etc or {}).items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as handle:
                handle.write(data)
        for name, data in (files or {}).items():
            self.put(name, data)
        if mutate:
            mutate(self)
        os.chmod(self.dir, 0o755)
        if os.geteuid() == 0:
            for base, dirs, names in os.walk(self.dir):
                for n in [base] + [os.path.join(base, x) for x in names]:
                    if not os.path.islink(n):
                        os.chown(n, uid, uid)

    def put(self, name, data):
        path = os.path.join(self.www, name)
        if data is None:
            os.makedirs(path, exist_ok=True)
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as handle:
            handle.write(data)

    def start(self):
        for _attempt in range(5):
            self.port = free_port()
            self.launch()
            deadline = time.time() + 60
            while time.time() < deadline:
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection((self.probe, self.port), timeout=5).close()
                    return self
                except OSError:
                    time.sleep(0.02)
            if self.proc.poll() is None:
                raise Unresponsive("the server did not accept connections within 60 s")
            text = self.log_text()
            # what it leaves allocated as it gives up is not judged here
            grave = "AddressSanitizer" in text.replace("SUMMARY: AddressSanitizer", "") or "ThreadSanitizer" in text or "runtime error" in text
            if ("binding" in self.stdio_text() or "listening" in self.stdio_text()) and not grave:
                continue
            raise ServerDied("the server did not start: exit %s\n%s\n%s" % (self.proc.returncode, text, self.stdio_text()[-1500:]))
        raise ServerDied("the server did not start: it could not bind any of five free ports\n%s" % self.stdio_text()[-1500:])

    def launch(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "LANG": "C.UTF-8", "TZ": "UTC"}
        log = os.path.join(self.dir, "san", "log")
        for key, value in SAN_ENV.items():
            if key == "ASAN_OPTIONS":
                value = value % (1 if self.leaks else 0, FILLS[_started[0] % len(FILLS)], log)
                _started[0] += 1
            elif "%s" in value:
                value = value % log
            env[key] = value
        sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if sym:
            env["ASAN_SYMBOLIZER_PATH"] = sym
            env["UBSAN_SYMBOLIZER_PATH"] = sym
        env.update(self.env)
        uid = self.uid
        limit = self.fd_limit

        def drop():
            import resource
            resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if os.geteuid() == 0:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)

        self.out = open(os.path.join(self.dir, "stdout"), "wb")
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        line = ["--port=%d" % self.port, "--host=127.0.0.1"] + self.args
        self.written = None
        if self.command:
            line, ini = self.command(self.port)
            self.written = ini
            path = os.path.join(self.dir, "etc", "viriatum.ini")
            if ini is None:
                os.unlink(path)
            else:
                with open(path, "wb") as handle:
                    handle.write(ini)
        self.line = line
        self.proc = subprocess.Popen([self.binary] + line,
                                     cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.out,
                                     stderr=self.err, preexec_fn=drop, start_new_session=True)

    def attempt(self, port, data, wait=20):
        """Starts a server that may refuse to: (exit code, or None when it
        runs, sanitizer text, what it answers to the data)."""
        self.port = port
        self.launch()
        answer = b""
        deadline = time.time() + wait
        while time.time() < deadline and self.proc.poll() is None:
            try:
                with socket.create_connection((self.probe, port), timeout=5) as sock:
                    sock.sendall(data)
                    sock.settimeout(wait)
                    while True:
                        piece = sock.recv(65536)
                        if not piece:
                            break
                        answer += piece
                break
            except OSError:
                time.sleep(0.02)
        rc = self.proc.poll()
        if rc is None:
            _rc, text = self.stop()
            return None, text, answer
        return rc, self.log_text(), answer

    def stdio_text(self):
        out = ""
        for name in ("stdout", "stderr"):
            with open(os.path.join(self.dir, name), "rb") as handle:
                out += handle.read()[-6000:].decode(errors="replace")
        return out

    def log_text(self):
        out = ""
        for path in sorted(glob.glob(os.path.join(self.dir, "san", "log*"))):
            with open(path, "rb") as handle:
                out += handle.read().decode(errors="replace")
        return out

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def fds(self):
        found = peek.links(self.proc.pid)
        return None if found is None else sorted(found.values())

    def rss_kb(self):
        try:
            with open("/proc/%d/status" % self.proc.pid) as handle:
                for line in handle:
                    if line.startswith("VmRSS"):
                        return int(line.split()[1])
        except OSError:
            pass
        return 0

    def cpu_ticks(self):
        with open("/proc/%d/stat" % self.proc.pid) as handle:
            fields = handle.read().rsplit(")", 1)[1].split()
        return int(fields[11]) + int(fields[12])

    def stop(self, sig=signal.SIGTERM, timeout=60):
        """Terminates the server and returns (exit code, sanitizer text)."""
        if self.proc is None:
            return None, ""
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
            try:
                self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
                return "timeout", self.log_text()
        return self.proc.returncode, self.log_text()

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def cleanup(self):
        _live.discard(self)
        self.kill()
        if self.proc is not None:
            try:
                # workers, if any
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
        for handle in (getattr(self, "out", None), getattr(self, "err", None)):
            if handle:
                handle.close()
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self.start()

    def __exit__(self, *exc):
        self.cleanup()
