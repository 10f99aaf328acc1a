"""P16: the handlers of the modules (lua, gif, diag) give their answers."""
import json
import os
import random
import re
import threading
import time

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, serving
from server import NOBODY

LEVEL = "exploration"
RULE = ("a case is one request to a location of a module (a run of the handle function of the script, the empty image, the diagnostics) judged by the exact answer; "
        "distinct by (kind of the run, size, connection kept, position in the history)")
ASSUMPTIONS = ["scripts write one complete response per run", "the message of a failed script is only part of the answers made with templates"]

GIF = bytes.fromhex("47494638396101000100f00100ffffff00000021f9040 10a0000002c000000000100010000020244 01003b".replace(" ", ""))

SCRIPT = b"""
-- run %(version)d
version = %(version)d
function handle()
    runs = (runs or 0) + 1
    local n = runs
    local k = n %% %(period)d
    if k == 3 then error("boom " .. n) end
    if k == 5 then local x = nil; x.y = 1 end
    if k == 7 then error({}) end
    if k == 9 then write_connection(connection, "x") end
    if k == 11 then write_connection("a", "b", 1) end
    if k == 13 then error(string.rep("e", 5000)) end
    if k == 17 then write_connection(connection, "HTTP/1.1 200 OK\\r\\nContent-Length: 0\\r\\n\\r\\n", "none") end
    if k == 19 then write_connection(connection, {}, 10) end
    if k == 21 then write_connection("connection", "HTTP/1.1 200 OK\\r\\nContent-Length: 0\\r\\n\\r\\n", 38) end
    if k == 23 then write_connection() end
    if k == 25 then local function deep(x) return 1 + deep(x + 1) end; deep(1) end
    local size = (n * 7919) %% %(modulus)d
    local unit = n .. "/" .. version .. "\\0;"
    local body = string.sub(string.rep(unit, size / #unit + 1), 1, size)
    local data = "HTTP/1.1 200 OK\\r\\nX-Run: " .. n .. "\\r\\nX-Version: " .. version .. "\\r\\nContent-Length: " .. #body .. "\\r\\n\\r\\n" .. body
    local length = #data
    if k == 15 then length = length + 100000 end
    write_connection(connection, data, length)
end
%(tail)s
"""
BROKEN = [b"function handle(\n", b"error('loading')\n", b"local x = nil + 1\n", b"\x01\x02", b"return = 5", b"error({})\n", b"", b"handle = 5\n", b"handle = nil\n",
          b"function handle()\n write_connection(connection, 'HTTP/1.1 200 OK\\r\\nContent-Length: 0\\r\\n\\r\\n', 38)\nend\nerror('at the end')\n",
          b"function handle() error() end\n", b"function other() end\n"]
FAILS = (3, 5, 7, 9, 11, 13, 17, 19, 21, 23, 25)


def config(handler=None):
    return ("[general]\nuse_template = Off\nindex = index.html\n" + ("handler = %s\n" % handler if handler else "") + "\n[location:lua]\npath = ^/lua\nhandler = lua\n\n[location:gif]\npath = ^/gif\nhandler = gif\n\n"
            "[location:diag]\npath = ^/diag\nhandler = diag\n\n[mod_lua]\nscript_path = handler.lua\n")


def body_of(n, version, modulus):
    size = (n * 7919) % modulus
    unit = b"%d/%d\0;" % (n, version)
    return (unit * (size // len(unit) + 1))[:size]


class Client(threading.Thread):
    """Requests over kept and closed connections; remembers the runs seen."""

    def __init__(self, ctx, seed, server, label, rounds, version, period, modulus, opened, handler=None):
        threading.Thread.__init__(self)
        self.ctx, self.rng, self.server, self.label, self.rounds = ctx, random.Random(seed), server, label, rounds
        self.version, self.period, self.modulus, self.opened = version, period, modulus, opened
        self.runs, self.fails, self.error, self.problem = [], 0, None, None
        # without the handler that dispatches only one is there
        self.kinds = [handler] if handler else ["lua", "lua", "lua", "gif", "diag"]

    def run(self):
        try:
            self.work()
        except Exception as error:  # noqa: judged by the caller
            self.error = error

    def work(self):
        conn = None
        rng, ctx = self.rng, self.ctx
        for index in range(self.rounds):
            if conn is None:
                conn = Conn(self.server.port, timeout=60)
            keep = rng.random() < 0.85
            burst = rng.choice([1, 1, 1, 3]) if keep else 1
            kinds = [rng.choice(self.kinds) for _ in range(burst)]
            methods = [rng.choice([b"GET", b"GET", b"POST"]) if k == "lua" else rng.choice([b"GET", b"HEAD", b"POST"]) for k in kinds]
            data = b"".join(request(m, b"/" + k.encode() + rng.choice([b"", b"/x", b"?a=1"]), keep=keep,
                                    body=b"body" * rng.randrange(0, 50) if m == b"POST" else b"") for k, m in zip(kinds, methods))
            conn.send(data)
            for kind, method in zip(kinds, methods):
                response = conn.read_response(head=method == b"HEAD")
                text = self.judge(kind, method, response)
                ctx.case((self.label, kind, method, keep, response.status, len(response.body), index))
                ctx.count("answers_" + kind)
                if text:
                    self.problem = "%s %s: %s" % (method.decode(), kind, text)
                    return
                if kind != "lua" and response.keep_alive != keep:
                    self.problem = "%s: connection %r, asked to keep: %s" % (kind, response.get("connection"), keep)
                    return
            if not keep:
                rest = conn.read_eof(60)
                if rest:
                    self.problem = "bytes after the last response: %r" % rest[:100]
                    return
                conn.close()
                conn = None
            elif conn.buffer:
                self.problem = "bytes after the response: %r" % conn.buffer[:100]
                return
        if conn:
            conn.close()

    def judge(self, kind, method, response):
        if kind == "gif":
            if response.status != 200 or response.get("content-type") != "image/gif" or response.get("content-length") != "43" or \
               response.body != (b"" if method == b"HEAD" else GIF):
                return "not the empty image: %r %r" % (response.describe()["headers"], response.body)
            return None
        if kind == "diag":
            if response.status != 200 or response.get("content-type") != "application/json":
                return "diagnostics: %r" % response.describe()
            if method == b"HEAD":
                return None
            try:
                values = json.loads(response.body.decode())
            except ValueError as error:
                return "diagnostics are not JSON: %s %r" % (error, response.body)
            if values["port"] != self.server.port or values["name"] != "viriatum" or sorted(values["modules"].split()) != ["diag", "gif", "lua"]:
                return "diagnostics: %r" % values
            if not 2 <= values["connections"] <= self.opened + 1:
                return "%d connections, at most %d are open" % (values["connections"], self.opened)
            return None
        if response.status == 500:
            self.fails += 1
            return None
        if response.status != 200:
            return "status %d" % response.status
        n = int(response.get("x-run"))
        self.runs.append(n)
        if int(response.get("x-version")) != self.version:
            return "script version %s, expected %d" % (response.get("x-version"), self.version)
        if n % self.period in FAILS:
            return "run %d has to fail" % n
        if response.body != body_of(n, self.version, self.modulus):
            return "body of run %d differs (%d bytes, expected %d)" % (n, len(response.body), len(body_of(n, self.version, self.modulus)))
        return None


def script(version, period, modulus, tail=b""):
    return SCRIPT.replace(b"%%", b"%%") % {b"version": version, b"period": period, b"modulus": modulus, b"tail": tail}


def write_script(server, data):
    path = os.path.join(server.dir, "handler.lua")
    with open(path + ".tmp", "wb") as handle:
        handle.write(data)
    os.rename(path + ".tmp", path)


def ask(server):
    with Conn(server.port, timeout=60) as conn:
        conn.send(request(b"GET", b"/lua", keep=False))
        return conn.read_response()


def exactly_once(ctx, rng, out, label):
    period = rng.choice([1, 16, 17, 28, 40])
    modulus = rng.choice([50, 3000, 70000, 400000])
    handler = rng.choice([None, None, None, None, "lua", "lua", "gif", "diag"])
    with serving(ctx, out, config(handler), label, modules=("diag", "gif", "lua"),
                 etc={"handler.lua": script(1, period, modulus, rng.choice([b"", b"return 1, 2, 3", b"x = {}"]))}) as server:
        count = rng.choice([1, 3, 8])
        rounds = max(20, ctx.n(500, 1500) // count) if modulus < 100000 else 40
        clients = [Client(ctx, rng.random(), server, label, rounds, 1, period, modulus, count + 1, handler) for _ in range(count)]
        for c in clients:
            c.start()
        for c in clients:
            c.join()
        context = {"period": period, "modulus": modulus, "clients": count, "handler": handler}
        for c in clients:
            if c.problem:
                ctx.violation("answer:" + re.sub(r"[0-9].*", "", c.problem)[:60], "%s: %s" % (label, c.problem), **context)
                return
            if c.error:
                alive_or_report(ctx, server, label, context)
                ctx.violation("exchange:" + type(c.error).__name__, "%s: %s" % (label, c.error), **context)
                return
        runs = sorted(n for c in clients for n in c.runs)
        fails = sum(c.fails for c in clients)
        ctx.count("runs", len(runs) + fails)
        ctx.count("failed_runs", fails)
        last = len(runs) + fails
        # one client sees the runs in its own order
        for c in clients:
            if c.runs != sorted(c.runs):
                ctx.violation("run-order", "%s: the responses of one client are out of order" % label, **context)
        expected = [n for n in range(1, last + 1) if n % period not in FAILS]
        if runs != expected:
            odd = sorted(set(runs) ^ set(expected))[:5] or [n for n in runs if runs.count(n) > 1][:5]
            ctx.violation("exactly-once", "%s: the runs of the script and the answers do not correspond, e.g. %s (%d answers, %d failures)" % (label, odd, len(runs), fails), **context)
        ctx.sample({"label": label, "runs": last, "failures": fails, **context})


def reloading(ctx, rng, out, label):
    """Broken scripts answer 500, and are read again for the next request."""
    first = rng.random() < 0.5
    with serving(ctx, out, config(), label, modules=("diag", "gif", "lua"),
                 etc={} if not first else {"handler.lua": rng.choice(BROKEN)}) as server:
        version = 1
        state = "broken"
        for step in range(ctx.n(12, 40)):
            plan = rng.choice(["same", "good", "broken", "failing"])
            try:
                if plan in ("good", "failing") and state != "good":
                    version += 1
                    write_script(server, script(version, 1, 100) if plan == "good" else script(version, 3, 100).replace(b"if k == 3 then", b"if true then"))
                    loaded = plan
                elif plan == "broken" and state != "good":
                    write_script(server, rng.choice(BROKEN))
                    loaded = "broken"
                else:
                    loaded = state
                response = ask(server)
                ctx.case((label, "reload", state, plan, step))
                ctx.count("reload_steps")
                if loaded == "good":
                    if response.status != 200 or int(response.get("x-version")) != version:
                        ctx.violation("reload-not-effective", "%s: after %s/%s the script was not read again: %d %s, expected version %d" % (
                            label, state, plan, response.status, response.get("x-version"), version))
                        return
                elif response.status != 500:
                    ctx.violation("broken-script-answer", "%s: a %s script answered %d" % (label, loaded, response.status))
                    return
                state = loaded
                if rng.random() < 0.3:
                    with Conn(server.port, timeout=60) as conn:
                        conn.send(request(b"GET", b"/gif", keep=False))
                        if conn.read_response().body != GIF:
                            ctx.violation("reload-gif", "%s: the other modules are disturbed" % label)
            except (Closed, Late, Malformed) as error:
                alive_or_report(ctx, server, label, {"step": step, "plan": plan})
                ctx.violation("reload-exchange", "%s: %s with a %s script" % (label, error, plan))
                return


def connections(ctx, rng, out, label):
    """The number of connections is the one of the open connections."""
    with serving(ctx, out, config(), label, modules=("diag", "gif", "lua"), etc={"handler.lua": script(1, 1, 100)}) as server:
        held = []
        started = time.time()
        for step in range(ctx.n(25, 80)):
            if held and rng.random() < 0.4:
                held.pop(rng.randrange(len(held))).close()
            else:
                conn = Conn(server.port, timeout=60)
                held.append(conn)
            if not held:
                continue
            for _attempt in range(200):
                conn = rng.choice(held)
                conn.send(request(b"GET", b"/diag"))
                before = time.time()
                values = json.loads(conn.read_response().body.decode())
                if values["connections"] == len(held) + 1:  # the listening one is counted
                    break
                time.sleep(0.01)
            else:
                ctx.violation("connections", "%s: %d connections reported, %d are open" % (label, values["connections"], len(held)))
                return
            ctx.case((label, "connections", len(held), step))
            ctx.count("connection_counts")
            numbers = [int(x) for x in re.findall(r"[0-9]+", values["uptime"])]
            if "second" in values["uptime"] and len(numbers) == 1 and not -2 <= before - started - numbers[0] <= 30:
                ctx.violation("uptime", "%s: uptime %r after %.1f s" % (label, values["uptime"], before - started))
        for conn in held:
            conn.close()


def strangers(server, rng):
    """Files among the modules that are none, or that can't be loaded."""
    folder = os.path.join(server.dir, "modules")
    gif = os.path.join(folder, "libviriatum_mod_gif.so")
    with open(gif, "rb") as handle:
        library = handle.read()
    made = {
        "libviriatum_mod_empty.so": b"", "libviriatum_mod_text.so": b"not a library\n" * 50, "viriatum_mod_short.so": library[:rng.randrange(1, 60)],
        "libviriatum_mod_gif.so.bak": library, "notes.txt": b"x", "README": b"", "libother.so": library, "a_viriatum_mod_gif.so": library, ".so": library,
        "viriatum_.so": b"", "libviriatum_mod_" + "n" * 200 + ".so": b"",
        # a library without the function that names the module
        "libviriatum_mod_nameless.so": library,
    }
    for name, data in made.items():
        if rng.random() < 0.7:
            with open(os.path.join(folder, name), "wb") as handle:
                handle.write(data)
    if rng.random() < 0.7:
        os.mkdir(os.path.join(folder, "libviriatum_mod_folder.so"))
    if rng.random() < 0.7:
        os.symlink("nowhere", os.path.join(folder, "libviriatum_mod_dangling.so"))


def company(ctx, rng, out, label):
    """Files that are not modules change nothing for those that are."""
    server_kw = dict(modules=("diag", "gif", "lua"), etc={"handler.lua": script(1, 40, 3000)})
    with serving(ctx, out, config(), label, shake=False, mutate=lambda server: strangers(server, rng), **server_kw) as server:
        client = Client(ctx, rng.random(), server, label, 40, 1, 40, 3000, 2)
        client.run()
        ctx.count("with_strangers")
        if client.problem or client.error:
            alive_or_report(ctx, server, label, {"strangers": sorted(os.listdir(os.path.join(server.dir, "modules")))})
            ctx.violation("company:" + re.sub(r"[0-9].*", "", str(client.problem or client.error))[:60], "%s: with files that are not modules: %s" % (label, client.problem or client.error))


def run(ctx):
    rng = ctx.rng
    for backend in ("asan", "select"):
        build(backend, ("server", "modules"))
    for index in range(ctx.n(56, 400)):
        backend = "select" if index % 4 == 3 else "asan"
        out = build(backend, ("server", "modules"))
        for part in (exactly_once, reloading, connections, company):
            try:
                part(ctx, rng, out, "%s/%s" % (part.__name__, backend))
            except Skip:
                pass
        if ctx.late():
            break
