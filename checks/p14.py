"""P14: the configuration in effect is the one written."""
import os
import random
import socket
import ssl

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, compare, serving
from frame import VERIF
from server import Server, free_port, summarize
from website import Location, Site

LEVEL = "exploration"
RULE = ("a case is one observation (an address tried, a request answered) of a server started with a generated configuration file and command line; "
        "distinct by (what gives each option, value class, style of the file, observation)")
ASSUMPTIONS = ["option names, booleans (On, True, 1) and section names are spelled as in the shipped file",
               "a key given twice in one section is not judged"]

FALSE = ["Off", "False", "0", "No"]
TRUE = ["On", "True", "1"]
HOSTS = ["127.0.0.1", "127.0.0.2", "127.3.2.1", "0.0.0.0"]
PROBES = ["127.0.0.1", "127.0.0.2", "127.3.2.1"]
CERT = os.path.join(VERIF, "data", "tls")


def ip6_available():
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


IP6 = ip6_available()


def accepts(host, port):
    family = socket.AF_INET6 if ":" in host else socket.AF_INET
    s = socket.socket(family)
    s.settimeout(10)
    try:
        s.connect((host, port))
        return True
    except OSError:
        return False
    finally:
        s.close()


class Plan:
    """Options given by the file and by the command line, and what results."""

    def __init__(self, rng, index):
        self.rng = rng
        self.general, self.line = {}, {}
        self.effective = {"host": "0.0.0.0", "ip6": False, "ip6_host": "[::]", "ssl": False, "handler": "dispatch", "use_template": False, "index": []}
        self.where = {}
        # port: the placeholder is replaced when the server is started
        where = rng.choice(["file", "line", "both"])
        self.where["port"] = where
        if where != "line":
            self.general["port"] = "PORT" if where == "file" else "OTHER"
        if where != "file":
            self.line["port"] = "PORT"
        self.option("host", lambda: rng.choice(HOSTS), True)
        if IP6:
            self.option("ip6", lambda: rng.choice(TRUE + FALSE), True, boolean=True)
            self.option("ip6_host", lambda: rng.choice(["[::1]", "[::]"]), False)
        self.option("ssl", lambda: rng.choice(TRUE + FALSE * 3), rng.random() < 0.4, boolean=True)
        if rng.random() < 0.7 or self.effective["ssl"]:
            kind = rng.choice(["rsa", "ec"])
            self.certificate = kind
            self.general["ssl_csr"] = rng.choice(["cert/%s.crt", "./cert/%s.crt"]) % kind
            self.general["ssl_key"] = rng.choice(["cert/%s.key", "./cert/%s.key"]) % kind
        self.option("handler", lambda: rng.choice(["dispatch", "dispatch", "file", "default"]), True)
        self.option("use_template", lambda: rng.choice(TRUE + FALSE), False, boolean=True)
        if rng.random() < 0.7:
            names = rng.choice([["index.html"], ["main"], ["home.htm", "index.html"], ["none", "a.txt"], ["a.txt", "main", "index.html", "home.htm"],
                                ["x%d" % i for i in range(31)] + ["main"]])
            self.general["index"] = " ".join(names)
            self.effective["index"] = names
            self.where["index"] = "file"
        if rng.random() < 0.3:
            self.line["local"] = None
        if rng.random() < 0.2:
            self.general["workers"] = "0"
        if rng.random() < 0.5:
            self.general["unknown_option"] = "1"

    def option(self, name, value, on_line, boolean=False):
        rng = self.rng
        where = rng.choice(["none", "file", "line", "both"] if on_line else ["none", "file"])
        if where == "none":
            return
        self.where[name] = where
        if where in ("file", "both"):
            given = value()
            self.general[name] = given
            self.effective[name] = given in TRUE if boolean else given
        if where in ("line", "both"):
            if boolean:
                # naming the option is what enables it
                self.line[name] = None
                self.effective[name] = True
            else:
                given = value()
                self.line[name] = given
                self.effective[name] = given

    def write(self, locations, port, other):
        """The text of the file and the command line."""
        rng = random.Random(self.rng.getrandbits(32))
        end = rng.choice(["\n", "\n", "\r\n"])
        self.style = [repr(end)]

        def value_of(text):
            return text.replace("PORT", str(port)).replace("OTHER", str(other))

        def noise():
            out = ""
            while rng.random() < 0.3:
                out += rng.choice(["", "; a comment", ";", "; port = 1", "  ; [general]", "   ", "; handler = default"]) + end
            return out

        def pair(key, value):
            return rng.choice(["", "", "  ", "\t"]) + key + rng.choice([" = ", "=", "  =   ", "= ", " ="]) + value_of(value) + end

        def section(name, pairs):
            pairs = list(pairs)
            rng.shuffle(pairs)
            return noise() + "[%s]" % name + end + "".join(noise() + pair(*item) for item in pairs)
        general = list(self.general.items())
        parts = []
        if general or rng.random() < 0.7:
            if len(general) > 1 and rng.random() < 0.2:
                # a section that is continued later
                cut = rng.randrange(1, len(general))
                parts.append(("general", general[:cut]))
                parts.append(("general", general[cut:]))
                self.style.append("split")
            else:
                parts.append(("general", general))
        places = sorted(rng.sample(range(len(locations) + len(parts)), len(parts)))
        order = [("location:" + loc.name, list(dict({"path": loc.path, "handler": loc.handler}, **loc.fields).items())) for loc in locations]
        for place, part in zip(places, parts):
            order.insert(place, part)
        if rng.random() < 0.3:
            order.insert(rng.randrange(len(order) + 1), (rng.choice(["other", "locations", "location", "loc:x", "General"]), [("path", "^/"), ("handler", "default"), ("port", "1")]))
            self.style.append("other section")
        text = "".join(section(*item) for item in order) + noise()
        if rng.random() < 0.2:
            text = text.rstrip("\r\n\t ")
            self.style.append("no final line end")
        ini = text.encode()
        line = []
        for key, value in self.line.items():
            line.append("--" + key if value is None else "--%s=%s" % (key, value_of(value)))
        for extra in ("word", "--unknown", "--unknown=1", "-x"):
            if rng.random() < 0.1:
                line.append(extra)
        rng.shuffle(line)
        if not order and rng.random() < 0.5:
            ini = None
            self.style.append("no file")
        return line, ini

    def key(self):
        return tuple(sorted(self.where.items())), tuple(getattr(self, "style", ()))


def template(name):
    with open(os.path.join(VERIF, "data", name), "rb") as handle:
        return handle.read()


FILES = {"templates/error.html.tpl": template("error.html.tpl"), "templates/listing.html.tpl": template("listing.html.tpl"), "index.html": b"www:index.html", "main": b"www:main", "home.htm": b"www:home.htm", "a.txt": b"www:a.txt", "sub/index.html": b"www:sub/index.html",
         "sub/main": b"www:sub/main", "b/a.txt": b"www:b/a.txt", "hello/a.txt": b"www:hello/a.txt", "empty": None, "x1": b"www:x1"}
EXTRA = {"base1/a.txt": b"base1:a.txt", "base1/index.html": b"base1:index.html", "base2/a.txt": b"base2:a.txt", "base2/sub/main": b"base2:sub/main"}


def locations(rng):
    out = []
    for i in range(rng.choice([0, 1, 2, 5, 12])):
        name = rng.choice(["l%d", "%d", "a-%d", "name_%d", "z%d.x", "sp ace%d"]) % i
        handler = rng.choice(["file", "file", "file", "default"])
        fields = {}
        if handler == "file" and rng.random() < 0.7:
            fields["base_path"] = rng.choice(["base1", "base2", "./base1", "base2/", "www/sub"])
        out.append(Location(name, rng.choice(["^/b", "^/hello", "^/sub", r"\.txt$", "^/l%d" % i, "^/c/d", "^/(b|c)/", "main", "^/x[0-9]"]), handler, **fields))
    return out


def broken(ctx, rng):
    """Options that can not take effect end the server with an error, and
    extreme ones do not harm it."""
    taken = socket.socket()
    taken.bind(("127.0.0.1", 0))
    taken.listen(1)
    busy = taken.getsockname()[1]
    many = "".join("[location:l%d]\npath = ^/x%d/\nhandler = %s\n" % (i, i, "default" if i == 1023 else "file") for i in range(2000))
    cases = [
        ("unknown handler", ["--handler=nothing"], "[general]\n", True),
        ("unknown handler", [], "[general]\nhandler = php\n", True),
        ("host that is no address", ["--host=nothing.invalid"], "[general]\n", True),
        ("host that is no address", [], "[general]\nhost = 300.1.1.1\n", True),
        ("certificate missing", ["--ssl"], "[general]\n", True),
        ("certificate damaged", [], "[general]\nssl = On\nssl_csr = www/a.txt\nssl_key = cert/rsa.key\n", True),
        ("key damaged", [], "[general]\nssl = On\nssl_csr = cert/ec.crt\nssl_key = www/a.txt\n", True),
        ("port in use", ["--port=%d" % busy], "[general]\n", True),
        ("no file", [], None, False),
        ("empty file", [], "", False),
        ("not an ini file", [], "\x01\x02[[[]]]===;;;\r\r\n[a", False),
        ("many locations", [], "[general]\n" + many, False),
        ("many index names", [], "[general]\nindex = " + " ".join("i%d" % i for i in range(200)) + "\n", False),
        ("long values", [], "[general]\nindex = " + "i" * 1500 + "\n[location:%s]\npath = ^/%s\nhandler = %s\nbase_path = %s\n" % ("n" * 1000, "p" * 1500, "h" * 1500, "b" * 1500), False),
        ("long location names", [], "[location:a]\npath = ^/none\nhandler = " + "h" * 300 + "\n", False),
        ("values without names", ["--port", "--workers", "--handler=dispatch", "--=", "-", "--=x"], "[general]\n", False),
    ]
    if IP6:
        cases += [("ip6 host that is no address", [], "[general]\nip6 = On\nip6_host = nothing\n", True),
                  ("long ip6 host", [], "[general]\nip6 = On\nip6_host = [%s]\n" % ("1" * 300), True)]
    for label, line, ini, fails in cases:
        port = free_port()
        if "--port" in line:
            ini, line = ini + "port = 1\n", line + ["--port=%d" % port]
        elif not any(item.startswith("--port=") for item in line):
            line = line + ["--port=%d" % port]
        if not any(item.startswith("--host") for item in line) and "host =" not in (ini or ""):
            line = line + ["--host=127.0.0.1"]
        etc = {"etc/cert/%s" % name: template("tls/" + name) for name in ("rsa.key", "ec.crt", "ec.key")}
        server = Server(build("asan"), "", files=FILES, etc=etc, leaks=not fails, command=lambda _port: (line, None if ini is None else ini.encode("latin-1")))
        ctx.case(("broken", label, fails))
        try:
            rc, text, answer = server.attempt(port, request(b"GET", b"/a.txt", keep=False))
            stdio = server.stdio_text()
        finally:
            server.cleanup()
        report = dict(line=line, ini=ini)
        if text.strip():
            ctx.violation("broken:%s:%s" % (label, summarize(text)), "%s: %s" % (label, text[:1500]), report=text, **report)
        elif fails and (rc in (None, 0) or rc < 0):
            ctx.violation("broken:" + label, "%s: the server %s instead of ending with an error" % (label, "kept running" if rc is None else "ended with %s" % rc), stdio=stdio[-500:], **report)
        elif not fails and (rc is not None or not answer.startswith(b"HTTP/1.1 200 ") or not answer.endswith(b"www:a.txt")):
            ctx.violation("broken:" + label, "%s: exit %s, answered %r: %s" % (label, rc, answer[:80], stdio[-300:]), **report)
        ctx.count("refused_configurations" if fails else "odd_configurations")
    taken.close()


def run(ctx):
    rng = ctx.rng
    ctx.count("ip6_available", int(IP6))
    broken(ctx, rng)
    for index in range(ctx.n(200, 1600)):
        plan = Plan(rng, index)
        backend = "select" if index % 4 == 3 else "asan"
        places = locations(rng)
        site = Site(FILES, places, index=plan.effective["index"], extra=EXTRA)
        other = free_port()
        state = {}

        def command(port):
            state["line"], state["ini"] = plan.write(places, port, other)
            return state["line"], state["ini"]

        def mutate(server):
            for name, data in EXTRA.items():
                path = os.path.join(server.dir, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as handle:
                    handle.write(data)
        etc = {}
        for kind in ("rsa", "ec"):
            for part in ("crt", "key"):
                with open(os.path.join(CERT, kind + "." + part), "rb") as handle:
                    # a path is taken from the working directory first, then
                    # from the folder of the configuration
                    etc["%scert/%s.%s" % ("etc/" if index % 2 else "", kind, part)] = handle.read()
        probe = plan.effective["host"] if plan.effective["host"] != "0.0.0.0" else "127.0.0.1"
        try:
            with serving(ctx, build(backend), "", backend, files=FILES, mutate=mutate, etc=etc, command=command, probe=probe, silent="not-listening") as server:
                session(ctx, rng, server, plan, site, other, state, backend)
        except Skip:
            pass
        if ctx.late():
            break


def session(ctx, rng, server, plan, site, other, state, backend):
    effective = plan.effective
    report = dict(line=state["line"], ini=(state["ini"] or b"").decode(), effective=effective)
    for probe in PROBES + (["::1"] if IP6 else []):
        if probe == "::1":
            want = effective["ip6"]
        else:
            want = effective["host"] in ("0.0.0.0", probe)
        got = accepts(probe, server.port)
        ctx.case((plan.key(), "address", probe, want))
        ctx.count("addresses_open" if want else "addresses_closed")
        if got != want:
            alive_or_report(ctx, server, backend, report)
            ctx.violation("address:%s" % ("ip6" if probe == "::1" else "ip4"), "connections to %s are %s, with %r and %r" % (
                probe, "accepted" if got else "refused", state["line"], plan.general), **report)
    if plan.where["port"] == "both":
        ctx.case((plan.key(), "other port"))
        if accepts("127.0.0.1", other) and effective["host"] in ("0.0.0.0", "127.0.0.1"):
            ctx.count("other_port_open")     # another process may have taken it: not judged
    tls = None
    if effective["ssl"]:
        tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        tls.check_hostname = False
        tls.verify_mode = ssl.CERT_NONE
    hosts = [server.probe] + (["::1"] if IP6 and effective["ip6"] else [])
    conns = {}
    targets = [b"/", b"/sub/", b"/a.txt", b"/b/a.txt", b"/hello/a.txt", b"/nothing", b"/sub", b"/main", b"/c/d/a.txt", b"/x1", b"/l0/a.txt", b"/l1/sub/main", b"/l3/", b"/empty/"]
    rng.shuffle(targets)
    for target in targets:
        host = rng.choice(hosts)
        if effective["handler"] == "default":
            expected = {"status": 200, "body": b"Hello Viriatum", "kind": "default"}
        elif effective["handler"] == "file":
            expected = Site(FILES, [], index=[]).expect(b"GET", target)
        else:
            expected = site.expect(b"GET", target)
        try:
            if conns.get(host) is None:
                conns[host] = Conn(server.port, timeout=60, tls=tls, host=host)
            conns[host].send(request(b"GET", target))
            response = conns[host].read_response()
        except ssl.SSLError as error:
            ctx.violation("tls", "the connection is %s: %s" % ("not secure" if tls else "secure", error), **report)
            return
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, backend, report)
            if isinstance(error, Late):
                ctx.stuck("%s on %r" % (error, target), **report)
            else:
                ctx.violation("no-response:%s:%s" % (effective["handler"], type(error).__name__), "%s on %r over %s%s" % (error, target, host, " with tls" if tls else ""), **report)
            return
        diff = compare(expected, response)
        if expected["status"] >= 400:
            # templates give pages, without them the text is fixed
            page = b"<error>" in response.body
            if page != effective["use_template"]:
                diff.append("the error page %r, templates are %s" % (response.body[:60], effective["use_template"]))
        elif expected["kind"] == "listing" and b"<folder>" not in response.body:
            diff.append("no listing: %r" % response.body[:60])
        ctx.case((plan.key(), effective["handler"], expected["kind"], host == "::1", bool(tls)))
        ctx.count("kind_" + expected["kind"])
        ctx.count("over_tls" if tls else "over_plain")
        if expected["kind"] == "file":
            ctx.sample({"line": state["line"], "general": plan.general, "target": target, "body": response.body})
        if diff:
            ctx.violation("%s:%s:%s" % (effective["handler"], expected["kind"], diff[0].split(":")[0][:30]),
                          "%r: %s; body %r" % (target, "; ".join(diff), response.body[:60]), expected=expected, **report)
        if not response.keep_alive:
            conns[host].close()
            conns[host] = None
    for conn in conns.values():
        if conn:
            conn.close()
