"""P08: locations with basic authentication answer only to valid credentials."""
import base64
import os
import re

from build import build
from client import Closed, Conn, Late, Malformed, request
from drive import Skip, alive_or_report, serving
from server import default_ini

LEVEL = "exploration"
RULE = ("a case is one request with some Authorization header (or none) to a protected or open location, on a kept connection with "
        "an arbitrary history; distinct by (how the credential relates to the valid ones, location, method, entry kind, previous verdict on the connection)")
ASSUMPTIONS = ["protected files are only reachable through their protected location",
               "lenient spellings of valid credentials (other scheme words, characters outside of the base64 alphabet) may go either way"]

ALPHABET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+/=!$%&#@ \t\"'\\~"


def word(rng, low=1, high=12):
    kind = rng.randrange(10)
    if kind == 0:
        return rng.choice(["root", "admin", "user", "a", "Basic", "$default", "default", "x" * 40, "ab", "abc", "abcd"])
    return "".join(rng.choice(ALPHABET) for _ in range(rng.randrange(low, high + 1)))


def passwd_file(rng):
    """Users, passwords and the text of the file that holds them."""
    users = {}
    for _ in range(rng.randrange(0, 12)):
        user = word(rng)
        if user in users:
            continue
        users[user] = word(rng, 0 if rng.random() < 0.1 else 1, 20)
    # users that are prefixes and suffixes of others, with other passwords
    for user in list(users)[:3]:
        near = rng.choice([user + "x", user[:-1], user[1:], user.upper(), user.lower(), user + " ", " " + user])
        if near and near not in users and len(near) < 30:
            users[near] = rng.choice([word(rng), users[user] + "1", users[user][:-1] or "q", users[user].swapcase()])
    lines = []
    for user, password in users.items():
        if rng.random() < 0.2:
            lines.append(rng.choice(["", "nopassword", "noise without separator"]))
        line = user + ":" + password
        if rng.random() < 0.3:
            line += ":" + rng.choice(["", "comment", "a:b:c", user, password])
        lines.append(line)
    text = "\n".join(lines)
    if rng.random() < 0.7:
        text += "\n"
    return users, text.encode()


def strict_verdict(users, header):
    """True: surely valid, False: surely not, None: lenient spelling."""
    m = re.match(rb"^([^ ]*) (.*)$", header, re.S)
    if not m or len(header) > 127:
        return False if not m else None
    scheme, encoded = m.groups()
    try:
        if len(encoded) % 4:
            return False
        lenient = base64.b64decode(re.sub(rb"[^A-Za-z0-9+/=]", b"A", encoded), altchars=b"+/", validate=False)
    except ValueError:
        lenient = None
    valid = re.match(rb"^[A-Za-z0-9+/]*={0,2}$", encoded) is not None
    if valid and lenient is not None:
        user, sep, password = lenient.partition(b":")
        match = bool(sep) and b"\0" not in lenient and users.get(user.decode("latin-1")) == password.decode("latin-1") and \
            user.decode("latin-1") in users
        if not match:
            return False
        canonical = base64.b64encode(lenient) == encoded
        return True if canonical and scheme == b"Basic" else None
    return None


def b64(text):
    return base64.b64encode(text.encode("latin-1"))


def credential(rng, users, others):
    """(kind, header value or None)"""
    names = list(users)
    kind = rng.randrange(26)
    if kind == 0 or (not names and kind < 20):
        return "none", None
    if kind >= 20:
        return "random", b"Basic " + b64(word(rng) + ":" + word(rng))
    user = rng.choice(names)
    password = users[user]
    good = user + ":" + password
    if kind in (1, 2, 3, 4, 5):
        return "valid", b"Basic " + b64(good)
    if kind == 6:
        return "other-password", b"Basic " + b64(user + ":" + users[rng.choice(names)])
    if kind == 7:
        i = rng.randrange(len(password) + 1)
        return "edited-password", b"Basic " + b64(user + ":" + password[:i] + rng.choice(ALPHABET) + password[i + (rng.random() < 0.7):])
    if kind == 8:
        return "prefix-password", b"Basic " + b64(user + ":" + password[:rng.randrange(len(password) + 1)])
    if kind == 9:
        return "longer-password", b"Basic " + b64(good + rng.choice(["x", ":", "\0", "\0x", "\n", " ", "\r\n", "\t"]))
    if kind == 10:
        return "edited-user", b"Basic " + b64(rng.choice([user.swapcase(), user[:-1], user[1:], user + "a", " " + user, user + " ", user + "\0", ""]) + ":" + password)
    if kind == 11:
        return "no-separator", b"Basic " + b64(rng.choice([user, user + password, password, "", ":", ":" + password, user + ":"]))
    if kind == 12:
        raw = b64(good)
        return "cut", b"Basic " + raw[:rng.randrange(len(raw))]
    if kind == 13:
        raw = b64(good)
        return "padded", b"Basic " + raw + rng.choice([b"=", b"==", b"===", b"====", b"A", b"AAAA", b"Og=="])
    if kind == 14:
        raw = bytearray(b64(good))
        raw[rng.randrange(len(raw))] = rng.randrange(33, 127)
        return "edited-base64", b"Basic " + bytes(raw)
    if kind == 15:
        return "plain", rng.choice([b"Basic " + good.encode("latin-1").replace(b"\r", b"").replace(b"\n", b""), good.encode(), b64(good), b"Basic", b"Basic ", b"", b"Basic  " + b64(good),
                                    b"Basic" + b64(good), b"Bearer x", b"Digest username=\"%s\"" % user.encode()])
    if kind == 16:
        return "scheme", rng.choice([b"basic ", b"BASIC ", b"Bearer ", b"X "]) + b64(good)
    if kind == 17:
        return "long", b"Basic " + b64(rng.choice([user + ":" + "p" * rng.randrange(60, 400), "u" * rng.randrange(60, 400) + ":" + password, good + "A" * rng.randrange(50, 200)]))
    if kind == 18 and others:
        user = rng.choice(list(others))
        return "other-location", b"Basic " + b64(user + ":" + others[user])
    if kind == 19:
        return "swapped", b"Basic " + b64(password + ":" + user)
    return "default", b"Basic " + b64("root:root")


def run(ctx):
    rng = ctx.rng
    for index in range(ctx.n(80, 600)):
        backend = "select" if index % 4 == 3 else "asan"
        out = build(backend)
        users_a, text_a = passwd_file(rng)
        users_b, text_b = passwd_file(rng)
        secret = {name: rng.choice([b"SECRET-%d-" % i * rng.choice([1, 10, 3000]), b"SECRET"]) for i, name in
                  enumerate(["one.txt", "two.html", "sub/three.txt", "index.html", "sp ace.txt"])}
        style = rng.randrange(4)
        locations = [
            ("a", {"path": "^/a/", "handler": "file", "base_path": "vault_a", "auth_basic": "Area A", "auth_file": "etc/users_a"}),
            ("b", {"path": "^/b/", "handler": "file", "base_path": "vault_b", "auth_basic": rng.choice(["B", "Area B!", "x" * 60]), "auth_file": "etc/users_b"}),
            ("d", {"path": "^/d/", "handler": "file", "base_path": "vault_a", "auth_basic": "Default", "auth_file": "$default"}),
            ("m", {"path": "^/m/", "handler": "file", "base_path": "vault_a", "auth_basic": "Missing", "auth_file": "etc/nothing"}),
            ("w", {"path": "^/w/", "handler": "file", "auth_basic": "Within the site", "auth_file": "etc/users_a"}),
            ("open", {"path": "^/", "handler": "file"}),
        ]
        if style == 1:
            locations = [locations[i] for i in (4, 3, 2, 1, 0, 5)]
        areas = {"a": users_a, "b": users_b, "d": {"root": "root"}, "m": {}, "w": users_a, "open": None}
        etc = {"etc/users_a": text_a, "etc/users_b": text_b}
        for vault in ("vault_a", "vault_b"):
            for name, data in secret.items():
                etc[vault + "/" + name] = vault.encode() + data
        try:
            with serving(ctx, out, default_ini(locations=locations), backend, etc=etc,
                         files=dict({"w/" + name: b"vault_w" + data for name, data in secret.items()}, **{"public.txt": b"public", "index.html": b"welcome"})) as server:
                session(ctx, rng, server, backend, areas, dict(locations), secret)
        except Skip:
            pass
        if ctx.late():
            break


def session(ctx, rng, server, label, areas, locations, secret):
    conns = [None] * 3
    last = ["new"] * 3
    log = []
    for _step in range(ctx.n(400, 900)):
        area = rng.choice(["a", "a", "b", "b", "d", "m", "w", "w", "open"])
        users = areas[area]
        others = areas["b" if area in "aw" else "a"]
        if area == "open":
            kind, value = credential(rng, areas["a"], areas["b"])
            allowed = True
        else:
            kind, value = credential(rng, users, others)
            allowed = False if value is None else strict_verdict(users, value)
            if area == "d" and value is not None:
                allowed = value == b"Basic cm9vdDpyb290"
        if value is not None and re.search(rb"[\r\n\0]", value):
            continue
        # surrounding blanks of a header value are not part of it
        name = rng.choice(list(secret))
        what = rng.randrange(8)
        target = b"/" + area.encode() + b"/" + name.replace(" ", "%20").encode()
        vault = locations[area].get("base_path", "vault_w")
        body = (vault.encode() + secret[name]) if area != "open" else b"public"
        shape = "file"
        if area == "open":
            target = b"/public.txt"
        elif what == 0:
            target = b"/" + area.encode() + rng.choice([b"/sub", b"/sub/", b"/"])
            shape = "folder"
        elif what == 1:
            target += rng.choice([b"?x=1", b"?user=root", b"?/"])
        method = rng.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST"])
        headers = []
        if value is not None:
            headers.append((b"Authorization", value))
        extra = rng.randrange(6)
        valid_other = None
        if extra == 0:
            headers.insert(0, (b"X-Authorization", b"Basic " + b64("root:root")))
        elif extra == 1:
            headers.append((rng.choice([b"Proxy-Authenticate", b"Authentication-Info", b"Cache-Control", b"Cookie", b"Authorizatio2"]), b"Basic cm9vdDpyb290"))
        elif extra == 2:
            headers.append((b"Range", b"bytes=0-3"))
        keep = rng.random() < 0.92
        slot = rng.randrange(len(conns))
        fresh = conns[slot] is None
        log.append((method, target, kind, value, allowed, slot, last[slot] if not fresh else "new"))
        try:
            if fresh:
                conns[slot] = Conn(server.port, timeout=60)
                last[slot] = "new"
            conns[slot].send(request(method, target, headers=headers, keep=keep))
            response = conns[slot].read_response(head=method == b"HEAD")
        except (Closed, Late, Malformed, OSError) as error:
            alive_or_report(ctx, server, label, log[-1])
            if isinstance(error, Late):
                ctx.stuck(str(error), log=log[-30:])
            else:
                ctx.violation("no-response:%s:%s" % (kind, type(error).__name__), "%s after %s" % (error, log[-1]), log=log[-30:])
            conns[slot] = None
            continue
        problems = []
        leaked = (b"SECRET" in response.body or b"vault_" in response.body) and area != "open"
        status = response.status
        if allowed is False:
            if leaked:
                problems.append("contents disclosed with status %d" % status)
            elif status != 401:
                problems.append("status %d without valid credentials" % status)
            if status == 401 and response.get("www-authenticate") != 'Basic realm="%s"' % locations[area]["auth_basic"]:
                problems.append("challenge %r" % response.get("www-authenticate"))
            for header in ("etag", "content-range", "location", "last-modified"):
                if response.get(header):
                    problems.append("%s disclosed" % header)
        elif allowed:
            good = (200, 206) if shape == "file" else (200, 206, 307)
            if status not in good:
                problems.append("status %d with valid credentials" % status)
            elif shape == "file" and method != b"HEAD":
                if response.body != (body if status == 200 else body[0:4]):
                    problems.append("wrong contents")
        elif status not in (200, 206, 307, 401):
            problems.append("status %d" % status)
        with_state = (kind, area, shape, method, allowed, last[slot], extra, keep)
        ctx.case(with_state)
        ctx.count("kind_%s" % kind)
        ctx.count("verdict_%s_%d" % (allowed, status))
        if kind not in ("none", "random"):
            ctx.sample({"location": area, "kind": kind, "value": value, "status": status})
        last[slot] = "ok" if status != 401 else "refused"
        for problem in problems:
            ctx.violation("%s:%s:%s:%s" % (area if area in "dm" else "ab" if area != "open" else area, kind, problem[:40], shape),
                          "%s %s with %s %r: %s" % (method, target, kind, value, problem), log=log[-40:],
                          users={"a": areas["a"], "b": areas["b"]})
        if not keep:
            conns[slot].close()
            conns[slot] = None
    for conn in conns:
        if conn:
            conn.close()
