"""P30: URLs, password files, ini files and command lines are parsed exactly."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one text parsed and compared with the reference; distinct by (format, parts present, sizes, line endings, kind of damage)"
ASSUMPTIONS = ["URLs have a scheme and a path; an authority with credentials has user and password",
               "ini: keys have no equals sign, semicolon or bracket at the start; spaces around the equals sign are not part of the key or value",
               "malformed texts may give an error or any parts, within memory"]
WORD = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"


def klass(value):
    return value if value < 4 else 10 + value.bit_length()


def text(rng, sizes, alphabet=WORD):
    return bytes(rng.choice(alphabet) for _ in range(rng.choice(sizes)))


def damaged(rng, data, tokens):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4])):
        at = rng.randrange(len(data) + 1)
        how = rng.randrange(5)
        if how == 0:
            del data[at:]
        elif how == 1:
            del data[at:at + rng.choice([1, 2, 5])]
        elif how == 2:
            data[at:at] = rng.choice(tokens)
        elif how == 3 and at < len(data):
            data[at] = rng.randrange(256)
        else:
            data[at:at] = rng.choice([b"a", b":", b"=", b"/"]) * rng.choice([1, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 5000])
    return bytes(data)


LIMITS = {"scheme": 64, "username": 128, "password": 128, "host": 256, "path": 1024, "query": 1024, "fragment": 256}


def url(ctx, rng, batch):
    sizes = [1, 2, 5, 20]
    big = rng.choice([None] * 6 + list(LIMITS))

    def part(name, low=0, alphabet=WORD):
        if name == big:
            return text(rng, [LIMITS[name] + delta for delta in (-2, -1, 0, 1, 100)], alphabet)
        return text(rng, [low] + sizes, alphabet)
    parts = {"scheme": part("scheme", 1, WORD[:36]), "host": part("host", 1)}
    out = parts["scheme"] + b"://"
    if rng.random() < 0.5:
        parts["username"], parts["password"] = part("username"), part("password", 0, WORD + b":!$")
        out += parts["username"] + b":" + parts["password"] + b"@"
    out += parts["host"]
    port = 0
    if rng.random() < 0.5:
        port = rng.choice([0, 1, 80, 8080, 65535, rng.randrange(65536)])
        out += b":" + (b"%d" % port if rng.random() < 0.9 else b"%08d" % port)
    # a url may end, or go on with a query or fragment, after its host
    if rng.random() < 0.75:
        parts["path"] = b"/" + part("path", 0, WORD + b"/:@=&%")
        out += parts["path"]
    if rng.random() < 0.5:
        parts["query"] = part("query", 0, WORD + b"/:@=&%?")
        out += b"?" + parts["query"]
    if rng.random() < 0.5:
        parts["fragment"] = part("fragment", 0, WORD + b"/:@=&%?#")
        out += b"#" + parts["fragment"]
    # a fragment or a query that begins after the other belongs to it
    names = ["scheme", "username", "password", "host", "path", "query", "fragment"]
    expected = " ".join("%s=%s" % (name, hexa(parts[name]) if name in parts else "none") for name in names) + " port=%d" % port
    batch.add("url parse " + hexa(out), expected)
    fits = all(len(value) < LIMITS[name] for name, value in parts.items())
    expected = " ".join("%s=%s" % (name, hexa(parts.get(name, b""))) for name in names) + " port=%d" % port
    if fits:
        batch.add("url static " + hexa(out), expected)
    else:
        batch.add("url static " + hexa(out), "error")
    ctx.case(("url", tuple(sorted(parts)), port > 0, big, fits))
    bad = damaged(rng, out, [b"/", b":", b"@", b"?", b"#", b"//", b"\0"])
    batch.add("url parse " + hexa(bad), lambda answer: None)
    batch.add("url static " + hexa(bad), lambda answer: None)
    ctx.case(("url damaged", klass(len(bad)), bad[:1]))


def passwd(ctx, rng, batch):
    users, out = {}, b""
    count = rng.choice([0, 1, 2, 5, 60])
    end = b"\n"
    for index in range(count):
        name = text(rng, [1, 3, 8, 126, 127] if rng.random() < 0.3 else [1, 1, 2, 8], WORD + b" =")
        password = text(rng, [0, 1, 8, 40, 300], WORD + b"$/ =")
        line = name + b":" + password
        if rng.random() < 0.4:
            line += b":" + text(rng, [0, 1, 20], WORD + b": ")
        out += line + (end if index + 1 < count or rng.random() < 0.7 else b"")
        users[name] = password
        if rng.random() < 0.2 and out.endswith(end):
            out += end
    expected = "".join(sorted("%s=%s " % (hexa(name), hexa(value)) for name, value in users.items()))

    def judge(answer):
        got = sorted(answer.split(" ")[:-1])
        want = sorted(expected.split(" ")[:-1])
        return None if got == want else "users %r, expected %r" % (got[:6], want[:6])
    batch.add("passwd " + hexa(out), judge, "passwd")
    ctx.case(("passwd", klass(count), klass(len(users)), out[-1:] == b"\n"))
    bad = damaged(rng, out, [b":", b"\n", b"::", b"\r", b"\0", b"\n\n"])
    batch.add("passwd " + hexa(bad), lambda answer: None)
    ctx.case(("passwd damaged", klass(len(bad))))


def ini(ctx, rng, batch):
    end = rng.choice([b"\n", b"\n", b"\r\n", b"\r"])
    sections, out, current = {}, b"", b""
    names = [text(rng, [1, 5, 20], WORD + b":/ ") for _ in range(rng.choice([1, 2, 4]))]
    seen = set()
    for _ in range(rng.choice([0, 1, 3, 10, 40])):
        what = rng.random()
        indent = rng.choice([b"", b"", b"", b"  ", b"\t", b" "])
        if what < 0.15:
            name = rng.choice(names)
            if rng.random() < 0.02:
                name = text(rng, [1022, 1023])
            current = name
            out += indent + b"[" + name + b"]" + rng.choice([b"", b"", b" ", b" ; note"]) + end
            seen.add("section")
        elif what < 0.3:
            out += indent + b";" + text(rng, [0, 1, 30], WORD + b" =[];") + end
            seen.add("comment")
        elif what < 0.4:
            out += indent + end
            seen.add("blank")
        elif what < 0.45:
            # not a pair: ignored
            out += indent + text(rng, [1, 5], WORD) + end
            seen.add("no value")
        else:
            key = text(rng, [1, 2, 8], WORD + b"/*")
            if rng.random() < 0.02:
                key = text(rng, [1022, 1023])
            if rng.random() < 0.4 and sections.get(current):
                key = rng.choice(list(sections[current]))
            value = text(rng, [0, 1, 5, 40, 2000] if rng.random() < 0.2 else [0, 1, 5, 40], WORD + b"=;[]\"'/:")
            if value and rng.random() < 0.3:
                value = value + b" " + text(rng, [1, 5], WORD)
            before, after = rng.choice([b"", b" ", b"   "]), rng.choice([b"", b" ", b"   "])
            out += indent + key + before + b"=" + after + value + end
            sections.setdefault(current, {})[key] = value
            seen.add("pair")
    if out.endswith(end) and rng.random() < 0.3:
        out = out[:-len(end)]
    expected = "".join("%s{ %s} " % (hexa(name), "".join("%s=%s " % (hexa(key), hexa(value)) for key, value in pairs.items())) for name, pairs in sections.items())

    def split(answer):
        """Sections and pairs whatever their order."""
        found = {}
        for group in answer.split("} ")[:-1]:
            name, pairs = group.split("{ ")
            found[name] = sorted(pairs.split())
        return found

    def judge(answer):
        try:
            got = split(answer)
        except ValueError:
            return "answered %r" % answer[:200]
        want = split(expected)
        return None if got == want else "parsed %r, expected %r" % (str(got)[:400], str(want)[:400])
    batch.add("ini " + hexa(out), judge, "ini")
    ctx.case(("ini", end, tuple(sorted(seen)), klass(len(sections)), out[-1:] in (b"\n", b"\r")))
    bad = damaged(rng, out, [b"[", b"]", b"=", b";", b"\n", b"\r", b"\0", b" "])
    batch.add("ini " + hexa(bad), lambda answer: None)
    ctx.case(("ini damaged", klass(len(bad))))


def arguments(ctx, rng, batch):
    values, words = {}, []
    for _ in range(rng.choice([0, 1, 2, 5, 30])):
        kind = rng.random()
        if kind < 0.1:
            words.append(text(rng, [1, 5], WORD[:52]))      # not an option: ignored
            continue
        key = text(rng, [1, 1, 4, 10, 255] if rng.random() < 0.1 else [1, 4, 10], WORD[:62]) if rng.random() < 0.8 or not values else rng.choice(list(values))
        dashes = rng.choice([b"-", b"--"])
        if rng.random() < 0.6:
            value = text(rng, [0, 1, 4, 30, 1023] if rng.random() < 0.1 else [0, 1, 4, 30], WORD + b"=/ -")
            words.append(dashes + key + b"=" + value)
            values[key] = value
        else:
            words.append(dashes + key)
            values[key] = None
    expected = sorted("%s=%s" % (hexa(key), "none" if value is None else hexa(value)) for key, value in values.items())

    def judge(answer):
        got = sorted(answer.split(" ")[:-1])
        return None if got == expected else "arguments %r, expected %r" % (got[:6], expected[:6])
    batch.add(" ".join(["args get"] + [hexa(item) for item in words]), judge, "arguments")
    ctx.case(("arguments", klass(len(words)), klass(len(values)), None in values.values()))
    bad = [rng.choice([b"", b"-", b"--", b"=", b"-=", b"--=", b"--a=", b"a", b"-" * 500, b"--" + b"k" * rng.choice([255, 256, 257, 2000]),
                       b"--k=" + b"v" * rng.choice([1023, 1024, 1025, 9000]), b"--" + b"k" * 300 + b"=v"]) for _ in range(rng.choice([1, 3, 10]))]
    batch.add(" ".join(["args get"] + [hexa(item) for item in bad + words]), lambda answer: None)
    ctx.case(("arguments odd", tuple(sorted({item[:4] for item in bad}))[:3]))


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("formats",)) + "/formats"

    def make(batch):
        for _ in range(60):
            url(ctx, rng, batch)
            passwd(ctx, rng, batch)
            ini(ctx, rng, batch)
            arguments(ctx, rng, batch)
    rounds(ctx, driver, "parsers", make, ctx.n(120, 6000))
