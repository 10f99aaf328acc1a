"""P31: templates are expanded exactly."""
from build import build
from libdrive import hexa, rounds

LEVEL = "exploration"
RULE = "a case is one template expanded and compared with the model, or a damaged one expanded under the sanitizers; distinct by (kinds of tags, nesting, size, ending)"
ASSUMPTIONS = ["texts and values have no null bytes", "references have up to 63 bytes and literal strings up to 120", "the item of a loop is not referenced after it",
               "damaged templates may expand to anything, within memory"]
NAMES = ["a", "b", "value", "Name", "some_name", "x1", "n" * 50]
FIELDS = ["type", "name", "size", "Inner"]


def klass(value):
    return value if value < 4 else 10 + value.bit_length()


def plain(rng):
    size = rng.choice([0, 0, 1, 2, 10, 60, 4094, 4096, 9000] if rng.random() < 0.1 else [0, 1, 2, 10, 60])
    alphabet = rng.choice([b"abc <>/\"=}\n", b"$ {x$$", bytes(range(1, 256)), b"\xff\xfe$"])
    return bytes(rng.choice(alphabet) for _ in range(size)).replace(b"${", b"$x")


def scalar(rng):
    if rng.random() < 0.5:
        return rng.choice([0, 1, 2, 3, -5, 2147483647, -2147483648])
    return bytes(rng.choice(b"ab$/{} \"<&\xff\xc3") for _ in range(rng.choice([0, 1, 5, 300])))


def mapping(rng, depth=1):
    out = {field: scalar(rng) for field in FIELDS if rng.random() < 0.8}
    if depth > 0 and rng.random() < 0.3:
        out["inner"] = mapping(rng, depth - 1)
    return out


def prefix(item):
    if isinstance(item, int):
        return "i %d" % item
    if isinstance(item, bytes):
        return "s " + hexa(item)
    if isinstance(item, list):
        return " ".join(["L %d" % len(item)] + [prefix(part) for part in item])
    return " ".join(["M %d" % len(item)] + [hexa(key.encode()) + " " + prefix(part) for key, part in item.items()])


def shown(item):
    if item is None:
        return b""
    if isinstance(item, int):
        return b"%d" % item
    if isinstance(item, bytes):
        return item
    return b"undefined"


def resolve(names, reference):
    value = names
    for token in [token for token in reference.split(".") if token]:
        if not isinstance(value, dict) or token not in value:
            return None
        value = value[token]
    return value if value is not names else None


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.loops = 0
        self.kinds = set()
        self.depth = 0

    def reference(self, names):
        options = []
        for name, value in names.items():
            options.append(name)
            if isinstance(value, dict):
                options += [name + "." + field for field in list(value) + ["none"]]
                if "inner" in value:
                    options += [name + ".inner." + field for field in FIELDS]
            elif self.rng.random() < 0.1:
                options.append(name + ".x")
        options += ["missing", "missing.x", "m" * 63]
        return self.rng.choice([option for option in options if len(option) <= 63])

    def tag(self, name, attributes, single):
        rng = self.rng
        gap = rng.choice([" ", " ", "  "])
        rng.shuffle(attributes)
        body = "".join(gap + "%s=%s" % pair for pair in attributes)
        if single:
            end = rng.choice([" /}", "/}", "  /}"])
        else:
            end = rng.choice(["}", "}", " }"])
        return ("${%s%s%s" % (name, body, end)).encode("latin-1")

    def block(self, names, depth):
        """(template, expansion)."""
        rng = self.rng
        out, result = b"", b""
        self.depth = max(self.depth, depth)
        nodes = []
        for _ in range(rng.choice([1, 2, 4])):
            nodes.append(rng.choice(["text", "text", "out", "out"] + (["foreach", "if"] if depth < 4 else [])))
        parts = []
        for kind in nodes:
            self.kinds.add(kind)
            if kind == "text":
                value = plain(rng)
                before = b"".join(part for part, _ in parts)
                if before.endswith(b"$") and value.startswith(b"{"):
                    value = b"x" + value
                parts.append((value, lambda scope, value=value: value))
            elif kind == "out":
                how = rng.random()
                if how < 0.25:
                    value = "".join(rng.choice("ab c/}{$=.") for _ in range(rng.choice([0, 1, 10, 120])))
                    parts.append((self.tag("out", [("value", '"%s"' % value)], True), lambda scope, value=value: value.encode()))
                elif how < 0.4:
                    value = rng.choice(["0", "1", "42", "007", "1.5"])
                    parts.append((self.tag("out", [("value", value)], True), lambda scope, value=value: value.encode()))
                else:
                    value = self.reference(names)
                    parts.append((self.tag("out", [("value", value)] + ([("extra", "1")] if rng.random() < 0.1 else []), True),
                                  lambda scope, value=value: shown(resolve(scope, value))))
            elif kind == "if":
                value, number = self.reference(names), rng.choice([0, 1, 1, 2, 3])
                inner, expand = self.block(names, depth + 1)

                def run(scope, value=value, number=number, expand=expand):
                    found = resolve(scope, value)
                    return expand(scope) if isinstance(found, int) and found == number else b""
                parts.append((self.tag("if", [("item", value), ("value", str(number)), ("operator", "eq")], False) + inner + b"${/if}", run))
            else:
                lists = [name for name, value in names.items() if isinstance(value, list)] or ["missing"]
                source = rng.choice(lists) if rng.random() < 0.9 else self.reference(names)
                self.loops += 1
                item = "item%d" % self.loops
                found = resolve(names, source)
                example = found[0] if isinstance(found, list) and found else {"type": 1}
                inner, expand = self.block(dict(names, **{item: example}), depth + 1)

                def run(scope, source=source, item=item, expand=expand):
                    found = resolve(scope, source)
                    if not isinstance(found, list):
                        return b""
                    return b"".join(expand(dict(scope, **{item: value})) for value in found)
                parts.append((self.tag("foreach", [("item", item), ("from", source)], False) + inner + b"${/foreach}", run))
        text = b""
        for source, _ in parts:
            text += source
        return text, lambda scope: b"".join(run(scope) for _, run in parts)


def damaged(rng, data):
    data = bytearray(data)
    tokens = [b"${", b"}", b"/}", b"${/", b"${/}", b"${if}", b"${out}", b"${foreach item=x}", b"${/foreach}", b"${/if}", b"=", b'"', b" ", b"$", b"${out value}", b"${out /}",
              b"${foreach item=a from=a}", b"${out value=" + b"v" * 300 + b"/}", b"${out " + b"n" * 100 + b"=1 /}", b"${out value=\"" + b"s" * 200 + b"\"/}", b"${if item=1 value=x}", b"${//}",
              b"${out value=. /}", b"${out value=/}", b"${if value=1}", b"${if item=a}", b"${foreach from=b item=\"x\"}", b"${out value= /}"]
    for _ in range(rng.choice([1, 1, 2, 5])):
        at = rng.randrange(len(data) + 1)
        how = rng.randrange(4)
        if how == 0:
            del data[at:]
        elif how == 1:
            del data[at:at + rng.choice([1, 2, 8])]
        else:
            data[at:at] = rng.choice(tokens)
    return bytes(data).replace(b"\0", b"0")


def run(ctx):
    rng = ctx.rng
    driver = build("asan", (), ("formats",)) + "/formats"

    def make(batch):
        for _ in range(60):
            names = {}
            for name in NAMES:
                if rng.random() < 0.7:
                    kind = rng.random()
                    if kind < 0.4:
                        names[name] = scalar(rng)
                    elif kind < 0.6:
                        names[name] = mapping(rng)
                    else:
                        names[name] = [rng.choice([scalar, mapping])(rng) for _ in range(rng.choice([0, 1, 3]))]
            maker = Maker(rng)
            text, expand = maker.block(names, 0)
            if b"$${" in text:
                # a dollar right before a tag is text
                ctx.case(("dollar",))
            assigned = "%d %s" % (len(names), " ".join(hexa(name.encode()) + " " + prefix(value) for name, value in names.items()))
            result = expand(names)
            if len(result) < 200000:
                batch.add("tpl %s %s" % (hexa(text), assigned), hexa(result), "expansion")
                ctx.case(("template", tuple(sorted(maker.kinds)), maker.depth, klass(len(text)), text[-1:] in b"}$\xff"))
                ctx.count("tags", text.count(b"${"))
            bad = damaged(rng, text)
            batch.add("tpl %s %s" % (hexa(bad), assigned), lambda answer: None, "damaged")
            ctx.case(("damaged", klass(len(bad)), bad[-1:]))
    rounds(ctx, driver, "templates", make, ctx.n(80, 4000))
