"""Runs a command driver over a batch of commands and judges every answer."""
import os
import shutil
import subprocess
import tempfile

from server import FILLS, SAN_ENV, summarize


class Batch:
    """Commands with the answers they have to give: a string, or a function of
    the answer that returns None or what is wrong with it."""

    def __init__(self):
        self.lines, self.expected, self.kinds = [], [], []

    def add(self, command, expected="", kind=None):
        self.lines.append(command)
        self.expected.append(expected)
        self.kinds.append(kind or " ".join(command.split(" ")[:2]))


def hexa(data):
    return data.hex() if data else "-"


_turn = [0]


def environment(log, leaks=True):
    env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TZ": "UTC"}
    for key, value in SAN_ENV.items():
        if key == "ASAN_OPTIONS":
            value = value % (1 if leaks else 0, FILLS[_turn[0] % len(FILLS)], log)
            _turn[0] += 1
        elif "%s" in value:
            value = value % log
        env[key] = value
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = sym
        env["UBSAN_SYMBOLIZER_PATH"] = sym
    return env


def execute(command, data=b"", timeout=120, env=None, cwd=None, leaks=True):
    """(exit code or 'timeout', stdout, sanitizer text, stderr)."""
    folder = tempfile.mkdtemp(prefix="verif-drv-")
    try:
        values = environment(os.path.join(folder, "log"), leaks)
        values.update(env or {})
        try:
            proc = subprocess.run(command, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=values, timeout=timeout, cwd=cwd or folder)
            rc, out, err = proc.returncode, proc.stdout, proc.stderr
        except subprocess.TimeoutExpired as error:
            rc, out, err = "timeout", error.stdout or b"", error.stderr or b""
        text = ""
        for name in sorted(os.listdir(folder)):
            if name.startswith("log"):
                with open(os.path.join(folder, name), "rb") as handle:
                    text += handle.read().decode(errors="replace")
        return rc, out, text, err.decode(errors="replace")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def judge(ctx, driver, batch, label, timeout=120, env=None, args=(), leaks=True):
    """Runs the batch; reports at most one violation. True when all was right."""
    data = "".join(line + "\n" for line in batch.lines).encode("latin-1")
    rc, out, text, err = execute([driver] + list(args), data, timeout, env, leaks=leaks)
    answers = out.decode("latin-1").split("\n")
    # what follows the last end of line is not a complete answer
    answers.pop()
    for index, expected in enumerate(batch.expected):
        if index >= len(answers):
            break
        got = answers[index]
        if callable(expected):
            wrong = expected(got)
        else:
            wrong = None if got == expected else "answered %r, expected %r" % (got[:300], expected[:300])
        ctx.count("answers_compared")
        if wrong:
            ctx.violation("%s:%s" % (label, batch.kinds[index]), "%s: %s: %s" % (label, batch.lines[index][:300], wrong),
                          commands=batch.lines[max(0, index - 200):index + 1], answer=got, env={})
            return False
    if "LeakSanitizer has encountered a fatal error" in text:
        ctx.unsure("leak checking is not possible here")
        return True
    if rc == "timeout":
        command = batch.lines[len(answers)] if len(answers) < len(batch.lines) else "the end"
        ctx.violation("stuck:%s:%s" % (label, " ".join(command.split(" ")[:2])), "%s: no answer within %d s to %s" % (label, timeout, command[:300]), commands=batch.lines[max(0, len(answers) - 200):len(answers) + 1])
        return False
    # an allocation that failed is only a warning: the code has to answer to it
    if "ERROR: " in text or "runtime error" in text or "WARNING: ThreadSanitizer" in text:
        command = batch.lines[len(answers)] if len(answers) < len(batch.lines) else "the end"
        ctx.violation("report:" + summarize(text), "%s: at %s: %s" % (label, command[:200], text[:1800]), commands=batch.lines[max(0, len(answers) - 200):len(answers) + 1], report=text[:8000])
        return False
    if rc != 0:
        command = batch.lines[len(answers)] if len(answers) < len(batch.lines) else "the end"
        ctx.violation("exit:%s:%s" % (label, rc), "%s: exit %s at %s: %s" % (label, rc, command[:300], err[-600:]), commands=batch.lines[max(0, len(answers) - 200):len(answers) + 1])
        return False
    if len(answers) != len(batch.lines):
        ctx.violation("answers:" + label, "%s: %d answers to %d commands" % (label, len(answers), len(batch.lines)))
        return False
    ctx.count("driver_runs")
    return True


def rounds(ctx, driver, label, make, count, timeout=300, env=None, leaks=True):
    """Makes and judges batches until the count, the time or a violation."""
    for _ in range(count):
        batch = Batch()
        make(batch)
        if not judge(ctx, driver, batch, label, timeout, env, leaks=leaks):
            return False
        ctx.sample({"commands": [line[:200] for line in batch.lines[:12]]})
        if ctx.late():
            break
    return True
