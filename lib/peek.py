"""Looks at processes of the unprivileged user the servers run as. Without the
privilege to trace, root may not follow the links of /proc of another user:
a helper that runs as that user does it."""
import atexit
import json
import os
import subprocess
import sys
import threading

NOBODY = 65534

HELPER = r"""
import json, os, sys
def links(pid):
    out = {}
    for fd in os.listdir("/proc/%d/fd" % pid):
        try:
            out[fd] = os.readlink("/proc/%d/fd/%s" % (pid, fd))
        except FileNotFoundError:
            pass
    return out
def exe(pid):
    return os.readlink("/proc/%d/exe" % pid)
for line in sys.stdin:
    what, pid = line.split()
    try:
        value = {"links": links, "exe": exe}[what](int(pid))
    except (FileNotFoundError, ProcessLookupError):
        value = None
    except PermissionError:
        value = "denied"
        try:
            if open("/proc/%s/stat" % pid).read().rsplit(")", 1)[1].split()[0] in "ZX":
                value = None
        except (FileNotFoundError, ProcessLookupError):
            value = None
    sys.stdout.write(json.dumps(value) + "\n")
    sys.stdout.flush()
"""

_lock = threading.Lock()
_helper = None


def _drop():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def _stop():
    if _helper is not None:
        _helper.kill()


def _ask(what, pid):
    global _helper
    with _lock:
        if _helper is None or _helper.poll() is not None:
            if _helper is None:
                atexit.register(_stop)
            _helper = subprocess.Popen([sys.executable, "-I", "-S", "-c", HELPER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, preexec_fn=_drop, cwd="/", text=True)
        _helper.stdin.write("%s %d\n" % (what, pid))
        _helper.stdin.flush()
        line = _helper.stdout.readline()
    if not line:
        raise RuntimeError("the helper that looks at processes ended")
    return json.loads(line)


def links(pid):
    """{descriptor: what it refers to} of a process; None when there is no
    such process."""
    found = _ask("links", pid)
    if found == "denied":
        raise RuntimeError("the descriptors of %d can't be observed" % pid)
    return found


def exe(pid):
    """The binary a process runs, None when it is not known."""
    found = _ask("exe", pid)
    return None if found == "denied" else found
