"""Builds /repo's current sources into instrumented binaries under /verif/build.

Every variant is keyed by the content of all the sources, so a check rebuilds
exactly when the tree under test changed; nothing is written inside /repo.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=function,alignment", "-fstrict-flex-arrays=3"]
BASE = ["-g", "-O1", "-fno-omit-frame-pointer", "-w", "-fPIC", "-DHAVE_CONFIG_H"]

VARIANTS = {
    # address + undefined behaviour sanitizers, epoll polling provider
    "asan": SAN + BASE,
    # same sanitizers, select polling provider
    "select": SAN + BASE + ["-DVERIF_NO_EPOLL"],
    # same sanitizers, memory pool enabled
    "mpool": SAN + BASE + ["-DVERIF_MPOOL"],
    # thread sanitizer
    "tsan": ["-fsanitize=thread"] + BASE,
    # no sanitizer (behavioural workloads that need volume, valgrind)
    "plain": BASE,
    # pre-fork workers
    "prefork": SAN + BASE + ["-DVERIF_PREFORK"],
    "prefork_select": SAN + BASE + ["-DVERIF_PREFORK", "-DVERIF_NO_EPOLL"],
    # with the functions for Java virtual machines
    "embed": SAN + BASE + ["-DHAVE_JNI_H"],
    "embed_select": SAN + BASE + ["-DHAVE_JNI_H", "-DVERIF_NO_EPOLL"],
    # coverage, only for measuring the reach of the workloads
    "cov": ["-fprofile-instr-generate", "-fcoverage-mapping"] + BASE,
}
JAVA = sorted(glob.glob("/usr/lib/jvm/*/include/jni.h"))
LIBS = ["-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]
MODULES = ["diag", "gif", "lua"]


class BuildError(Exception):
    pass


def _sources(top):
    out = []
    for base, _dirs, files in os.walk(os.path.join(REPO, top)):
        for name in files:
            if name.endswith((".c", ".h")):
                out.append(os.path.join(base, name))
    return sorted(out)


def tree_hash(extra=()):
    digest = hashlib.sha256()
    paths = _sources("src") + [p for m in MODULES for p in _sources("modules/mod_%s/src" % m)]
    paths += [os.path.join(VERIF, "conf", "config.h")] + list(extra)
    for path in paths:
        digest.update(path.encode())
        with open(path, "rb") as handle:
            digest.update(hashlib.sha256(handle.read()).digest())
    return digest.hexdigest()[:16]


def _run(cmd):
    proc = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if proc.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), proc.stdout.decode(errors="replace")[-4000:]))


def _run_object(cmd, headers):
    """Compiles one object; VERIF_OBJCACHE names a folder where the ones made
    of the same sources are kept (used for trying many variations of a tree)."""
    cache = os.environ.get("VERIF_OBJCACHE")
    if not cache:
        return _run(cmd)
    source, out = cmd[cmd.index("-c") + 1], cmd[cmd.index("-o") + 1]
    digest = hashlib.sha256(repr([a for a in cmd if not a.startswith(("-I", "/"))]).encode() + headers.encode() + os.path.relpath(source, REPO).encode())
    with open(source, "rb") as handle:
        digest.update(handle.read())
    kept = os.path.join(cache, digest.hexdigest()[:24] + ".o")
    if not os.path.exists(kept):
        _run(cmd)
        os.makedirs(cache, exist_ok=True)
        shutil.copy(out, "%s.%d.%s" % (kept, os.getpid(), os.path.basename(out)))
        os.rename("%s.%d.%s" % (kept, os.getpid(), os.path.basename(out)), kept)
    else:
        shutil.copy(kept, out)


def _compile(jobs, headers=None):
    if headers:
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
            list(pool.map(lambda cmd: _run_object(cmd, headers), jobs))
        return
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
        list(pool.map(_run, jobs))


def build(variant="asan", what=("server",), drivers=()):
    """Builds the variant and returns its directory.

    what: any of server, modules; drivers: names of /verif/drivers/NAME.c,
    each linked with every object of the tree but the program entry point.
    """
    flags = VARIANTS[variant]
    common = os.path.join(VERIF, "drivers", "common.h")
    extra = [os.path.join(VERIF, "drivers", d + ".c") for d in drivers]
    if drivers:
        extra.append(common)
    key = tree_hash()
    out = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _prune(variant, out)
        objs = os.path.join(out, "obj")
        cc = "clang"
        conf = "-I" + os.path.join(VERIF, "conf")
        if variant.startswith("embed"):
            java = os.path.dirname(JAVA[0])
            flags = flags + ["-I" + java, "-I" + os.path.join(java, "linux")]
        if not os.path.exists(os.path.join(out, "objects.ok")):
            shutil.rmtree(objs, ignore_errors=True)
            os.makedirs(objs)
            jobs = []
            for part in ("viriatum_commons", "viriatum"):
                top = os.path.join(REPO, "src", part)
                for path in _sources("src/" + part):
                    if path.endswith(".c"):
                        name = os.path.relpath(path, os.path.join(REPO, "src")).replace("/", "__")[:-2] + ".o"
                        jobs.append([cc] + flags + [conf, "-I" + top, "-c", path, "-o", os.path.join(objs, name)])
            digest = hashlib.sha256()
            for path in _sources("src") + [os.path.join(VERIF, "conf", "config.h")]:
                if path.endswith(".h"):
                    with open(path, "rb") as handle:
                        digest.update(handle.read())
            _compile(jobs, digest.hexdigest())
            open(os.path.join(out, "objects.ok"), "w").close()
        all_objs = sorted(os.path.join(objs, n) for n in os.listdir(objs) if n.endswith(".o"))
        if variant.startswith("embed"):
            # what the machine calls as it loads the library of the commons,
            # and that of the server has too
            all_objs = [path for path in all_objs if not path.endswith("viriatum_commons__jni__start.o")]
        entry = os.path.join(objs, "viriatum__viriatum.o")
        server = os.path.join(out, "viriatum")
        if "server" in what and not os.path.exists(server):
            _run([cc] + flags + ["-rdynamic"] + all_objs + LIBS + ["-o", server + ".tmp"])
            os.rename(server + ".tmp", server)
        if "modules" in what and not os.path.exists(os.path.join(out, "modules.ok")):
            mods = os.path.join(out, "modules")
            os.makedirs(mods, exist_ok=True)
            jobs = []
            for m in MODULES:
                top = os.path.join(REPO, "modules", "mod_" + m, "src", "viriatum_mod_" + m)
                srcs = [p for p in _sources("modules/mod_%s/src" % m) if p.endswith(".c")]
                libs = ["-llua5.1"] if m == "lua" else []
                jobs.append([cc] + flags + ["-shared", conf, "-I" + top] + srcs + libs +
                            ["-o", os.path.join(mods, "libviriatum_mod_%s.so" % m)])
            _compile(jobs)
            open(os.path.join(out, "modules.ok"), "w").close()
        jobs = []
        for d in drivers:
            src = os.path.join(VERIF, "drivers", d + ".c")
            dkey = hashlib.sha256(open(src, "rb").read() + (open(common, "rb").read() if os.path.exists(common) else b"")).hexdigest()[:12]
            exe = os.path.join(out, d)
            stamp = os.path.join(out, d + ".key")
            if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == dkey:
                continue
            # the program entry point of the server is renamed away: drivers
            # have their own main
            entry_obj = os.path.join(out, "entry_nomain.o")
            if not os.path.exists(entry_obj):
                _run(["objcopy", "--redefine-sym", "main=viriatum_main", entry, entry_obj])
            rest = [o for o in all_objs if o != entry] + [entry_obj]
            jobs.append((d, dkey, [cc] + flags + ["-rdynamic", conf, "-I" + os.path.join(REPO, "src", "viriatum"),
                         "-I" + os.path.join(VERIF, "drivers"), src] + rest + LIBS + ["-o", exe]))
        if jobs:
            _compile([j[2] for j in jobs])
            for d, dkey, _cmd in jobs:
                with open(os.path.join(out, d + ".key"), "w") as handle:
                    handle.write(dkey)
        os.utime(out)
    return out


def preload(name):
    """A library of /verif/drivers to be preloaded into servers."""
    src = os.path.join(VERIF, "drivers", name + ".c")
    with open(src, "rb") as handle:
        out = os.path.join(BUILD, "%s-%s.so" % (name, hashlib.sha256(handle.read()).hexdigest()[:12]))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".%s.lock" % name), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            _run(["clang", "-O1", "-g", "-shared", "-fPIC", "-w", src, "-ldl", "-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
    return out


def faults():
    """The one that makes their system calls fail or come out otherwise."""
    return preload("faults")


def _prune(variant, keep):
    """Keeps only the few most recent builds of a variant."""
    try:
        dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(variant + "-")]
    except FileNotFoundError:
        return
    dirs = sorted((d for d in dirs if d != keep), key=os.path.getmtime, reverse=True)
    for path in dirs[2:]:
        shutil.rmtree(path, ignore_errors=True)


if __name__ == "__main__":
    for name in sys.argv[1:] or ["asan"]:
        print(build(name, ("server", "modules")))
