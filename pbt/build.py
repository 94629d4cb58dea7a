"""Build pasm (and the unit driver) from /repo's current working tree, outside /repo.

Every binary goes to <cache>/<hash of the sources and flags>/, so a change of any source file gives a
new build and an unchanged tree is built once per sandbox.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PASM_REPO", "/repo")
SRC = os.path.join(REPO, "CMakePasm", "source")
EOL = os.path.join(REPO, "CMakePasm", "eolconvert")
DRV = os.path.join(VERIF, "drv")
CACHE = os.environ.get("PASM_CACHE", os.path.join(VERIF, ".cache"))

FLAVOURS = {
    # the functional checks: same definitions as the repository's RelWithDebInfo build, optimised for
    # compile time rather than speed
    "plain": (["g++"], ["-O1", "-g0", "-DNDEBUG"], []),
    "asan": (["clang++"], ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined",
                           "-fno-sanitize-recover=undefined", "-fno-sanitize=signed-integer-overflow,shift,vptr",
                           "-fno-omit-frame-pointer"],
             ["-fsanitize=address,undefined"]),
}
COMMON = ["-std=c++17", "-w"]


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _files(d, exts):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(exts)]


def build(flavour="plain", targets=("pasm",)):
    """Return the directory holding the requested targets: pasm, unitdrv, eolconvert."""
    cxx, cflags, ldflags = FLAVOURS[flavour]
    srcs = _files(SRC, (".cc", ".h", ".y", ".l"))
    inputs = list(srcs)
    if "unitdrv" in targets:
        inputs += _files(DRV, (".cc", ".h"))
    if "eolconvert" in targets:
        inputs += _files(EOL, (".cc", ".cpp", ".c", ".h"))
    key = _hash(inputs, flavour + repr(FLAVOURS[flavour]) + ",".join(sorted(targets)))
    out = os.path.join(CACHE, flavour + "-" + key)
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock-" + flavour + "-" + key), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, "ok")):
            return out
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        gen = os.path.join(out, "gen")
        os.makedirs(gen)
        _run(["bison", "-o", "pasm.tab.cc", "--defines=pasm.tab.h", os.path.join(SRC, "pasm.y")], cwd=gen)
        _run(["flex", "-o", "pasm.flex.cc", os.path.join(SRC, "pasm.l")], cwd=gen)
        jobs = []
        objs = {"engine": [], "main": [], "drv": []}

        def add(group, path, inc=()):
            o = os.path.join(out, group + "_" + os.path.basename(path) + ".o")
            objs[group].append(o)
            jobs.append(cxx + COMMON + cflags + ["-I", SRC, "-I", gen] + list(inc) + ["-c", path, "-o", o])

        for p in srcs:
            if p.endswith(".cc"):
                add("main" if os.path.basename(p) == "main.cc" else "engine", p)
        for p in _files(gen, (".cc",)):
            add("engine", p)
        if "unitdrv" in targets:
            for p in _files(DRV, (".cc",)):
                add("drv", p, ["-I", DRV])
        if "eolconvert" in targets:
            es = [p for p in _files(EOL, (".cc", ".cpp"))]
            jobs.append(cxx + COMMON + cflags + ldflags + es + ["-o", os.path.join(out, "eolconvert")])
        jobs.sort(key=lambda j: -os.path.getsize(j[j.index("-c") + 1]) if "-c" in j else 0)
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f in [ex.submit(_run, j) for j in jobs]:
                f.result()
        _run(cxx + objs["main"] + objs["engine"] + ldflags + ["-o", os.path.join(out, "pasm")])
        if "unitdrv" in targets:
            _run(cxx + objs["drv"] + objs["engine"] + ldflags + ["-o", os.path.join(out, "unitdrv")])
        for f in os.listdir(out):
            if f.endswith(".o"):
                os.unlink(os.path.join(out, f))
        open(os.path.join(out, "ok"), "w").close()
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    for a in sys.argv[1:] or ["plain:pasm"]:
        flavour, target = a.split(":")
        print(build(flavour, (target,)))
