"""Run the real assembler on generated files in a scratch directory."""
import os
import resource
import shutil
import subprocess
import threading

from .harness import Violation

CPU_LIMIT = 25          # seconds of CPU; an ordinary run takes a few milliseconds
WALL_LIMIT = 120
OUT_LIMIT = 16 << 20
_set = False


def _limits():
    global _set
    if not _set:
        _set = True
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        if not os.environ.get("PBT_NO_AS_LIMIT"):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def spawn(argv, cwd, env=None, stdin=None, merge=True, as_limit=True, cpu=CPU_LIMIT, limit=OUT_LIMIT):
    """Run argv; returns (returncode, stdout+stderr or stdout). A negative code is a signal.
    Output beyond the limit is dropped."""
    if as_limit:
        _limits()
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.DEVNULL,
                         close_fds=False)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu))
    except (ProcessLookupError, PermissionError, OSError):
        pass
    timer = threading.Timer(WALL_LIMIT, p.kill)
    timer.daemon = True
    timer.start()
    try:
        if stdin is not None:
            try:
                p.stdin.write(stdin)
                p.stdin.close()
            except BrokenPipeError:
                pass
        out = p.stdout.read(limit)
        while len(out) >= limit and p.stdout.read(1 << 20):
            pass
        p.stdout.close()
        rc = p.wait()
    finally:
        timer.cancel()
    return rc, out


class Result:
    __slots__ = ("rc", "console", "out", "sym", "lst", "source")

    def ok(self):
        return self.rc == 0


def _read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def assemble(env, files, args=(), inputs=("in.asm",), sym=False, lst=False, out=True, cwd="", merge=True,
             clean=True, exe=None, envvars=None, outname="out.bin", extra=()):
    """files: dict name -> str/bytes. Returns a Result; death by a signal is always a Violation."""
    d = env.scratch
    if clean:
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
    for name, text in files.items():
        p = os.path.join(d, name)
        if "/" in name:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, str):
            text = text.encode("latin-1")
        with open(p, "wb") as f:
            f.write(text)
    argv = [exe or env.pasm]
    if out:
        argv += ["-o", outname]
    if sym:
        argv += ["-s", "out.sym"]
    if lst:
        argv += ["-l", "out.lst"]
    argv += list(args) + list(inputs)
    env.runs += 1
    wd = os.path.join(d, cwd) if cwd else d
    r = Result()
    r.rc, r.console = spawn(argv, wd, env=envvars, merge=merge)
    r.out = _read(os.path.join(wd, outname))
    r.sym = _read(os.path.join(wd, "out.sym"))
    r.lst = _read(os.path.join(wd, "out.lst"))
    r.source = files
    if r.rc < 0:
        raise Violation("the assembler died with signal %d\n%s" % (-r.rc, describe(files, argv, r)))
    return r


def describe(files, argv=None, r=None):
    s = []
    for name, text in files.items():
        if isinstance(text, bytes):
            text = text.decode("latin-1")
        s.append("--- %s\n%s" % (name, text if len(text) < 6000 else text[:6000] + "..."))
    if argv:
        s.append("argv: %s" % " ".join(argv[1:]))
    if r is not None:
        s.append("exit %d; console: %s" % (r.rc, r.console.decode("latin-1")[-1500:]))
        s.append("output: %s" % (hexs(r.out) if r.out is not None else None))
    return "\n".join(s)


def hexs(b):
    if b is None:
        return "none"
    return " ".join("%02x" % x for x in b[:400]) + (" ...(%d bytes)" % len(b) if len(b) > 400 else "")


def fail(message, files, r=None, signature=None, args=()):
    raise Violation(message + "\n" + describe(files, ["pasm"] + list(args), r), signature)
