"""C27: assembly is a deterministic function of sources and options."""
import os
import shutil

from hypothesis import strategies as st

from .. import gen, model
from ..asm import fail, spawn

RULE = ("a random program with every construct (some with an injected undefined symbol, so that it is rejected), assembled once and "
        "then again two to four times in a changed world: another directory with a short or long name, other values in fresh heap "
        "memory (MALLOC_PERTURB_), other environment variables and stack positions, locale and time zone, old output files that are "
        "longer or shorter, absolute paths of the outputs, options in another order or spelling, -v or -log added, another name of the source file (of which the included files may share a long beginning), sources "
        "found through -dir; about one in 60 under valgrind, where no "
        "decision may depend on uninitialised memory. Exit status, output, symbol and listing files (the names of the files "
        "in it translated) must be the same bytes. Non-trivial: an accepted program of ten or more bytes with "
        "two or more repeats")
BUDGET = {"quick": 3600, "thorough": 80000}
ASSUMPTIONS = ["paths in the listing are those given, the files are named by name only"]


class Prog(gen.Program):
    def k_string(self, depth, top, args):
        return [["data", self.pick([".byte", ".str", ".word"]), [["str", [["c", self.pick("aB ;/,.*'-$(")] for _ in range(self.i(1, 5))]]]]]

    def k_inc(self, depth, top, args):
        self.nlabel += 1
        return [["inc", self.stem + "part%d.inc" % self.nlabel, self.block(self.i(1, 3), depth - 1, True, args)]]

    def k_bad(self, depth, top, args):
        return [["data", ".word", [["e", ["s", "nowhere"]]]]]

    def kinds(self, top, depth, kinds):
        res = gen.Program.kinds(self, top, depth, kinds)
        return [k for k in res if not (k == "inc" and (not top or depth <= 0) or k == "bad" and not top)]


WORLD = st.fixed_dictionaries({
    "dir": st.sampled_from(["w", "w", "a/b/c", "x" * 200, "sp ace/%s", "q'uote"]),
    "perturb": st.sampled_from([0, 1, 85, 170, 255]),
    "env": st.sampled_from([{}, {"PAD": "x" * 4000}, {"LC_ALL": "C.UTF-8", "LANG": "tr_TR.UTF-8"}, {"TZ": "Asia/Tokyo", "PAD": "y" * 17},
                            {"TERM": "dumb", "COLUMNS": "20"}, {"A": "1", "X": "2", "lab0": "3"}]),
    "old": st.sampled_from(["", "", "short", "long"]),
    "order": st.integers(0, 5), "slash": st.booleans(), "upper": st.booleans(), "absolute": st.booleans(),
    "v": st.integers(0, 3), "log": st.integers(0, 3),
    "name": st.sampled_from(["in.asm", "in.asm", "in.asm", "other.asm", "n" * 100, "x.inc"]),
    "search": st.integers(0, 4)})


@st.composite
def cases(draw):
    g = Prog(draw, size=10, depth=3, nvars=2, nmacros=3, string=1, inc=1, section=2, anon=1, local=2, reg=1, ds=1, pc=1, print=1, call=3,
             bad=draw(st.sampled_from([0, 0, 0, 0, 0, 1])))
    stem = draw(st.sampled_from(["", "", "s" * 13, "a_long_name_that_they_share", "L" * 60, "in.asm"]))
    g.stem = stem
    prog = g.program()
    return {"stem": stem, "prog": prog, "flags": [draw(st.booleans()) for _ in range(3)], "worlds": draw(st.lists(WORLD, min_size=2, max_size=4)),
            "valgrind": draw(st.integers(0, 59)) == 37}


def run(env, files, d, w, flags, wrap=(), cpu=30):
    """Assemble in directory d of the scratch directory; (exit, output, symbols, listing, console)."""
    wd = os.path.join(env.scratch, d)
    sd = os.path.join(wd, "src") if w.get("search") == 1 else wd
    os.makedirs(sd, exist_ok=True)
    name = w.get("name", "in.asm")
    if name != "in.asm":
        name = w.get("stem", "") + name
    for n, t in files.items():
        with open(os.path.join(sd, name if n == "in.asm" else n), "wb") as f:
            f.write(t.encode("latin-1"))
    outs = ["out.bin", "out.sym", "out.lst"]
    for o in outs:
        if w.get("old"):
            with open(os.path.join(wd, o), "wb") as f:
                f.write(b"old\n" if w["old"] == "short" else b"; old text $1000: \0\xff\n" * 6000)
    pre = wd + "/" if w.get("absolute") else ""
    opts = [["-o", pre + outs[0]], ["-s", pre + outs[1]], ["-l", pre + outs[2]], *[[f] for f in flags]]
    if w.get("v") == 1:
        opts.append(["-v"])
    if w.get("log") == 1:
        opts.append(["-log", "run.log"])
    if w.get("search") == 1:
        opts.append(["-dir", "nowhere;src"])
    k = w.get("order", 0)
    opts = opts[k % len(opts):] + opts[:k % len(opts)]
    for o in opts:
        if w.get("slash"):
            o[0] = "/" + o[0][1:]
        if w.get("upper"):
            o[0] = o[0].upper()
    argv = list(wrap) + [env.pasm] + [x for o in opts for x in o] + [name]
    e = dict(os.environ)
    e.update(w.get("env", {}))
    if w.get("perturb"):
        e["MALLOC_PERTURB_"] = str(w["perturb"])
    rc, out = spawn(argv, wd, env=e, cpu=cpu)
    res = [rc]
    for o in outs:
        p = os.path.join(wd, o)
        data = None
        if os.path.exists(p):
            with open(p, "rb") as f:
                data = f.read()
        res.append(data)
    if res[3] is not None and name != "in.asm":
        res[3] = res[3].replace(b"; Processing " + name.encode() + b"\n", b"; Processing in.asm\n")
    return res, out, argv


def check(case, env):
    for n in os.listdir(env.scratch):
        shutil.rmtree(os.path.join(env.scratch, n))
    files = model.render(case["prog"])
    flags = [f for f, on in zip(["-i", "-c64", "-nowarn"], case["flags"]) if on]
    base, console, argv = run(env, files, "first", {}, flags, cpu=5)
    if base[0] in (-9, -24):
        return {"labels": ["endless loop"]}
    if base[0] < 0:
        fail("the assembler died with signal %d: %s" % (-base[0], console[-500:]), files, args=argv[1:])
    ok = base[0] == 0
    for w in case["worlds"]:
        got, out, argv2 = run(env, files, w["dir"], dict(w, stem=case["stem"]), flags)
        what = ["exit status", "output", "symbol file", "listing"]
        for k in range(4):
            # a rejected source leaves no promise about the files, except that they are not a success
            if got[k] != base[k] and (ok or k == 0):
                a, b = (base[k], got[k]) if k else (base[k], got[k])
                fail("the %s differs: first %r, then %r\nworld: %r\nargv: %r\nconsole: %s" % (
                    what[k], short(a, b), short(b, a), w, argv2, out.decode("latin-1")[-1000:]), files, args=argv[1:])
        if got[0] == base[0] and w["v"] != 1 and w["name"] == "in.asm" and tail(out) != tail(console):
            if w["search"] != 1 and not w["absolute"]:
                fail("the console differs: first %r, then %r\nworld: %r" % (tail(console)[-1500:], tail(out)[-1500:], w), files, args=argv[1:])
        shutil.rmtree(os.path.join(env.scratch, w["dir"].split("/")[0]))
    if case["valgrind"]:
        got, out, argv2 = run(env, files, "vg", {}, flags, ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"])
        if got[0] == 99 or got != base and ok:
            fail("valgrind: exit %d, %s" % (got[0], out.decode("latin-1")[-3000:]), files, args=argv[1:])
    return {"nontrivial": ok and len(base[1] or b"") >= 10 and len(case["worlds"]) >= 2,
            "labels": ["accepted" if ok else "rejected"] + ["valgrind"] * case["valgrind"],
            "sample": {"source": files["in.asm"], "worlds": case["worlds"]}}


def tail(console):
    """The console without the command line."""
    return b"\n".join(l for l in console.split(b"\n") if b" -o " not in l.lower() and b" /o " not in l.lower())


def short(a, b):
    if not isinstance(a, bytes) or not isinstance(b, bytes):
        return a
    k = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), min(len(a), len(b)))
    return "...%d" % k, a[max(k - 40, 0):k + 60]
