"""C26: eolconvert changes line ends and nothing else."""
import os
import shutil

from hypothesis import strategies as st

from ..asm import spawn
from ..harness import Violation

RULE = ("directory trees up to four levels deep with up to 12 files: texts of printable characters whose lines end with LF, CR LF, a mixture of "
        "both, or CR, with runs of empty lines, with and without a last terminator, empty files, up to 100000 bytes, "
        "and binary files (a text with one byte changed to a control or high byte, random bytes), and further files outside the samples "
        "directory. The whole tree is compared with a model of the conversion, after one run and after a second one. "
        "Non-trivial: at least one text with CR LF or CR line ends and one binary file holding CR LF")
BUDGET = {"quick": 4000, "thorough": 60000}
FLAVOUR = "asan"
TARGETS = ("eolconvert",)
ASSUMPTIONS = ["a text whose lines end with CR has no LF"]

PRINT = "".join(chr(c) for c in range(32, 127))
NAMES = ["a.asm", "b.inc", "README", "x_", "a b.txt", "c.d.e", ".hidden", "make.sh", "z.bin", "Q.prg", "long" * 30, "50%.txt", "'q'", "sub.asm"]
DIRS = ["", "sub", "sub/inc", "sub/inc/x", "sub/inc/x/y", "lib", "lib/a b", "samples", "CMakePasm/samples", ".hid", "sub/.git/x", "x.asm", "..a",
        "d" * 100 + "/e" * 20]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77", UBSAN_OPTIONS="exitcode=77")

line = st.one_of(st.just(""), st.text(alphabet=PRINT, max_size=20), st.sampled_from([" ", "\\r\\n", "\\n", "^M", "lda #1 ; x", "~", "0"]))


@st.composite
def contents(draw):
    k = draw(st.integers(0, 9))
    lines = draw(st.lists(line, max_size=10))
    if k == 9:
        return ["raw", draw(st.binary(max_size=60)).decode("latin-1")]
    mode = draw(st.sampled_from("nnrrmmmc"))
    ends = [draw(st.sampled_from(["\n", "\r\n"])) if mode == "m" else {"n": "\n", "r": "\r\n", "c": "\r"}[mode] for _ in lines]
    last = draw(st.booleans())
    odd = None
    if k >= 7:
        odd = [draw(st.integers(0, 1 << 16)), draw(st.sampled_from([0, 9, 11, 12, 26, 27, 8, 127, 128, 160, 255, 233, 133]))]
    return ["text", lines, ends, last, odd, draw(st.sampled_from([1] * 30 + [3, 300, 2000]))]


@st.composite
def cases(draw):
    files = draw(st.lists(st.tuples(st.integers(0, len(DIRS) - 1), st.integers(0, len(NAMES) - 1), contents(), st.integers(0, 9)), max_size=12))
    return {"files": [list(f) for f in files], "empty": draw(st.lists(st.integers(0, len(DIRS) - 1), max_size=3)), "runs": draw(st.integers(1, 3))}


def make(c):
    """The bytes of a file and those it is converted to."""
    if c[0] == "raw":
        raw = c[1].encode("latin-1")
        if not all(32 <= b < 127 or b in (10, 13) for b in raw):
            return raw, raw
        raw += b"\0"
        return raw, raw
    _, lines, ends, last, odd, rep = c
    lines, ends = lines * rep, ends * rep
    before = after = ""
    for n, (l, e) in enumerate(zip(lines, ends)):
        end = n < len(lines) - 1 or last
        before += l + (e if end else "")
        after += l + ("\n" if end else "")
    before = before.encode()
    if odd and before:
        k = odd[0] % len(before)
        before = before[:k] + bytes([odd[1]]) + before[k:]
        return before, before
    return before, after.encode()


def read(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fp:
                res[os.path.relpath(p, root)] = (fp.read(), os.stat(p).st_mode)
        for n in ds:
            res[os.path.relpath(os.path.join(d, n), root)] = (None, 0)
    return res


def check(case, env):
    root = env.scratch
    for n in os.listdir(root):
        shutil.rmtree(os.path.join(root, n))
    samples = os.path.join(root, "CMakePasm", "samples")
    cwd = os.path.join(root, "a", "b")
    os.makedirs(samples)
    os.makedirs(cwd)
    eol = binary = False
    want = {}
    for d, n, c, outside in case["files"]:
        base = samples if outside else os.path.join(root, "other")
        d = os.path.join(base, DIRS[d])
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, NAMES[n])
        if os.path.isdir(p):
            continue
        before, after = make(c)
        with open(p, "wb") as f:
            f.write(before)
        if outside:
            eol = eol or before != after
            binary = binary or (before == after and b"\r\n" in before)
        want[os.path.relpath(p, root)] = after if outside else before
    for k in case["empty"]:
        try:
            os.makedirs(os.path.join(samples, DIRS[k]), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            pass
    old = read(root)
    expected = {p: (want[p] if p in want else v[0], v[1]) for p, v in old.items()}
    for run in range(case["runs"]):
        rc, out = spawn([env.eolconvert], cwd, env=ENV, as_limit=False)
        if rc != 0:
            raise Violation("run %d ends with %d: %s" % (run + 1, rc, out.decode("latin-1")[-3000:]))
        got = read(root)
        if got != expected:
            for p in sorted(set(got) | set(expected)):
                if got.get(p) != expected.get(p):
                    raise Violation("run %d: %s: was %r, is %r, expected %r" % (
                        run + 1, p, old.get(p), got.get(p), expected.get(p)))
    return {"nontrivial": eol and binary, "labels": ["converted"] * eol + ["binary with CR LF"] * binary,
            "sample": [[DIRS[f[0]], NAMES[f[1]], f[2]] for f in case["files"]][:4]}
