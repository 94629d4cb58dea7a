"""C24: the dictionary behaves as a map."""
import os
from collections import Counter

from hypothesis import strategies as st

from ..asm import spawn
from ..harness import Violation

RULE = ("histories of up to 120 operations on one to three dictionaries (string keys or pointer keys, values of 1 to 64 bytes): inserts, "
        "searches, deletes, counts, enumerations and reads of earlier results over a pool of keys that differ in case, "
        "in length or in one byte, and runs of up to 2500 inserts of fresh keys that make the table grow; every result "
        "is compared with a map of lists, under AddressSanitizer. "
        "Non-trivial: the table grew at least once, and a key with several live entries was deleted from")
BUDGET = {"quick": 2400, "thorough": 40000}
FLAVOUR = "asan"
TARGETS = ("unitdrv",)
ASSUMPTIONS = ["the dictionaries are used through their functions and number_elements; keys differ in case only in ASCII"]

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
POOL = ["", "a", "A", "b", "ab", "Ab", "AB", "aB", "ba", "abc", "aBc", "label", "LABEL", "Label", "labe1", "x.y", "X.y", "main.loop",
        "main.Loop", "@l", "@L", "\\1", "\\2", "[", "{", "_", "`", "@", "k1", "K1", "k10", "x" * 300, "X" * 300, "x" * 299 + "y",
        "\xe9", "\xc9", "[a", "{a", "z^", "z~"]


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    ds = [[draw(st.sampled_from([0, 0, 0, 1, -1])), draw(st.sampled_from([1, 2, 4, 7, 8, 24, 64]))] for _ in range(i(1, 3))]
    ops = []
    pool = draw(st.lists(st.integers(0, len(POOL) - 1), min_size=1, max_size=8))
    bulk = i(0, 3)
    for _ in range(i(5, 120)):
        k = i(0, 19)
        d = i(0, len(ds) - 1)
        if k <= 6:
            ops.append(["i", d, draw(st.sampled_from(pool)), i(0, 255)])
        elif k <= 9:
            ops.append(["s", d, draw(st.sampled_from(pool))])
        elif k <= 13:
            ops.append(["x", d, draw(st.sampled_from(pool))])
        elif k == 14:
            ops.append(["n", d])
        elif k == 15:
            ops.append(["e", d])
        elif k == 16:
            ops.append(["v", i(0, 1 << 16)])
        elif k == 17 and bulk:
            bulk -= 1
            ops.append(["B", d, i(0, 3000), draw(st.sampled_from([3, 40, 900, 921, 922, 950, 1900, 2500])), i(0, 3)])
        elif k == 18:
            ops.append(["S", d, i(0, 3000), i(1, 200)])
        elif k == 19:
            ops.append(["X", d, i(0, 3000), i(1, 400)])
    if i(0, 4):
        ops.append(["e", i(0, len(ds) - 1)])
    return {"dicts": ds, "ops": ops}


def key(kind, n):
    """The text in the script and the identity of key n of the pool, or (n >= 1000) of the runs."""
    if kind == 0:
        s = POOL[n] if n < 1000 else "Key%d" % (n - 1000) if n % 3 else "key_%x.%d" % (n - 1000, n % 7)
        return "k" + s.encode("latin-1").hex(), "".join(c.lower() if c < "\x80" else c for c in s)
    p = n * 8 + 1 if n < 1000 else 0x7f0000000000 + (n - 1000) * 16 if n % 2 else (n - 1000) << 3
    return "k%x" % p, p


def run(env, script, expected, what):
    with open(os.path.join(env.scratch, "script"), "w") as f:
        f.write("".join(l + "\n" for l in script))
    rc, out = spawn([env.unitdrv, "script"], env.scratch, env=ENV, as_limit=False, cpu=60, limit=256 << 20)
    text = out.decode("latin-1")
    if rc != 0:
        raise Violation("the driver ended with %d: %s\nscript:\n%s" % (rc, text[-3000:], "\n".join(script)[:4000]))
    got = text.split("\n")[:-1]
    pos = 0
    for line, want in expected:
        if isinstance(want, list):
            have = []
            while pos < len(got) and got[pos] != ".":
                have.append(got[pos])
                pos += 1
            if sorted(have) != sorted(want):
                missing = list((Counter(want) - Counter(have)).elements())[:5]
                extra = list((Counter(have) - Counter(want)).elements())[:5]
                raise Violation("%s: operation %d (%s): %d entries, %d expected; missing %r, unexpected %r\nscript:\n%s" % (
                    what, line, script[line], len(have), len(want), missing, extra, "\n".join(script[:line + 1])[-3000:]))
            pos += 1
            continue
        have = got[pos] if pos < len(got) else "(nothing)"
        pos += 1
        if have != want:
            raise Violation("%s: operation %d (%s) gives %s, expected %s\nscript:\n%s" % (
                what, line, script[line], have[:200], want[:200], "\n".join(script[:line + 1])[-3000:]))
    if pos != len(got):
        raise Violation("%s: more output than expected: %r" % (what, got[pos:pos + 5]))


def check(case, env):
    script, expected = [], []
    ds = case["dicts"]
    for n, (kind, size) in enumerate(ds):
        script.append("d %d %d %d" % (n, size, kind))
    live = [{} for _ in ds]                 # identity of a key -> list of [script key, value, serial], the oldest first
    alive = {}                              # serial -> value of an entry that is not deleted
    serial = 0
    stacked = False

    def insert(d, n, v):
        nonlocal serial
        t, ident = key(ds[d][0], n)
        val = bytes((v + k * 7 + serial * 13) & 0xff for k in range(ds[d][1])).hex()
        script.append("i %d %s %s" % (d, t, val))
        expected.append((len(script) - 1, val))
        live[d].setdefault(ident, []).append([t, val, serial])
        alive[serial] = val
        serial += 1

    def search(d, n):
        t, ident = key(ds[d][0], n)
        script.append("s %d %s" % (d, t))
        e = live[d].get(ident)
        expected.append((len(script) - 1, e[-1][1] if e else "-"))

    def delete(d, n):
        nonlocal stacked
        t, ident = key(ds[d][0], n)
        script.append("x %d %s" % (d, t))
        e = live[d].get(ident)
        if e:
            stacked = stacked or len(e) > 1
            del alive[e.pop()[2]]

    for op in case["ops"]:
        k, d = op[0], op[1]
        if k == "i":
            insert(d, op[2], op[3])
        elif k == "s":
            search(d, op[2])
        elif k == "x":
            delete(d, op[2])
        elif k == "n":
            script.append("n %d" % d)
            expected.append((len(script) - 1, str(sum(map(len, live[d].values())))))
        elif k == "e":
            script.append("e %d" % d)
            expected.append((len(script) - 1, ["%s %s" % (t, v) for e in live[d].values() for t, v, _ in e]))
        elif k == "v":
            if serial and d % serial in alive:
                script.append("v %d" % (d % serial))
                expected.append((len(script) - 1, alive[d % serial]))
        elif k == "B":
            for n in range(op[3]):
                insert(d, 1000 + op[2] + n, op[4] + n)
        elif k == "S":
            for n in range(op[3]):
                search(d, 1000 + op[2] + n)
        elif k == "X":
            for n in range(op[3]):
                delete(d, 1000 + op[2] + n)
    for d in range(len(ds)):
        for ident in list(live[d])[:60]:
            t = live[d][ident][-1] if live[d][ident] else None
            if t:
                script.append("s %d %s" % (d, t[0]))
                expected.append((len(script) - 1, t[1]))
        script.append("e %d" % d)
        expected.append((len(script) - 1, ["%s %s" % (t, v) for e in live[d].values() for t, v, _ in e]))
        script.append("f %d" % d)
    run(env, script, expected, "dictionary")
    grown = any(op[0] == "B" and op[3] > 920 for op in case["ops"])
    return {"nontrivial": grown and stacked, "labels": ["grown"] * grown + ["several entries"] * stacked + ["pointer keys"] * any(k for k, _ in ds),
            "sample": [op for op in case["ops"]][:30]}
