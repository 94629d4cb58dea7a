"""C07: data directives emit exactly their values or are rejected."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import fail

RULE = ("1-8 data statements (.byte .db .word .dw .dcw .str .text .string .fill) with literals, expressions, symbols "
        "defined before or after, * and strings, at the top level, in a loop, macro or section, each followed by a "
        "label whose address is checked; in a third of the cases one value, count or string is outside its range "
        "and the program must be rejected. Non-trivial: more than one directive kind, or an invalid value")
BUDGET = {"quick": 14000, "thorough": 250000}
ASSUMPTIONS = ["values below -128 (.byte) and -32768 (.word), negative .str values and fills past $FFFF are "
               "unspecified and not generated"]
BYTE = [".byte", ".db", ".BYTE"]
WORD = [".word", ".dw", ".dcw"]
STR = [".str", ".text", ".string"]
TEXT = st.text(alphabet="abcXYZ 019!#$%&()*+,-./:;<=>?@[]^_{}~'", min_size=0, max_size=9)
BVAL = st.one_of(gen.BYTE_VALUES, st.integers(-128, -1))
WVAL = st.one_of(gen.VALUES, st.integers(-32768, -1))
BADBYTE = st.one_of(st.sampled_from([256, 257, 0x1FF, 0x7FFF, 65535, 65536]), st.integers(256, 100000))
BADWORD = st.one_of(st.sampled_from([65536, 65537, 0x1FFFF, 0x7FFFFFFF]), st.integers(65536, 1 << 24))


@st.composite
def cases(draw):
    equs = []

    def spell(v, allow_sym=True):
        """An expression of value v; symbols hold 0..65535."""
        k = draw(st.integers(0, 7))
        lit = lambda x: ["n", x, draw(gen.FMTS)] if x >= 0 else ["neg", ["n", -x, draw(gen.FMTS)]]
        if k <= 1 or v > 0x3FFFFFFF:
            return lit(v)
        if k == 2 and allow_sym and 0 <= v <= 65535:
            name = "s%d" % len(equs)
            equs.append([name, v, draw(st.booleans())])
            return ["s", name]
        if k == 3 and allow_sym and -v <= 65535:
            b = draw(st.integers(max(0, -v), 65535))
            name = "s%d" % len(equs)
            equs.append([name, b, draw(st.booleans())])
            d = v - b
            return ["bin", "+" if d >= 0 else "-", ["s", name], ["n", abs(d), "d"]]
        if k == 4:
            d = draw(st.integers(0, 400))
            return ["bin", "-", lit(v + d), ["n", d, "d"]] if v + d >= 0 else lit(v)
        if k == 5 and 0 <= v <= 255:
            hi = draw(st.integers(0, 255))
            return ["u", "<", ["n", hi * 256 + v, "H"]]
        if k == 6 and 0 <= v <= 255:
            lo = draw(st.integers(0, 255))
            return ["u", ">", ["n", v * 256 + lo, "H"]]
        if k == 7 and v >= 0:
            d = draw(st.integers(0, v if v < 400 else 400))
            return ["bin", "+", lit(v - d), ["n", d, "h"]]
        return lit(v)

    def string():
        s = draw(TEXT)
        if len(s) == 1 and draw(st.booleans()):
            s += "q"
        # one character is a number; in .byte, .word and .str it emits the same thing except in size
        return s if len(s) != 1 else s + "z"

    def one():
        k = draw(st.sampled_from(["byte", "byte", "word", "str", "fill"]))
        if k == "fill":
            return ["fill", spell(draw(gen.BYTE_VALUES)), spell(draw(st.one_of(st.integers(0, 9), st.integers(0, 300))))]
        d = draw(st.sampled_from({"byte": BYTE, "word": WORD, "str": STR}[k]))
        items = []
        for _ in range(draw(st.integers(1, 5))):
            if draw(st.integers(0, 2 if k == "str" else 4)) == 0:
                items.append(["str", gen.plain(string())])
            else:
                v = draw({"byte": BVAL, "word": WVAL, "str": gen.VALUES}[k])
                e = ["pc"] if k == "word" and draw(st.integers(0, 8)) == 0 else spell(v)
                items.append(["e", e])
        return ["data", d, items]

    def bad():
        k = draw(st.integers(0, 6))
        if k <= 1:
            return ["data", draw(st.sampled_from(BYTE)), one_of_items(BVAL, spell(draw(BADBYTE)))]
        if k == 2:
            return ["data", draw(st.sampled_from(WORD)), one_of_items(WVAL, spell(draw(BADWORD)))]
        if k <= 4:
            v = draw(st.one_of(st.sampled_from([256, -1, -128, 511, 65535, -255, -256]), st.integers(256, 70000), st.integers(-70000, -1)))
            return ["fill", spell(v), spell(draw(st.integers(0, 4)))]
        return ["fill", spell(draw(gen.BYTE_VALUES)), spell(draw(st.one_of(st.sampled_from([-1, -2, -255, -32768]), st.integers(-70000, -1))))]

    def one_of_items(vals, e):
        items = [["e", spell(draw(vals))] for _ in range(draw(st.integers(0, 3)))]
        items.insert(draw(st.integers(0, len(items))), ["e", e])
        return items

    stm = [one() for _ in range(draw(st.integers(1, 8)))]
    isbad = draw(st.integers(0, 2)) == 0
    if isbad:
        stm = stm[:3]
        stm.insert(draw(st.integers(0, len(stm))), bad())
    ctx = [draw(st.sampled_from(["top", "top", "top", "for", "macro", "section", "if"])) for _ in stm]
    return {"st": stm, "ctx": ctx, "equs": equs, "bad": isbad, "org": draw(st.sampled_from([None, 0x0801, 0xC000]))}


def program(case):
    prog = [["equ", n, ["n", v, "d"], "="] for n, v, before in case["equs"] if before]
    prog.append(["var", [["vv", None]]])
    if case["org"] is not None:
        prog.append(["org", ["n", case["org"], "h"]])
    labels = []
    for i, (s, c) in enumerate(zip(case["st"], case["ctx"])):
        if c == "top":
            prog.append(s if i % 2 else ["lst", "start%d" % i, False, s])
        elif c == "for":
            prog.append(["for", "vv", gen.n(1), gen.n(2), None, [s]])
        elif c == "if":
            prog.append(["if", gen.n(1), [s], None])
        elif c == "macro":
            prog.append(["macro", "mm%d" % i, [s]])
            prog.append(["call", "mm%d" % i, []])
        else:
            prog.append(["section", "sec%d" % i, [s]])
        prog.append(["label", "after%d" % i])
        labels.append("after%d" % i)
    prog += [["equ", n, ["n", v, "d"], "="] for n, v, before in case["equs"] if not before]
    prog.append(["data", ".word", [["e", ["s", n]] for n in labels]])
    return prog


def check(case, env):
    prog = program(case)
    ref, r = common.judge(prog, env)
    if r is None:
        return {"labels": ["discarded"]}
    if case["bad"] and ref is not None:
        # a bad value that turned out valid would be an error of the generator
        raise AssertionError("not invalid: %r" % (case,))
    if not case["bad"] and ref is None:
        raise AssertionError("not valid: %r" % (case,))
    ks = {s[1] if s[0] == "data" else "fill" for s in case["st"]}
    return {"nontrivial": len(ks) > 1 or case["bad"], "labels": ["rejected" if case["bad"] else "valid"] + sorted(set(case["ctx"])),
            "sample": r.source["in.asm"]}
