"""C08: string literals and escapes denote exactly the bytes written."""
from hypothesis import strategies as st

from .. import gen, model
from ..asm import assemble, fail

RULE = ("1-5 strings made of printable, tab and 8-bit characters, comment and directive look-alikes and every escape, "
        "of length 0 to 400, each used in .byte, .word, .str and .print (several per statement, at the top level, in "
        "a loop body, a macro or a kept or skipped conditional), plus character constants in expressions; output and "
        "console compared with the bytes denoted. Non-trivial: an escape, a comment marker or an 8-bit character")
BUDGET = {"quick": 14000, "thorough": 250000}
ASSUMPTIONS = ["adjacent string literals without a comma are not generated",
               "a one-character string in .print is a number (its character's code) and not generated there"]
LOOK = [";", "//", "/*", "*/", ".endif", ".org 5", " .byte 1", "lda #1", "a = 5", "\\\\", ".inc", ".macro x", "$41", "%10",
        "0x41", "''", ",", ":", "@a", "\\", "\t", "  ", ".endm", ".else", ".ifdef x", "\\1"]
PLAIN = st.characters(min_codepoint=32, max_codepoint=126, exclude_characters='"\\')
HIGH = st.one_of(st.characters(min_codepoint=128, max_codepoint=255), st.just("\t"))
ESCS = st.sampled_from("nratbfv\\'\"nratbfvNRATBFV")
HEX = st.lists(st.one_of(st.integers(0, 255), st.sampled_from([0, 9, 10, 13, 34, 39, 92, 255])), min_size=1, max_size=3)


@st.composite
def strings(draw, least=0):
    res = []
    n = draw(st.integers(0, 8))
    if draw(st.integers(0, 15)) == 0:
        res += [["c", "abcdefghij0123456789"[k % 20]] for k in range(draw(st.integers(20, 400)))]
    for _ in range(n):
        k = draw(st.integers(0, 9))
        if k <= 3:
            res.append(["c", draw(PLAIN)])
        elif k == 4:
            res += [["c", c] for c in draw(st.sampled_from(LOOK)) if c not in '"\\']
        elif k == 5:
            res.append(["c", draw(HIGH)])
        elif k <= 7:
            res.append(["e", draw(ESCS)])
        else:
            h = "".join("%02x" % b for b in draw(HEX))
            res.append([draw(st.sampled_from("xxX")), h.upper() if draw(st.booleans()) else h])
    # an escape takes every pair of hex digits that follows
    out = []
    for p in res:
        if out and out[-1][0] in "xX" and (p[0] == "c" and p[1] in "0123456789abcdefABCDEF" or p[0] in "xX"):
            out.append(["c", "g"])
        out.append(p)
    while len(out) < least:
        out.append(["c", "k"])
    return out


CHARC = st.one_of(
    st.sampled_from([c for c in range(32, 127) if c not in (34, 39, 92)]).map(lambda v: ["n", v, "c"]),
    st.sampled_from([c for c in range(32, 127) if c not in (34, 39, 92)]).map(lambda v: ["n", v, "q"]),
    st.sampled_from([[34, "='\"'"], [39, "=\"'\""], [39, "='\\''"], [34, "='\\\"'"], [92, "='\\\\'"], [10, "='\\n'"],
                     [13, "='\\r'"], [9, "='\\t'"], [7, "='\\a'"], [8, "='\\b'"], [12, "='\\f'"], [11, "='\\v'"],
                     [92, '="\\\\"'], [34, '="\\""'], [10, '="\\n"'], [10, "='\\N'"], [9, '="\\T"'], [65, "='\\X41'"], [0xE4, "='\xe4'"]]).map(lambda t: ["n", t[0], t[1]]),
    st.integers(0, 255).map(lambda v: ["n", v, "='\\x%02x'" % v]),
)


@st.composite
def cases(draw):
    stm = []
    for _ in range(draw(st.integers(1, 5))):
        d = draw(st.sampled_from([".byte", ".db", ".word", ".dw", ".str", ".text", ".string", ".print", "?"]))
        pr = d in (".print", "?")
        items = []
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 4)) == 0:
                e = draw(CHARC)
                if draw(st.booleans()):
                    e = ["bin", draw(st.sampled_from(["&", "^", "|"])), e, draw(CHARC)]
                items.append(["e", e])
            else:
                items.append(["str", draw(strings(2 if pr else 0))])
        stm.append([draw(st.sampled_from(["top", "top", "for", "macro", "ifdef", "if"])), ["print" if pr else "data", d, items]])
    skipped = draw(strings()) if draw(st.integers(0, 3)) == 0 else None
    return {"st": stm, "skip": skipped, "lst": draw(st.booleans())}


def check(case, env):
    prog = [["var", [["vv", None]]], ["equ", "known", gen.n(1), "="]]
    if case["skip"] is not None:
        prog.append(["ifdef", False, "unknown", [["data", ".byte", [["str", case["skip"]]]]], None])
    prog.append(["org", gen.n(0x1000, "h")])
    for i, (c, s) in enumerate(case["st"]):
        if c == "top":
            prog.append(s)
        elif c == "for":
            prog.append(["for", "vv", gen.n(1), gen.n(2), None, [s]])
        elif c == "if":
            prog.append(["if", gen.n(1), [s], [["ins", "nop", "", None]]])
        elif c == "ifdef":
            prog.append(["ifdef", False, "known", [s], None])
        else:
            prog.append(["macro", "mm%d" % i, [s]])
            prog.append(["call", "mm%d" % i, []])
        prog.append(["label", "after%d" % i])
    prog.append(["data", ".word", [["e", ["s", "after%d" % i]] for i in range(len(case["st"]))]])
    ref = model.Ref(prog)
    files = model.render(prog)
    r = assemble(env, files, lst=case["lst"])
    if r.rc != 0:
        fail("a valid program was rejected", files, r)
    if r.out != ref.out:
        fail("wrong output\nexpected %s" % ref.out.hex(" "), files, r)
    want = b"".join(line + b"\n" for _, line in ref.printed)
    if want not in r.console:
        fail("console does not show %r" % want, files, r)
    txt = files["in.asm"]
    return {"nontrivial": "\\" in txt or "/" in txt or ";" in txt or any(ord(c) > 127 for c in txt),
            "labels": ["print"] if want else [], "sample": txt}
