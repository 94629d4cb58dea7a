"""C03: expressions."""
from hypothesis import strategies as st

from .. import gen, model
from ..asm import assemble, fail

RULE = ("1-4 generated expression trees (all literal forms, symbols defined before and after, *, every operator, "
        "minimal or redundant parentheses) each used in one context (.byte .word equate operand .if .for .while "
        ".fill macro argument variable .org). Non-trivial: some expression has at least two operators, or a "
        "character literal")
BUDGET = {"quick": 16000, "thorough": 400000}
ASSUMPTIONS = ["expressions that overflow 32 bits, shift by other than 0..31 or shift a negative value left are "
               "outside the domain", "leading zeros in decimal literals are not generated"]
LITS = [["n", 10, "='\\n'"], ["n", 13, "='\\r'"], ["n", 9, "='\\t'"], ["n", 92, "='\\\\'"], ["n", 39, "='\\''"],
        ["n", 0x41, "='\\x41'"], ["n", 0x41, "='\\101'"], ["n", 63, "='\\077'"], ["n", 0, "=$0"], ["n", 0, "=%0"],
        ["n", 10, '="\\n"'], ["n", 0x7fff, "=$7FfF"], ["n", 255, "=%11111111"], ["n", 7, "=$00007"],
        ["n", 32, "=' '"], ["n", 59, "=';'"], ["n", 47, "='/'"], ["n", 44, '=","'], ["n", 40, "='('"]]
BIG = st.sampled_from([65536, 65537, 0x10000 * 255, 99999, 0x7FFFFFFF, 0x12345678, 0x80000 - 1])
CTX = ["split", "split", "byte", "word", "str", "equ", "imm", "abs", "if", "else", "for", "while", "fill", "macro",
       "var", "org", "cond2"]
NAMES = ["aa", "bb_1", "Zed.q", "_u"]


@st.composite
def cases(draw):
    syms = {n: draw(gen.VALUES) for n in NAMES[:draw(st.integers(1, 4))]}
    after = draw(st.integers(0, 1))
    values = st.one_of(gen.VALUES, gen.BYTE_VALUES, st.integers(0, 12), st.integers(0, 4), BIG)
    usep = draw(st.booleans())
    e0 = gen.exprs(list(syms), values, max_leaves=draw(st.sampled_from([2, 4, 7, 12])), pc=usep)
    e = st.one_of(e0, e0, e0, st.tuples(st.sampled_from(model.BINOPS), e0, st.sampled_from(LITS)).map(
        lambda t: ["bin", t[0], t[1], t[2]]))
    uses = []
    for _ in range(draw(st.integers(1, 4))):
        x = gen.fix(draw(e), syms)
        uses.append([draw(st.sampled_from(CTX)), x])
    return {"syms": syms, "after": after, "uses": uses}


def n(v):
    return ["n", v, "d"]


def build(case):
    """Program AST. Contexts whose range the value would not fit use a masked form."""
    defs = [["equ", k, n(v), "="] for k, v in case["syms"].items()]
    early = not case["after"]
    syms = case["syms"]
    prog = [["org", ["n", 0x1000, "h"]]]
    macros = []
    tail = []
    lab = []
    has_pc = [False]

    def mask(e, m):
        return ["bin", "&", e, ["n", m, "h"]]

    pc = 0x1000
    for i, (ctx, e) in enumerate(case["uses"]):
        try:
            v = gen.value(e, syms, None)
        except (model.ModelError, model.Ambiguous):
            v = None
        lab.append(ctx)
        known_early = early or not (model.names_in(e))
        if ctx in ("if", "else", "cond2", "for", "while", "fill", "org", "var") and not known_early:
            ctx = "split"
        if ctx == "split" or v is None and ctx in ("equ", "org"):
            prog.append(["data", ".word", [["e", mask(e, 0xFFFF)],
                                           ["e", mask(["bin", ">>", e, n(16)], 0xFFFF)]]])
        elif ctx == "byte":
            x = e if v is not None and -254 <= v <= 255 else mask(e, 0xFF)
            prog.append(["data", ".byte", [["e", x], ["e", ["u", "<", e]]]])
        elif ctx == "word":
            x = e if v is not None and -65534 <= v <= 65535 else ["u", ">", e]
            prog.append(["data", ".word", [["e", x]]])
        elif ctx == "str":
            x = e if v is not None and 0 <= v <= 65535 else mask(e, 0xFFFF)
            prog.append(["data", ".str", [["e", x]]])
        elif ctx == "equ":
            x = e if 0 <= v <= 65535 else mask(e, 0xFFFF)
            tail.append(["equ", "eq%d" % i, x, "="])
            prog.append(["data", ".word", [["e", ["s", "eq%d" % i]]]])
        elif ctx == "imm":
            x = e if v is not None and -254 <= v <= 255 else ["u", "<", e]
            prog.append(["ins", "lda", "#", x])
        elif ctx == "abs":
            x = e if v is not None and 0 <= v <= 65535 else mask(e, 0xFFFF)
            prog.append(["ins", "lda", "v", x])
            prog.append(["ins", "sta", "v,x", ["bin", "|", ["n", 0x100, "d"], mask(e, 0xFFFF)]])
        elif ctx == "if":
            prog.append(["if", e, [["data", ".byte", [["e", n(1)]]]], [["data", ".byte", [["e", n(2)]]]]])
        elif ctx == "else":
            prog.append(["if", ["u", "not", e], [["data", ".byte", [["e", n(1)]]]], None])
        elif ctx == "cond2":
            prog.append(["if", ["bin", "==", ["par", e], n(max(0, v or 0))],
                         [["data", ".byte", [["e", n(7)]]]], [["data", ".byte", [["e", n(8)]]]]])
        elif ctx == "for":
            prog.append(["var", [["vv%d" % i, None]]])
            prog.append(["for", "vv%d" % i, n(0), mask(e, 7), None, [["data", ".byte", [["e", ["s", "vv%d" % i]]]]]])
        elif ctx == "while":
            prog.append(["var", [["vw%d" % i, mask(e, 15)]]])
            prog.append(["while", ["s", "vw%d" % i], [["data", ".byte", [["e", ["s", "vw%d" % i]]]],
                                                      ["set", "vw%d" % i, ["bin", ">>", ["s", "vw%d" % i], n(1)]]]])
        elif ctx == "fill":
            prog.append(["fill", mask(e, 255), ["bin", "+", mask(e, 15), n(1)]])
        elif ctx == "macro":
            macros.append(["macro", "mm%d" % i, [["data", ".word", [["e", mask(["arg", 1], 0xFFFF)],
                                                                    ["e", mask(["bin", ">>", ["arg", 1], n(16)], 0xFFFF)
                                                                     ]]]]])
            # a macro parameter holds 16 bits
            prog.append(["call", "mm%d" % i, [e if v is not None and 0 <= v <= 65535 else mask(e, 0xFFFF)]])
        elif ctx == "var":
            prog.append(["var", [["va%d" % i, e]]])
            prog.append(["data", ".word", [["e", mask(["s", "va%d" % i], 0xFFFF)],
                                           ["e", mask(["bin", ">>", ["s", "va%d" % i], n(16)], 0xFFFF)]]])
        elif ctx == "org":
            prog.append(["pc", ["bin", "+", mask(e, 0x7FF), ["n", 0x4000, "h"]]])
            prog.append(["lst", "lb%d" % i, False, ["ins", "jmp", "v", ["s", "lb%d" % i]]])
    return macros + (defs if early else []) + prog + tail + ([] if early else defs), lab


def depth(e):
    c = 1 if e[0] in ("bin", "u", "neg") else 0
    return c + sum(depth(x) for x in e[1:] if isinstance(x, list))


def check(case, env):
    prog, lab = build(case)
    try:
        ref = model.Ref(prog)
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    except model.ModelError:
        ref = None
    files = model.render(prog)
    r = assemble(env, files)
    if ref is None:
        if r.rc == 0:
            fail("a division by zero was accepted", files, r)
        return {"nontrivial": True, "labels": ["division by zero"], "sample": files["in.asm"]}
    if r.rc != 0:
        fail("a valid program was rejected", files, r)
    if r.out != ref.out:
        fail("expected " + ref.out.hex(" "), files, r)
    deep = [e for _, e in case["uses"] if depth(e) >= 2]
    return {"nontrivial": bool(deep), "labels": set(lab), "sample": files["in.asm"]}
