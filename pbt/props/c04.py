"""C04: labels and equates resolve to their final values wherever they are referenced."""
from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import fail

RULE = ("a program rich in labels, equate chains in any order (forward, backward, through labels; "
        "up to eleven links, each before the next) and references in "
        "operands, data and expressions; checked against the reference assembler, then again with the constant "
        "equates moved and with every symbol renamed, also to names of up to 300 characters that begin alike. Non-trivial: an equate chain of length two or more, or a "
        "forward reference to a label")
BUDGET = {"quick": 7000, "thorough": 150000}
ASSUMPTIONS = ["an operand's size is not made to depend on itself (programs with several consistent layouts)"]
RESERVED = {m.lower() for m in isa.ALL_MNEMONICS} | {"a", "x", "y"}
NAME = st.from_regex(r"[a-zA-Z_][a-zA-Z0-9_]{1,11}", fullmatch=True).filter(
    lambda s: s.lower() not in RESERVED and s.lower() != "not")


@st.composite
def cases(draw):
    g = gen.Program(draw, size=10, label=6, ins=5, data=4, equ=2, branch=1, section=2, call=1, local=2, set=1,
                    **{"for": 1, "while": 0, "repeat": 0, "do": 0, "if": 1, "ifdef": 0, "fill": 1})
    prog = g.program()
    labels = list(g.planned)
    consts = sorted(g.early) + sorted(g.late)
    chain = []
    deep = draw(st.integers(0, 4)) == 0
    for k in range(draw(st.integers(6, 11) if deep else st.integers(0, 5))):
        pool = [["s", x] for x in labels + consts] + [["s", "q%d" % j] for j in range(k)]
        if deep and k:
            pool = [["s", "q%d" % (k - 1)]]
        base = draw(st.sampled_from(pool)) if pool else gen.n(draw(st.integers(1, 999)))
        off = draw(st.integers(0, 5))
        e = draw(st.sampled_from([base, ["bin", "+", base, gen.n(off)], ["bin", "&", base, gen.n(0x7FFF, "h")],
                                  ["bin", "|", base, gen.n(off)], ["u", ">", base]]))
        chain.append(["equ", "q%d" % k, e, draw(st.sampled_from(["=", ".equ"]))])
    at = len(prog)
    for eq in chain:
        at = draw(st.integers(0, at if deep else len(prog)))    # deep: each before the one it refers to
        prog.insert(at, eq)
    if chain:
        prog.append(["data", ".word", [["e", ["s", c[1]]] for c in chain]])
        # and references from the start of the program
        prog.insert(draw(st.integers(0, min(2, len(prog)))),
                    ["data", ".word", [["e", ["s", c[1]]] for c in draw(st.permutations(chain))]])
        if draw(st.integers(0, 2)) == 0:
            # a length that takes a pass per link to become known, then labels
            size = ["fill", gen.n(0), ["bin", "&", ["s", "q%d" % (len(chain) - 1)], gen.n(7)]]
            pm = draw(st.sampled_from("+-"))
            lab, ref = [["anon", pm, None]], [["data", ".word", [["e", ["anon", pm]]]], ["ins", "jmp", "v", ["anon", pm]]]
            keep = [["data", ".word", [["e", ["s", "shifted"]]]], size]
            prog += keep + [["lst", "shifted", False, ["ins", "nop", "", None]]] + (lab + ref if pm == "-" else ref + lab) + \
                [["ins", "rts", "", None]]
    moves = [draw(st.integers(0, 1000)) for _ in range(4)]
    ren = draw(st.lists(NAME, min_size=8, max_size=24, unique_by=str.lower)) if draw(st.booleans()) else []
    if ren and draw(st.integers(0, 3)) == 0:
        # long names that begin alike
        k = draw(st.sampled_from([7, 8, 15, 16, 30, 31, 32, 33, 63, 64, 79, 80, 100, 127, 128, 129, 200, 254, 255, 256, 300]))
        ren = [draw(st.sampled_from("qQ")) * k + x for x in ren]
    return {"prog": prog, "late": sorted(g.late), "moves": moves, "names": ren, "n": len(chain)}


def check(case, env):
    prog = case["prog"]
    ref, r = common.judge(prog, env, sym=True)
    if r is None:
        return {"labels": ["discarded"]}
    if ref is None:
        return {"labels": ["invalid"]}
    lab = []
    syms = common.parse_symbols(r.sym or b"")
    for name, v in syms or ():
        if name.lower() in ref.symbols and ref.symbols[name.lower()] != v:
            fail("symbol file: %s is $%04X, not $%04X" % (name, v, ref.symbols[name.lower()]), r.source, r)
    # the constant equates at other places
    eqs = [s for s in prog if s[0] == "equ" and s[1] in case["late"]]
    if eqs:
        lab.append("moved")
        rest = [s for s in prog if s not in eqs]
        for k, s in enumerate(eqs):
            rest.insert(case["moves"][k % 4] % (len(rest) + 1), s)
        common.same(env, model.render(rest), r, "constant equates moved")
    if case["names"]:
        lab.append("renamed")
        old = sorted(common.names(prog))
        new = [x for x in case["names"] if x.lower() not in old]
        m = dict(zip(old, new))
        common.same(env, model.render(common.rename(prog, m)), r, "symbols renamed")
    fwd = case["n"] > 1 or "label" in common.kinds(prog)
    return {"nontrivial": fwd, "labels": lab, "sample": r.source["in.asm"]}
