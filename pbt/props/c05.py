"""C05: the output file is exactly the emitted bytes at their addresses."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import assemble, fail

RULE = ("a program mixing every emitting statement with .org/default origin, * =, .ds (followed by * = or by nothing; "
        "or, invalid, by code), .end followed by more statements, .c64/-c64; output compared byte for byte with the "
        "reference, whose addresses are also read back through .word label, .word *. Non-trivial: uses .ds, * =, "
        ".end, a header or is a misplaced reservation")
BUDGET = {"quick": 9000, "thorough": 150000}
ASSUMPTIONS = ["the header address is that of the first emitted byte"]
SIZES = st.one_of(st.integers(1, 9), st.integers(1, 300), st.integers(300, 16000))


@st.composite
def cases(draw):
    g = gen.Program(draw, size=10, pc=2, ds=1, fill=2, call=1, ifdef=0, section=1, local=1)
    prog = g.program()
    tail = ins = None
    kind = draw(st.sampled_from(["plain", "plain", "noorg", "ds-end", "ds-code", "end", "org2", "ds-pc"]))
    if kind == "noorg":
        prog = [s for s in prog if s[0] != "org"]
    elif kind == "ds-end":
        # a reservation at the end: nothing is emitted, labels count on
        prog = [s for s in prog if s[0] != "lst" or True]
        last = [["ds", gen.n(draw(SIZES))], ["label", "after"]]
        # a label after it is visible in earlier data
        k = next(i for i, s in enumerate(prog) if s[0] == "org")
        prog = prog[:k + 1] + [["data", ".word", [["e", ["s", "after"]]]]] + prog[k + 1:] + last
    elif kind in ("ds-code", "ds-pc"):
        k = draw(st.integers(0, len(prog)))
        k0 = next(i for i, s in enumerate(prog) if s[0] == "org") + 1
        k = max(k, k0)
        ins = [["ds", gen.n(draw(SIZES) if kind == "ds-pc" else draw(st.integers(1, 9)))]]
        if kind == "ds-pc":
            ins.append(["label", "held"])
            ins.append(["pc", gen.n(draw(st.one_of(st.integers(0x8000, 0x9000), st.integers(0x9000, 0xFF00))), "h")])
            ins.append(["lst", "moved", False, ["data", ".word", [["e", ["s", "moved"]], ["e", ["pc"]], ["e", ["s", "held"]]]]])
        else:
            ins.append(draw(st.sampled_from([["ins", "nop", "", None], ["ins", "lda", "v", gen.n(0x1234)],
                                             ["data", ".byte", [["e", gen.n(1)]]],
                                             ["data", ".str", [["str", gen.plain("ab")]]],
                                             ["fill", gen.n(1), gen.n(2)],
                                             ["ins", "bne", "v", ["bin", "+", ["pc"], gen.n(2)]]])))
        prog = prog[:k] + ins + prog[k:]
    elif kind == "org2":
        prog = prog + [["org", gen.n(draw(st.sampled_from([0x3000, 0x1000])), "h")], ["ins", "nop", "", None]]
    elif kind == "end":
        tail = [["end"]] + [draw(st.sampled_from([["ins", "nop", "", None], ["data", ".byte", [["e", gen.n(9)]]],
                                                  ["fill", gen.n(1), gen.n(5)], ["label", "beyond"],
                                                  ["equ", "k0", gen.n(7), "="], ["pc", gen.n(0x7000)],
                                                  ["ins", "lda", "v", ["s", "nowhere"]],
                                                  ["data", ".byte", [["e", gen.n(999)]]]]))
                            for _ in range(draw(st.integers(1, 3)))]
        prog = prog + tail
    if kind in ("plain", "ds-end", "ds-code", "ds-pc", "end") and draw(st.integers(0, 2)) == 0:
        # the origin given by *= instead of .org; sometimes nothing at all before the reservation
        prog = [["pc"] + s[1:] if s[0] == "org" else s for s in prog]
        if kind in ("ds-code", "ds-pc") and draw(st.booleans()):
            prog = [s for s in prog if s[0] == "pc"][:1] + ins + [["data", ".byte", [["e", gen.n(1)]]]]
    c64 = draw(st.sampled_from(["", "", "-c64", ".c64", "both"]))
    if c64 in (".c64", "both"):
        prog.insert(draw(st.integers(0, len(prog))) if kind != "end" else 0, ["dir", ".c64"])
    if draw(st.booleans()):
        k = draw(st.integers(0, len(prog) - 1))
        if kind in ("plain", "noorg"):
            prog.insert(k, ["data", ".word", [["e", ["pc"]]]])
    return {"prog": prog, "kind": kind, "c64": c64}


def check(case, env):
    args = ["-c64"] if case["c64"] in ("-c64", "both") else []
    ref, r = common.judge(case["prog"], env, args, sym=True, c64=bool(args))
    if r is None:
        return {"labels": ["discarded"]}
    ks = common.kinds(case["prog"])
    return {"nontrivial": bool(ks & {"ds", "pc", "end"}) or bool(case["c64"]) or ref is None,
            "labels": [case["kind"], "c64 " + case["c64"]] + (["rejected"] if ref is None else []),
            "sample": {"args": args, "source": r.source["in.asm"]}}
