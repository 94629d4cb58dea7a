"""C01: every instruction is encoded as the CPU's opcode for the mode it is written in."""
from hypothesis import strategies as st

from .. import isa, gen
from ..asm import assemble, fail
from ..model import expr_text

RULE = ("a program of 1-8 instructions (mnemonic, operand form, operand value, spelling as literal/expression/"
        "earlier/later symbol or the program counter, CPU); plus the enumeration of every mnemonic x form x boundary value x CPU. "
        "Non-trivial: at least one instruction with an operand, or a combination the CPU does not have")
BUDGET = {"quick": 24000, "thorough": 200000}
ASSUMPTIONS = ["BBRn/BBSn need two operands and are not expressible in the language; they are left out",
               "opcode tables in pbt/isa.py are the CPU data sheets'"]
EDGE = [0, 1, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x1FF, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]
SPELL = ["lit", "expr", "before", "after", "chain", "here"]


def mnems(cpu):
    return sorted(isa.table(cpu, False))


@st.composite
def cases(draw):
    cpu = draw(st.sampled_from(["6502", "65c02"]))
    tab = isa.table(cpu, False)
    if draw(st.integers(0, 5)) == 0:
        # one instruction that may not exist
        m = draw(st.sampled_from(isa.ALL_MNEMONICS if cpu == "6502" else mnems(cpu)))
        f = draw(st.sampled_from(isa.FORMS))
        v = draw(gen.VALUES)
        if f == "v" and "rel" in tab.get(m, ()):
            v = draw(st.integers(-128, 127))
        return {"cpu": cpu, "ins": [[m, f, v, draw(st.sampled_from(SPELL))]]}
    res = []
    for _ in range(draw(st.integers(1, 8))):
        m = draw(st.sampled_from(mnems(cpu)))
        forms = [f for f in isa.FORMS if isa.mode_exists(tab, m, f)]
        f = draw(st.sampled_from(forms))
        v = draw(gen.VALUES)
        if "rel" in tab[m]:
            v = draw(st.integers(-128, 127))
        elif isa.encode(tab, m, f, v, 0) is None:
            v &= 0xFF
        res.append([m, f, v, draw(st.sampled_from(SPELL))])
    return {"cpu": cpu, "ins": res}


def enumerate_cases(tier):
    for cpu in ("6502", "65c02"):
        tab = isa.table(cpu, False)
        for m in (isa.ALL_MNEMONICS if cpu == "6502" else mnems(cpu)):
            for f in isa.FORMS:
                if not isa.mode_exists(tab, m, f):
                    yield {"cpu": cpu, "ins": [[m, f, 0x12, "lit"]]}
                    yield {"cpu": cpu, "ins": [[m, f, 0x1234, "after"]]}
                    continue
                if f == "":
                    yield {"cpu": cpu, "ins": [[m, f, 0, "lit"]]}
                    continue
                if "rel" in tab[m]:
                    yield {"cpu": cpu, "ins": [[m, f, d, s] for d in (-128, -127, -2, 0, 1, 126, 127) for s in SPELL]}
                    continue
                ok = [v for v in EDGE if isa.encode(tab, m, f, v, 0) is not None]
                for s in SPELL:
                    yield {"cpu": cpu, "ins": [[m, f, v, s] for v in ok]}
                for v in EDGE:
                    if v not in ok:
                        yield {"cpu": cpu, "ins": [[m, f, v, SPELL[v % 5]]]}


def check(case, env):
    cpu, tab = case["cpu"], isa.table(case["cpu"], False)
    head, body, tail = [], [], []
    expected = bytearray()
    pc = 0x2000
    reject = False
    labels = []
    for n, (m, f, v, how) in enumerate(case["ins"]):
        if not isa.mode_exists(tab, m, f):
            reject = True
            labels.append("no-such-mode")
        rel = f == "v" and m in tab and "rel" in tab[m]
        if rel:
            b = bytes([tab[m]["rel"], v & 0xFF])
            text = "*" if v == -2 else "*+%d" % (v + 2) if v + 2 >= 0 else "*-%d" % (-v - 2)
            sval = pc + 2 + v
        else:
            mode = isa.mode_exists(tab, m, f)
            b = isa.encode(tab, m, f, v, pc) if mode else None
            if how == "here" and mode and f and isa.encode(tab, m, f, pc, pc) is not None:
                b = isa.encode(tab, m, f, pc, pc)       # the program counter itself
                v = pc
            if b is None:
                reject = True
                labels.append("out-of-range")
            sval = v
            text = {"lit": "$%x" % v, "expr": "%d+%d" % (v // 2, v - v // 2),
                    "here": "*" if v == pc else "$%x" % v}.get(how)
        if text is None or (rel and how not in ("lit", "expr", "here")):
            name = "sym%d" % n
            if how == "before":
                head.append("%s = $%x" % (name, sval))
                text = name
            elif how == "after":
                tail.append("%s = $%x" % (name, sval))
                text = name
            else:
                tail.append("%s = %sb" % (name, name))
                tail.append("%sb = $%x" % (name, sval))
                text = name
        labels += [f or "implied", how]
        body.append("        " + (isa.FORM_TEXT[f] % ((m,) if f == "" else (m, text))))
        if b is not None:
            expected += b
            pc += len(b)
    src = "\n".join(head + ["        .org $2000"] + body + tail) + "\n"
    files = {"in.asm": src}
    args = ["-65c02"] if cpu == "65c02" else []
    r = assemble(env, files, args)
    if reject:
        if r.rc == 0:
            fail("an instruction the CPU does not have, or an operand that does not fit, was assembled", files, r,
                 args=args)
    else:
        if r.rc != 0:
            fail("a valid program was rejected", files, r, args=args)
        if r.out != bytes(expected):
            fail("expected " + bytes(expected).hex(" "), files, r, args=args)
    return {"nontrivial": reject or any(f for _, f, _, _ in case["ins"]), "labels": set(labels), "sample": src}
