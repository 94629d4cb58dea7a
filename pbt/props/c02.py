"""C02: CPU and undocumented-opcode gating."""
from hypothesis import strategies as st

from .. import isa, gen
from ..asm import assemble, fail

RULE = ("command line options (-i, -65c02 in any order) and a program of instructions and .illegal/.6502/.65c02 "
        "switches; plus the enumeration of every mnemonic and form in each of the three gating states. "
        "Non-trivial: contains a switch or option and an instruction that exists in one state only")
BUDGET = {"quick": 16000, "thorough": 300000}
ASSUMPTIONS = ["undocumented 6502 instructions in 65C02 mode are unspecified and not generated"]
SWITCH = [".illegal on", ".illegal off", ".6502 on", ".65c02 on", ".ILLEGAL  ON", ".6502on", ".65C02 ON", ".illegal\ton", ".illegal \toff",
          ".ILLEGAL\t\tOFF", ".illegaloff", ".illegalon", ".6502\ton", ".65c02 \ton", ".6502  ON"]
SPECIAL = sorted(isa.ILLEGAL) + isa.ONLY_CMOS + ["bit", "dec", "inc", "jmp", "lda", "ora", "cmp"]


def states():
    return [(c, i) for c in ("6502", "65c02") for i in (False, True)]


@st.composite
def cases(draw):
    opts = draw(st.lists(st.sampled_from(["-i", "-65c02", "/I", "-65C02", "-6502"]), max_size=2, unique_by=lambda o: o.lower()[1:]))
    if "-6502" in opts and len(opts) > 1:
        opts = ["-6502"]
    cpu, ill = option_state(opts)
    lines = []
    for _ in range(draw(st.integers(1, 9))):
        if draw(st.integers(0, 2)) == 0:
            s = draw(st.sampled_from(SWITCH))
            cpu, ill = apply(s, cpu, ill)
            lines.append(["sw", s])
            continue
        invalid = draw(st.integers(0, 24)) == 0
        tab = isa.table(cpu, ill)
        pool = [m for m in SPECIAL if invalid or m in tab]
        if draw(st.integers(0, 2)) == 0:
            pool = sorted(isa.NMOS)
        if cpu == "65c02":
            pool = [m for m in pool if m not in isa.ILLEGAL]
        m = draw(st.sampled_from(pool))
        forms = [f for f in isa.FORMS if isa.mode_exists(tab, m, f)]
        if invalid or not forms:
            forms = isa.FORMS
        f = draw(st.sampled_from(forms))
        v = draw(gen.VALUES)
        t = tab.get(m, {})
        if "rel" in t and f == "v":
            v = draw(st.integers(-100, 100))
        elif isa.mode_exists(tab, m, f) and f and isa.encode(tab, m, f, v, 0) is None:
            v &= 0xFF
        lines.append(["ins", m, f, v])
    return {"opts": opts, "lines": lines}


def option_state(opts):
    cpu, ill = "6502", False
    for o in opts:
        o = o.lower()[1:]
        if o == "i":
            ill = True
        elif o in ("6502", "65c02"):
            cpu = o
    return cpu, ill


def apply(s, cpu, ill):
    s = "".join(s.lower().split())
    if s == ".illegalon":
        ill = True
    elif s == ".illegaloff":
        ill = False
    else:
        cpu = s[1:-2]
    return cpu, ill


def enumerate_cases(tier):
    for m in isa.ALL_MNEMONICS:
        for f in isa.FORMS:
            for cpu, ill in states():
                if cpu == "65c02" and m in isa.ILLEGAL:
                    continue
                v = 0x34 if isa.encode(isa.table(cpu, ill), m, f, 0x1234, 0x1000) is None else 0x1234
                if f == "v" and "rel" in isa.table(cpu, ill).get(m, {}):
                    v = 5
                sw = [".65c02 on" if cpu == "65c02" else ".6502 on", ".illegal on" if ill else ".illegal off"]
                inverse = (["-65c02"] if cpu == "6502" else []) + ([] if ill else ["-i"])
                yield {"opts": inverse, "lines": [["sw", sw[0]], ["sw", sw[1]], ["ins", m, f, v]]}
                yield {"opts": (["-i"] if ill else []) + (["-65c02"] if cpu == "65c02" else []),
                       "lines": [["ins", m, f, v]]}


def check(case, env):
    cpu, ill = option_state(case["opts"])
    pc = 0x1000
    out = bytearray()
    reject = False
    src = ["        .org $1000"]
    labels = set()
    gated = False
    for ln in case["lines"]:
        if ln[0] == "sw":
            cpu, ill = apply(ln[1], cpu, ill)
            src.append("        " + ln[1])
            continue
        _, m, f, v = ln
        tab = isa.table(cpu, ill)
        exists = [s for s in states() if isa.mode_exists(isa.table(*s), m, f)]
        if len(exists) != 4:
            gated = True
        rel = f == "v" and "rel" in tab.get(m, {})
        src.append("        " + (m if f == "" else isa.FORM_TEXT[f] %
                                 (m, ("*+%d" % (v + 2) if v > -2 else "*-%d" % (-v - 2)) if rel else "$%x" % v)))
        if cpu == "65c02" and m in isa.ILLEGAL:
            return {"labels": ["unspecified"]}
        if not isa.mode_exists(tab, m, f):
            reject = True
            labels.add("rejected")
            continue
        b = bytes([tab[m]["rel"], v & 0xFF]) if rel else isa.encode(tab, m, f, v if f else None, pc)
        if b is None:
            return {"labels": ["out-of-range"]}
        labels.add("undocumented" if m in isa.ILLEGAL else "cmos-only" if len(exists) == 2 else "common")
        out += b
        pc += len(b)
    files = {"in.asm": "\n".join(src) + "\n"}
    r = assemble(env, files, case["opts"])
    if reject and r.rc == 0:
        fail("an instruction that is not available here was assembled", files, r, args=case["opts"])
    if not reject and (r.rc != 0 or r.out != bytes(out)):
        fail("expected " + bytes(out).hex(" "), files, r, args=case["opts"])
    return {"nontrivial": gated and (bool(case["opts"]) or any(l[0] == "sw" for l in case["lines"])),
            "labels": labels, "sample": {"opts": case["opts"], "source": files["in.asm"]}}
