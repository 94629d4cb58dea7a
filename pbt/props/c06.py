"""C06: branches reach their target at any distance."""
from hypothesis import strategies as st

from .. import isa, model
from ..asm import assemble, fail
from ..model import expr_text

RULE = ("a program of 2-40 branches (all conditions; bra in 65C02 mode) to ordinary, local and anonymous labels, "
        "label expressions and fixed addresses, inside sections, loops and macros, separated by fills sized so "
        "that many distances fall within a few bytes of the limits and relaxing one branch moves others out of "
        "range, in sources of up to 70 kB. The output is decoded item by item. Non-trivial: some branch is more than 100 bytes away")
BUDGET = {"quick": 12000, "thorough": 200000}
ASSUMPTIONS = ["a branch emitted in its long form although the final layout would (just) allow the short one is "
               "accepted when its target is more than 127 bytes after the short form's end in the final layout"]
INV = {"bpl": "bmi", "bvc": "bvs", "bcc": "bcs", "bne": "beq"}
INV.update({v: k for k, v in list(INV.items())})
COND = sorted(INV)
GAPS = st.one_of(st.integers(0, 12), st.integers(112, 136), st.sampled_from([120, 121, 122, 123, 124, 125, 126, 127, 128, 129]),
                 st.integers(0, 300))


@st.composite
def cases(draw):
    cpu = draw(st.sampled_from(["6502", "6502", "65c02"]))
    conds = COND + (["bra", "bra"] if cpu == "65c02" else [])
    nlab = draw(st.integers(1, 5))
    org = draw(st.sampled_from([0x0810, 0x1000, 0x12F0, 0xC000]))
    items = []
    pend = ["t%d" % k for k in range(nlab)]
    mode = draw(st.sampled_from(["mix", "mix", "dense", "pair"]))
    anon = 0

    def target():
        k = draw(st.integers(0, 9))
        name = "t%d" % draw(st.integers(0, nlab - 1))
        if k == 0:
            return ["bin", draw(st.sampled_from(["+", "-"])), ["s", name], ["n", draw(st.integers(0, 4)), "d"]]
        if k == 1:
            # near-limit offset from the instruction itself
            off = draw(st.one_of(st.integers(0, 10), st.integers(124, 132), st.integers(0, 200)))
            return ["bin", draw(st.sampled_from(["+", "-"])), ["pc"], ["n", off, "d"]]
        return ["s", name]

    def one(depth=1):
        k = draw(st.integers(0, 15 if mode != "dense" else 11))
        if k <= 6:
            return [["br", draw(st.sampled_from(conds)), target()]]
        if k == 7:
            return [["jmp", ["s", "t%d" % draw(st.integers(0, nlab - 1))]]]
        if k == 8 and pend and depth:
            return [["label", pend.pop(0)]]
        if k == 9:
            return [["mbr", draw(st.sampled_from(["m_" + c for c in conds])), target()]]
        if k == 10 and depth:
            body = [x for _ in range(draw(st.integers(1, 3))) for x in one(0) if x[0] not in ("label",)]
            return [["rep", draw(st.integers(1, 4)), body or [["fill", 1]]]]
        if k == 11:
            return [["fill", draw(st.integers(0, 3))]]
        return [["fill", draw(GAPS)]]

    if mode == "pair":
        # exact distances
        c = draw(st.sampled_from(conds))
        n = draw(st.integers(118, 132))
        pre, post = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        kind = draw(st.sampled_from(["t0", "t0", "@l", "anon", "fixed"]))
        mid = [["br", draw(st.sampled_from(conds)), ["s", "t1" if nlab > 1 else "t0"]] for _ in range(draw(st.integers(0, 3)))]
        cut = draw(st.integers(0, n))
        gap = [["fill", cut]] + mid + [["fill", n - cut]]
        back = draw(st.booleans())
        if kind != "fixed" and draw(st.integers(0, 3)) == 0:
            # the label may be at address 0
            org, pre = 0, draw(st.sampled_from([0, 0, 1]))
        if kind == "anon":
            t, lab = ["anon", "-" if back else "+"], ["anon", "-" if back else "+"]
        elif kind == "@l":
            t, lab = ["s", "@l"], ["label", "@l"]
        elif kind == "fixed":
            t, lab = ["bin", "-" if back else "+", ["pc"], ["n", n, "d"]], ["fill", 0]
        else:
            t, lab = ["s", "t0"], ["label", "t0"]
            pend = pend[1:]
        br = ["br", c, t]
        items = [["fill", pre]] + ([lab] + gap + [br] if back else [br] + gap + [lab]) + [["fill", post]]
        if kind in ("@l",):
            items = [["label", "base"]] + items
        for p in pend:
            items.insert(draw(st.sampled_from([0, len(items)])), ["label", p]) if kind not in ("@l", "anon") else items.append(["label", p])
        pend = []
    else:
        for _ in range(draw(st.integers(2, 30))):
            items += one()
    items += [["label", p] for p in pend]
    sect = draw(st.integers(0, 4)) == 0
    # comments between the statements make the source larger than the buffers it is read through
    pad = draw(st.sampled_from([0] * 15 + [5, 20, 40, 70])) if draw(st.integers(0, 1)) else 0
    return {"cpu": cpu, "org": org, "items": items, "sect": sect, "pad": pad}


def render(case):
    L = []
    conds = COND + (["bra"] if case["cpu"] == "65c02" else [])
    used = set()

    def scan(items):
        for x in items:
            if x[0] == "mbr":
                used.add(x[1])
            if x[0] == "rep":
                scan(x[2])
    scan(case["items"])
    for c in conds:
        if "m_" + c in used:
            L += ["        .macro m_" + c, "        %s \\1" % c, "        .endmacro"]
    L.append("        .var cnt")
    L.append("        .org $%x" % case["org"])
    labels = []

    def emit(items):
        for x in items:
            if x[0] == "label":
                L.append(x[1])
                if x[1][0] != "@":
                    labels.append(x[1])
            elif x[0] == "anon":
                L.append(x[1])
            elif x[0] == "br":
                L.append("        %s %s" % (x[1], model.operand_text(x[2])))
            elif x[0] == "mbr":
                L.append("        %s %s" % (x[1], expr_text(x[2])))
            elif x[0] == "jmp":
                L.append("        jmp " + expr_text(x[1]))
            elif x[0] == "fill":
                L.append("        .fill 1, %d" % x[1])
            elif x[0] == "rep":
                L.append("        .for cnt = 1 .to %d" % x[1])
                emit(x[2])
                L.append("        .next cnt")
    if case["sect"]:
        L.append("        .section code")
    emit(case["items"])
    if labels:
        L.append("        .word " + ", ".join(labels))
    if case["sect"]:
        L.append("        .endsection")
    if case.get("pad"):
        k = case["pad"] * 1024 // 64 // len(L) + 1
        L = [x for l in L for x in [l] + ["; " + "pad " * 15] * k]
    return "\n".join(L) + "\n", labels


def check(case, env):
    text, labels = render(case)
    args = ["-65c02"] if case["cpu"] == "65c02" else []
    files = {"in.asm": text}
    # fixed targets below zero or above 65535 cannot occur with these origins
    r = assemble(env, files, args)
    if r.rc != 0:
        fail("a valid program was rejected", files, r, args=args)
    out = r.out
    if out is None:
        out = b""
    pos = 0
    found = []          # (instruction address, size, target expression, displacement or None, absolute or None)
    addr = {}
    jumps = []
    base = case["org"]
    anon = {"+": [], "-": []}

    def need(k):
        if pos + k > len(out):
            fail("output ends early", files, r, args=args)

    def go(items):
        nonlocal pos
        for x in items:
            k = x[0]
            if k == "label":
                addr[x[1]] = base + pos
            elif k == "anon":
                anon[x[1]].append(base + pos)
            elif k == "fill":
                need(x[1])
                if out[pos:pos + x[1]] != b"\1" * x[1]:
                    fail("fill expected at offset %d" % pos, files, r, args=args)
                pos += x[1]
            elif k == "jmp":
                need(3)
                if out[pos] != 0x4C:
                    fail("jmp expected at offset %d" % pos, files, r, args=args)
                jumps.append((x[1], out[pos + 1] | out[pos + 2] << 8, base + pos))
                pos += 3
            elif k in ("br", "mbr"):
                c = x[1][-3:]
                code = isa.CMOS[c]["rel"]
                need(2)
                if out[pos] == code:
                    d = out[pos + 1]
                    d = d - 256 if d > 127 else d
                    found.append((base + pos, 2, x, base + pos + 2 + d))
                    pos += 2
                elif c == "bra" and out[pos] == 0x4C:
                    need(3)
                    found.append((base + pos, 3, x, out[pos + 1] | out[pos + 2] << 8))
                    pos += 3
                elif c != "bra" and out[pos] == isa.NMOS[INV[c]]["rel"] and out[pos + 1] == 3:
                    need(5)
                    if out[pos + 2] != 0x4C:
                        fail("long branch at offset %d" % pos, files, r, args=args)
                    found.append((base + pos, 5, x, out[pos + 3] | out[pos + 4] << 8))
                    pos += 5
                else:
                    fail("at offset %d: not a form of %s" % (pos, c), files, r, args=args)
            elif k == "rep":
                for _ in range(x[1]):
                    go(x[2])
    go(case["items"])
    table = out[pos:]
    if len(table) != 2 * len(labels):
        fail("%d bytes where the label table was expected" % len(table), files, r, args=args)
    for i, n in enumerate(labels):
        v = table[2 * i] | table[2 * i + 1] << 8
        if v != addr[n]:
            fail("label %s is $%04x, the statement after it is at $%04x" % (n, v, addr[n]), files, r, args=args)
    for e, v, at in jumps:
        if v != addr[e[1]]:
            fail("jmp at $%04x: $%04x, label is $%04x" % (at, v, addr[e[1]]), files, r, args=args)
    far = False
    long_ = 0
    for at, size, x, got in found:
        e = x[2]
        if e[0] == "anon":
            want = anon[e[1]][0]
        else:
            want = model.evaluate(e, addr.__getitem__, at)
        if got != want:
            fail("%s at $%04x goes to $%04x, target is $%04x" % (x[1], at, got, want), files, r, args=args)
        d = want - (at + 2)
        far = far or abs(d) > 100
        if size > 2:
            long_ += 1
            if -128 <= d <= 127:
                fail("%s at $%04x: target in range (%d), not emitted as a branch" % (x[1], at, d), files, r, args=args)
    return {"nontrivial": far, "labels": ["long" if long_ else "short"] + (["many long"] if long_ > 5 else []),
            "sample": text}
