"""C11: register loops execute their body once per value."""
from hypothesis import strategies as st

from .. import gen, model
from ..asm import assemble, fail
from ..sim6502 import Cpu, Stop

RULE = ("1-3 register loops (either register, up or down, X in Y and Y in X, boundaries 0, 1, 127, 128, 254, 255, empty "
        "ranges, bounds as symbols or expressions, bodies of up to 300 bytes, with calls, conditionals and assembly-time "
        "loops that change flags and A); the output is executed by a 6502 interpreter and the values of the register "
        "seen by the body are compared with the range. Also invalid nestings and bounds, which must be rejected. "
        "Non-trivial: nested loops, a range of more than one value or an invalid loop")
BUDGET = {"quick": 9000, "thorough": 150000}
ASSUMPTIONS = ["the body preserves the loop registers"]
EDGE = [0, 1, 2, 3, 126, 127, 128, 129, 253, 254, 255]


@st.composite
def cases(draw):
    equs = []
    count = [0]

    def bound(v):
        k = draw(st.integers(0, 5))
        if k == 2 and v >= -9:
            name = "b%d" % len(equs)
            d = draw(st.integers(0, 9)) - v * (v < 0)
            equs.append([name, v + d, draw(st.booleans())])
            return ["bin", "-", ["s", name], gen.n(d)]
        if k == 0 and v >= 0:
            name = "b%d" % len(equs)
            equs.append([name, v, draw(st.integers(0, 3)) > 0])
            return ["s", name]
        if k == 1:
            d = draw(st.integers(0, 20))
            return ["bin", "-", gen.n(v + d), gen.n(d)] if v + d >= 0 else ["neg", gen.n(-v)]
        return ["n", v, draw(gen.FMTS)] if v >= 0 else ["neg", gen.n(-v)]

    def mark():
        count[0] += 1
        return ["ins", draw(st.sampled_from(["sta", "stx", "sty"])), "v", gen.n(0xF000 + count[0], "h")]

    def flags():
        return draw(st.sampled_from([["ins", "sec", "", None], ["ins", "clc", "", None], ["ins", "lda", "#", gen.n(0)],
                                     ["ins", "lda", "#", gen.n(0x80)], ["ins", "cmp", "#", gen.n(5)],
                                     ["ins", "adc", "#", gen.n(0x7F)], ["ins", "nop", "", None], ["ins", "txa", "", None],
                                     ["ins", "tya", "", None], ["ins", "inc", "v", gen.n(0x10)], ["ins", "bit", "v", gen.n(0x10)],
                                     ["ins", "jsr", "v", ["s", "sub"]]]))

    def body(active, depth):
        res = [mark()]
        for _ in range(draw(st.integers(0, 3))):
            res.insert(draw(st.integers(0, len(res))), flags())
        k = draw(st.integers(0, 11))
        if k == 0:
            res.append(["fill", gen.n(0xEA), gen.n(draw(st.integers(100, 300)))])
        elif k == 1:
            n = draw(st.integers(110, 130))
            res.append(["fill", gen.n(0xEA), gen.n(n)])
        elif k == 2:
            res.append(["if", gen.n(draw(st.integers(0, 1))), [mark()], [["ins", "clc", "", None]]])
        elif k == 3:
            res.append(["for", "vv", gen.n(1), gen.n(draw(st.integers(1, 3))), None, [mark()]])
        elif k == 4:
            res.append(["call", "touch", []])
        if depth and len(active) < 2 and draw(st.integers(0, 2)) == 0:
            res.insert(draw(st.integers(0, len(res))), loop(active, depth - 1, True))
        return res

    def loop(active, depth, small=False):
        reg = draw(st.sampled_from([r for r in "xy" if r not in active]))
        up = draw(st.booleans())
        k = draw(st.integers(0, 5))
        edge = st.one_of(st.sampled_from(EDGE), st.integers(0, 255))
        if small:
            a = draw(edge)
            n = draw(st.integers(0, 3))
            b = min(255, a + n) if up else max(0, a - n)
        else:
            a, b = draw(edge), draw(edge)
            if k and (a > b) == up:
                a, b = b, a
        if not up and b == 0 and draw(st.integers(0, 9)) != 0:
            b = 1
            a = max(a, 1)
        if depth and not small and abs(a - b) > 30 and draw(st.booleans()):
            a = b + 3 if not up and b < 250 else a
        return ["reg", reg, bound(a), bound(b), "to" if up else "downto", body(active + [reg], depth)]

    kind = draw(st.sampled_from(["ok"] * 8 + ["nest", "bound"]))
    stm = [loop([], 1) for _ in range(draw(st.integers(1, 3)))]
    if kind == "nest":
        reg = draw(st.sampled_from("xy"))
        bad = ["reg", reg, gen.n(1), gen.n(3), draw(st.sampled_from(["to", "to", "downto"])), [mark()]]
        if bad[4] == "downto":
            bad[2], bad[3] = bad[3], bad[2]
        other = "y" if reg == "x" else "x"
        w = draw(st.integers(0, 3))
        if w == 0:
            inner = [mark(), bad]
        elif w == 1:
            inner = [["reg", other, gen.n(1), gen.n(2), "to", [bad]]]
        elif w == 2:
            inner = [["if", gen.n(1), [bad], None]]
        else:
            inner = [["reg", other, gen.n(1), gen.n(2), "to", [mark()]], bad]
        stm.insert(draw(st.integers(0, len(stm))), ["reg", reg, gen.n(1), gen.n(2), "to", inner])
    elif kind == "bound":
        bads = st.one_of(st.sampled_from([256, 257, 300, 511, 65535, -1, -2, -128, -255, -256]), st.integers(256, 70000))
        l = loop([], 0)
        w = draw(st.integers(0, 2))
        up = l[4] == "to"
        v = draw(bads)
        # a non-empty range with one bad end
        if v < 0:
            l[2 if up else 3] = ["neg", gen.n(-v)]
            l[3 if up else 2] = gen.n(draw(st.integers(0, 255)))
        else:
            l[3 if up else 2] = gen.n(v)
            l[2 if up else 3] = gen.n(draw(st.integers(0, 255)))
        stm.insert(draw(st.integers(0, len(stm))), l)
    return {"st": stm, "equs": equs, "kind": kind}


class Expect:
    """What the program does: the sequence of stores at $F000 and above with the loop registers."""

    def __init__(self, syms):
        self.syms = syms
        self.x = self.y = None
        self.log = []
        self.downto0 = False
        self.size = 0

    def ev(self, e):
        return model.evaluate(e, self.syms.__getitem__)

    def block(self, body):
        for s in body:
            k = s[0]
            if k == "ins" and s[2] == "v" and s[3][0] == "n" and s[3][1] >= 0xF000:
                self.log.append((s[3][1], self.x, self.y))
            elif k == "reg":
                a, b = self.ev(s[2]), self.ev(s[3])
                r = range(a, b + 1) if s[4] == "to" else range(a, b - 1, -1)
                if s[4] != "to" and b == 0 and len(r) > 1:
                    self.downto0 = True
                keep = getattr(self, s[1])
                for v in r:
                    setattr(self, s[1], v)
                    self.block(s[5])
                if len(r):
                    setattr(self, s[1], None)
            elif k == "if":
                self.block(s[2] if self.ev(s[1]) else s[3] or [])
            elif k == "for":
                for _ in range(s[2][1], s[3][1] + 1):
                    self.block(s[5])
            elif k == "call":
                self.log.append((0xFF00, self.x, self.y))
        if len(self.log) > 60000:
            raise model.Ambiguous("too long")


class Known(model.Ref):
    """Emits what the assembler is known to emit for .downto 0."""

    def s_reg(self, s):
        a, b = self.known(s[2], "reg"), self.known(s[3], "reg")
        if s[4] == "downto" and b == 0 and 0 < a <= 255:
            x = s[1] == "x"
            self.emit(bytes([0xA2 if x else 0xA0, a]), s)
            top = self.pc
            self.block(s[5])
            self.emit(bytes([0xCA if x else 0x88]), s)
            self.branch(s, 0xB0, top)
        else:
            model.Ref.s_reg(self, s)


def program(case):
    prog = [["var", [["vv", None]]], ["macro", "touch", [["ins", "sta", "v", gen.n(0xFF00, "h")], ["ins", "sec", "", None]]]]
    prog += [["equ", n, gen.n(v), "="] for n, v, before in case["equs"] if before]
    prog.append(["org", gen.n(0x1000, "h")])
    prog.append(["ins", "jmp", "v", ["s", "start"]])
    prog.append(["lst", "sub", False, ["ins", "sec", "", None]])
    prog.append(["ins", "rts", "", None])
    prog.append(["label", "start"])
    prog += case["st"]
    prog.append(["lst", "done", False, ["data", ".word", [["e", ["s", "done"]]]]])
    prog += [["equ", n, gen.n(v), "="] for n, v, before in case["equs"] if not before]
    return prog


def check(case, env):
    prog = program(case)
    files = model.render(prog)
    syms = {n: v for n, v, _ in case["equs"]}
    r = assemble(env, files)
    if case["kind"] != "ok":
        if r.rc == 0:
            fail("an invalid register loop (%s) was accepted" % case["kind"], files, r)
        return {"nontrivial": True, "labels": ["rejected " + case["kind"]], "sample": files["in.asm"]}
    ex = Expect(syms)
    try:
        ex.block(case["st"])
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    if r.rc != 0:
        fail("a valid program was rejected", files, r)
    out = r.out
    mem = bytearray(65536)
    mem[0x1000:0x1000 + len(out)] = out
    done = mem[0x1000 + len(out) - 2] | mem[0x1000 + len(out) - 1] << 8

    def bad(msg):
        if ex.downto0:
            try:
                k = Known(prog)
            except (model.ModelError, model.Ambiguous):
                k = None
            if k is not None and k.out == out:
                fail("a loop .downto 0: " + msg, files, r, "downto-0")
        fail(msg, files, r)

    if done != 0x1000 + len(out) - 2:
        bad("the label after the loops is $%04x, not $%04x" % (done, 0x1000 + len(out) - 2))
    cpu = Cpu(mem, 0x1000)
    try:
        cpu.run(done, 40000 + 60 * len(ex.log) + 400 * len(ex.log) * (len(out) > 100))
    except Stop as e:
        bad("running it: %s after %d of %d body executions" % (e, len(cpu.log), len(ex.log)))
    if len(cpu.log) != len(ex.log):
        bad("%d marks executed instead of %d" % (len(cpu.log), len(ex.log)))
    for i, ((a, v, x, y), (a2, x2, y2)) in enumerate(zip(cpu.log, ex.log)):
        if a != a2 or x2 is not None and x != x2 or y2 is not None and y != y2:
            bad("mark %d: $%04x x=%d y=%d instead of $%04x x=%s y=%s" % (i, a, x, y, a2, x2, y2))
    # a loop over nothing emits nothing
    sizes = 0
    if not ex.log and not any(s[0] != "reg" for s in case["st"]) and len(out) != 7:
        bad("an empty loop emitted something")
    nested = any(any(x[0] == "reg" for x in s[5]) for s in case["st"])
    return {"nontrivial": nested or len(ex.log) > 1, "labels": (["nested"] if nested else []) + (["empty"] if not ex.log else []) +
            (["downto 0"] if ex.downto0 else []), "sample": files["in.asm"]}
