"""C10: assembly-time loops equal their unrolled text."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import fail

RULE = ("a program of .for (any start, end and step, also negative, also empty), .while, .repeat and .do loops nested up "
        "to four deep with conditionals, macro calls and assignments in their bodies and with bounds that depend on "
        "variables, constants and outer loop variables and conditions of any value, also negative; compared with the reference assembler and with the program "
        "unrolled by hand. Non-trivial: a nested loop or a loop of more than three rounds")
BUDGET = {"quick": 7000, "thorough": 150000}
ASSUMPTIONS = ["a .while loop inside a .do loop is not expressible", "a .for whose body assigns its variable goes on from the value assigned",
               "start, end and step of a .for are evaluated when the loop starts"]


class Prog(gen.Program):
    def num(self):
        k = self.i(0, 7)
        v = self.pick([0, 1, 127, 128, 250, 255, 256, 300, 1000, 32767, 65530, 65535, 65536, 70000]) if k == 0 else self.i(0, 9)
        return -v if self.chance(5) else v

    def big(self, v):
        return self.lit(v) if v >= 0 else ["neg", self.lit(-v)]

    def k_for(self, depth, top, args):
        v = self.pick(self.freevars())
        a = self.num()
        step = self.pick([1, 1, 1, 2, 3, 5, 100, -1, -1, -2, -3, -100])
        rounds = self.pick([0, 1, 1, 2, 2, 3, 4, 20]) if depth > 1 and self.in_loop == 0 else self.pick([0, 1, 2, 2])
        e = a + step * (rounds - 1)
        if rounds and abs(step) > 1:
            e += self.i(0, abs(step) - 1) * (1 if step > 0 else -1)
        if rounds == 0:
            e = a - step * self.i(1, 3)
            if self.chance(3):
                e = a - (1 if step > 0 else -1)
        start, end = self.big(a), self.big(e)
        ov = [x for x in self.vars if x != v]
        if ov and self.chance(4):
            w = ["s", self.pick(ov)]
            start = w
            end = ["bin", "+" if step > 0 else "-", w, gen.n(abs(step) * max(rounds - 1, 0))]
        elif ov and self.chance(5) and step == 1:
            # as many rounds as the outer variable says
            start, end = gen.n(1), gen.mask(["s", self.pick(ov)], 3)
        s = None if step == 1 and self.chance(2) else self.big(step)
        if s is not None and self.chance(5):
            s = ["bin", "+", self.big(step), gen.n(0)]
        self.loopvars.append(v)
        self.in_loop += 1
        b = self.sub(depth, args)
        self.in_loop -= 1
        self.loopvars.pop()
        b.insert(self.i(0, len(b)), ["data", ".word", [["e", gen.mask(["s", v], 0xFFFF)]]])
        if self.chance(7):
            # the body moves the variable on
            b.insert(self.i(0, len(b)), ["set", v, ["bin", "+" if step > 0 else "-", ["s", v], gen.n(self.i(0, 3))]])
        res = [["for", v, start, end, s, b]]
        if self.chance(2):
            res.append(["data", ".word", [["e", gen.mask(["s", v], 0xFFFF)]]])
        return res

    def truth(self, c):
        """The condition, true as another value than 1."""
        k = self.i(0, 5)
        if k > 3:
            return c
        return ["bin", "*", c, [["neg", gen.n(1)], gen.n(256), ["neg", gen.n(256)], gen.n(65536)][k]] if k else ["neg", c]

    def counted(self, s):
        """A loop of the generator with a condition that is true as another value than 1, or the variable itself."""
        init, loop = s
        at = {"while": 1, "repeat": 2, "do": 2}[loop[0]]
        if loop[0] != "repeat" and self.chance(3):
            init = ["set", init[1], self.big(-self.i(1, 4))]
            loop[at] = ["s", init[1]]
        else:
            loop[at] = self.truth(loop[at])
        return [init, loop]

    def k_while(self, depth, top, args):
        return self.counted(super().k_while(depth, top, args))

    def k_repeat(self, depth, top, args):
        return self.counted(super().k_repeat(depth, top, args))

    def k_do(self, depth, top, args):
        return self.counted(super().k_do(depth, top, args))

    in_loop = 0


@st.composite
def cases(draw):
    g = Prog(draw, size=5, depth=4, nvars=4, nmacros=2, **{"for": 8, "while": 4, "repeat": 4, "do": 4, "if": 2, "ifdef": 0,
             "set": 2, "call": 2, "ins": 3, "data": 2, "section": 0, "label": 2, "local": 0, "equ": 0, "branch": 1, "fill": 1})
    return {"prog": g.program()}


class Trace(model.Ref):
    """Also notes the executed statements, loops written out."""

    inside = 0

    def note(self, s):
        if self.final and not self.inside:
            self.trace.append(s)

    def one_pass(self):
        self.trace = []
        self.rounds = 0
        model.Ref.one_pass(self)

    def stmt(self, s):
        if s[0] not in ("for", "while", "repeat", "do", "if"):
            self.note(s)
        model.Ref.stmt(self, s)

    def s_lst(self, s):
        self.inside += 1
        model.Ref.s_lst(self, s)
        self.inside -= 1

    def s_call(self, s):
        self.inside += 1
        model.Ref.s_call(self, s)
        self.inside -= 1

    def assign(self, n, v):
        self.note(["set", n, ["n", v, "d"] if v >= 0 else ["neg", ["n", -v, "d"]]])

    def s_for(self, s):
        v = self.varname(s[1])
        step = 1 if s[4] is None else self.known(s[4], ".step")
        self.vars[v] = self.known(s[2], ".for")
        end = self.known(s[3], ".to")
        if step == 0:
            raise model.Ambiguous("step 0")
        k = 0
        self.assign(s[1], self.vars[v])
        while (self.vars[v] <= end) if step > 0 else (self.vars[v] >= end):
            self.tick()
            k += 1
            self.block(s[5])
            self.vars[v] += step
            self.assign(s[1], self.vars[v])
        self.rounds = max(k, self.rounds)


def check(case, env):
    prog = case["prog"]
    try:
        ref = Trace(prog)
    except model.ModelError:
        common.judge(prog, env)
        return {"labels": ["invalid"]}
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    _, r = common.judge(prog, env, ref=ref)
    if len(ref.trace) < 1500:
        common.same(env, model.render(ref.trace), r, "the unrolled program")
    nested = any(s[0] in LOOPS and any(x[0] in LOOPS for x in common.walk([b for b in s if isinstance(b, list)][-1]
                 if s[0] in ("for", "while") else s[1])) for s in common.walk(prog))
    return {"nontrivial": nested or ref.rounds > 3, "labels": sorted(common.kinds(prog) & LOOPS) + (["nested"] if nested else []),
            "sample": r.source["in.asm"]}


LOOPS = frozenset(("for", "while", "repeat", "do"))
