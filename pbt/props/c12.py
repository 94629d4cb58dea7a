"""C12: a macro call equals its body with the arguments substituted."""
from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import fail

RULE = ("up to five macros with 0-12 parameters (repeated, swapped or passed on to other macros, in operands, data, "
        "conditions and loop bounds) and local labels, called from the top level, loops, conditionals, sections and "
        "other macros with any argument expressions; compared with the reference assembler and with the program whose "
        "calls are replaced by the bodies. Non-trivial: a nested call, a call with two or more arguments or a macro "
        "with a local label called twice")
BUDGET = {"quick": 8000, "thorough": 150000}
ASSUMPTIONS = ["calls pass as many arguments as the macro uses", "macro bodies define no ordinary labels"]


class Prog(gen.Program):
    def macro_body(self, name, nargs):
        m = gen.Program.macro_body(self, name, nargs)
        b = m[2]
        for _ in range(self.i(0, 2)):
            k = self.i(0, 5)
            if nargs >= 2 and k == 0:
                d = ["data", ".word", [["e", ["arg", x]] for x in self.draw(st.permutations(range(1, nargs + 1)))]]
            elif nargs and k == 1:
                d = ["ins", self.pick(["lda", "sta", "ldx", "adc"]), "v", ["arg", self.i(1, nargs)]]
            elif nargs and k == 2:
                d = ["if", ["bin", self.pick(["==", "<", ">", "&", "&&", "||"]), ["arg", self.i(1, nargs)], ["arg", self.i(1, nargs)]],
                     [["data", ".word", [["e", ["arg", self.i(1, nargs)]]]]], self.pick([None, [["ins", "inx", "", None]]])]
                self.cond = True
            elif nargs and k == 3 and self.globalvars:
                d = ["for", self.pick(self.globalvars), gen.n(1), gen.mask(["arg", self.i(1, nargs)], 3), None,
                     [["data", ".byte", [["e", ["u", "<", ["arg", self.i(1, nargs)]]]]]]]
                self.cond = True
            elif k == 4 and self.macros:
                c = self.pick(sorted(self.macros))
                self.changed |= self.changes[c]
                if c in self.condmacros:
                    self.cond = True
                    args = [["arg", self.i(1, nargs)] if nargs and self.chance(2) else self.lit(self.i(0, 9))
                            for _ in range(self.macros[c])]
                else:
                    args = [["arg", self.i(1, nargs)] if nargs and self.chance(2) else self.word(nargs)
                            for _ in range(self.macros[c])]
                d = ["call", c, args]
            else:
                d = self.data(nargs)
            b.insert(self.i(0, len(b)), d)
        return m

    def k_call(self, depth, top, args):
        if args and self.inmacro:
            m = self.pick(sorted(self.macros))
            if m in self.condmacros and not self.changes[m] & set(self.loopvars):
                self.cond = True
                self.changed |= self.changes[m]
                return [["call", m, [["arg", self.i(1, args)] for _ in range(self.macros[m])]]]
        return gen.Program.k_call(self, depth, top, args)

    def setup(self):
        self.i_ = self.i
        head, tail = gen.Program.setup(self)
        return head, tail

    def i(self, a, b):
        # more parameters than the general programs have
        if (a, b) == (0, 3) and self.wide:
            self.wide = False
            return gen.Program.i(self, 0, 12)
        return gen.Program.i(self, a, b)

    wide = False


@st.composite
def cases(draw):
    g = Prog(draw, size=8, depth=3, nmacros=5, nvars=3, call=9, ins=3, data=2, local=2, section=2, label=3, ifdef=0,
             **{"if": 2, "for": 2, "while": 0, "repeat": 1, "do": 0})
    g.wide = draw(st.booleans())
    return {"prog": g.program()}


def subst(e, args, loc):
    if not isinstance(e, list):
        return e
    if e and e[0] == "arg":
        return ["n", args[e[1] - 1], "d"]
    if e and e[0] == "s" and e[1].startswith("@") and loc:
        return ["s", e[1] + loc]
    if e and e[0] in ("n", "str", "pc", "anon"):
        return e
    return [subst(x, args, loc) for x in e]


class Inline(model.Ref):
    """Notes the statements executed, calls and loops written out, with the values of the arguments."""

    def one_pass(self):
        self.trace = []
        self.hold = 0
        self.locs = [""]
        self.ncalls = 0
        model.Ref.one_pass(self)

    def note(self, s):
        if self.final and not self.hold:
            self.trace.append(s)

    def stmt(self, s):
        k = s[0]
        if k in ("ins", "data", "fill", "set", "print"):
            a = self.args[-1] if self.args else ()
            self.note(subst(s, a, self.locs[-1]))
        elif k == "label" and s[1].startswith("@"):
            self.note(["label", s[1] + self.locs[-1]])
        elif k == "section":
            self.note(["open", s[1]])
        elif k not in ("if", "ifdef", "for", "while", "repeat", "do", "call", "macro"):
            self.note(s)
        model.Ref.stmt(self, s)
        if k == "section":
            self.note(["close"])

    def s_lst(self, s):
        self.hold += 1
        model.Ref.s_lst(self, s)
        self.hold -= 1

    def s_call(self, s):
        self.ncalls += 1
        self.locs.append("_%d" % self.ncalls)
        model.Ref.s_call(self, s)
        self.locs.pop()

    def s_for(self, s):
        v = self.varname(s[1])
        if v is None:
            raise model.ModelError("loop variable")
        step = 1 if s[4] is None else self.known(s[4], ".step")
        self.vars[v] = self.known(s[2], ".for")
        end = self.known(s[3], ".to")
        self.note(["set", s[1], self.num(self.vars[v])])
        while (self.vars[v] <= end) if step > 0 else (self.vars[v] >= end):
            self.tick()
            self.block(s[5])
            self.vars[v] += step
            self.note(["set", s[1], self.num(self.vars[v])])

    @staticmethod
    def num(v):
        return ["n", v, "d"] if v >= 0 else ["neg", ["n", -v, "d"]]


def nest(flat):
    """The open and close marks as section statements."""
    top = []
    stack = [top]
    for s in flat:
        if s[0] == "open":
            b = []
            stack[-1].append(["section", s[1], b])
            stack.append(b)
        elif s[0] == "close":
            stack.pop()
        else:
            stack[-1].append(s)
    return top


def enumerate_cases(tier):
    """Enough macros, or arguments, to make the tables grow."""
    for n in (935,) if tier == "quick" else (905, 925, 1900):
        yield {"many": n, "args": 0}
    for n in (40,) if tier == "quick" else (9, 10, 99, 300, 950):
        yield {"many": n, "args": n}


def many(n, nargs):
    prog = [["org", gen.n(0x1000, "h")]]
    if nargs:
        prog.append(["macro", "mm", [["data", ".word", [["e", ["arg", k]]]] for k in range(1, n + 1)]])
        for j in range(3):
            prog.append(["call", "mm", [gen.n((k * 31 + j) & 0xFFFF) for k in range(n)]])
        return prog
    for k in range(n):
        prog.append(["macro", "mac%dx" % k, [["data", ".word", [["e", ["bin", "+", ["arg", 1], gen.n(k)]]]]]])
    for k in range(n):
        prog.append(["call", "mac%dx" % ((k * 7) % n), [gen.n(k)]])
    return prog


def check(case, env):
    prog = many(case["many"], case["args"]) if "many" in case else case["prog"]
    try:
        ref = Inline(prog)
    except model.ModelError:
        common.judge(prog, env)
        return {"labels": ["invalid"]}
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    _, r = common.judge(prog, env, ref=ref)
    lab = []
    if len(ref.trace) < 1500:
        files = model.render(nest(ref.trace))
        lab.append("inlined")
        common.same(env, files, r, "the calls replaced by their bodies")
    calls = {}
    for s in common.walk(prog):
        if s[0] == "call":
            calls[s[1]] = calls.get(s[1], 0) + 1
    nt = False
    for s in prog:
        if s[0] == "macro":
            inner = list(common.walk(s[2]))
            if any(x[0] == "call" for x in inner) and s[1] in calls:
                nt = True
                lab.append("nested")
            if any(x[0] == "label" for x in inner) and calls.get(s[1], 0) > 1:
                nt = True
                lab.append("local twice")
    if any(s[0] == "call" and len(s[2]) > 1 for s in common.walk(prog)):
        nt = True
    return {"nontrivial": nt, "labels": sorted(set(lab)), "sample": r.source["in.asm"]}
