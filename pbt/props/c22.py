"""C22: assembly-time variables are sequential."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import fail

RULE = ("a random program of .var declarations (one or several variables, with and without initial values that use the "
        "variables before them, again for a variable that exists), assignments with = and .equ of any value (negative, "
        "beyond 16 bits, of labels further on, of the variable itself) and uses in data, operands, conditions, loop bounds, "
        "macro arguments and prints, through loops, conditionals, macros, sections and included files; compared with the "
        "reference assembler and with the straight-line program in which every use is replaced by the current value. "
        "Non-trivial: eight or more assignments executed and a use in a loop, macro or conditional")
BUDGET = {"quick": 7000, "thorough": 130000}
ASSUMPTIONS = ["a variable is declared before it is used in assembly order", "values stay within 32 bits"]


class Prog(gen.Program):
    nd = 0

    def setup(self):
        self.dvars = []         # of any value, not used where the amount of code depends on it
        self.dname = 0
        head, tail = gen.Program.setup(self)
        return head, tail

    def start(self):
        """Declarations every macro may rely on."""
        n = self.i(0, 3)
        self.dvars = ["d%d" % k for k in range(n)]
        self.globals = set(self.dvars)
        return [["var", [[d, self.pick([None, self.lit(self.i(0, 300))])]]] for d in self.dvars]

    def wide(self, args=0):
        opts = ["lit", "neg", "known", "value", "big"]
        if self.dvars:
            opts += ["d"] * 4
        k = self.pick(opts)
        if k == "d":
            return ["s", self.pick(self.dvars)]
        if k == "neg":
            return ["neg", self.lit(self.draw(gen.VALUES))]
        if k == "known":
            return self.known_atom(300)
        if k == "value":
            return self.value(args)
        if k == "big":
            return gen.n(self.pick([65535, 65536, 70000, 1000000, 0x7FFFFFFF]))
        return self.lit(self.draw(gen.VALUES))

    def dexpr(self, args=0):
        e = self.wide(args)
        for _ in range(self.i(0, 2)):
            e = ["bin", self.pick(["+", "-", "-", "^", "&", "|", "*"]), e, self.wide(args)]
        return e

    def value(self, args=0):
        if self.dvars and self.chance(2):
            e = ["s", self.pick(self.dvars)]
            if self.chance(3):
                e = ["bin", self.pick(["+", "-", "^"]), e, self.lit(self.i(0, 9))]
            return e
        return gen.Program.value(self, args)

    def k_dset(self, depth, top, args):
        if not self.dvars:
            return [self.ins(args)]
        d = self.pick(self.dvars)
        e = self.dexpr(args)
        if self.chance(3):
            e = ["bin", self.pick(["+", "-", "*", "^"]), ["s", d], self.lit(self.i(0, 400))]
        if self.chance(3):
            e = gen.mask(e, 0xFFFF)
        s = ["equ", d, e, ".equ"] if self.chance(4) else ["set", d, e]
        return [s]

    def k_decl(self, depth, top, args):
        """A declaration, of new variables or of ones that exist."""
        res = []
        new = []
        for _ in range(self.i(1, 3)):
            again = [d for d in self.dvars + new if d[0] == "s" or not self.scope and (d[0] == "n" or not self.inmacro)]
            if again and self.chance(3):
                # again: it starts anew (in a section, a global one would get a namesake there)
                v = self.pick(again)
            elif self.scope and self.chance(2):
                v = "s%d" % self.i(0, 1)
            elif self.scope and not top:
                continue
            else:
                self.dname += 1
                v = "n%d" % self.dname
            e = self.pick([None, self.dexpr(args)])
            if self.chance(2) and self.dvars + new:
                e = ["bin", "+", ["s", self.pick(self.dvars + new)], self.lit(self.i(0, 9))]
            # not from itself
            if e is not None and v in model.names_in(e):
                e = None
            res.append([v, e])
            if v not in self.dvars + new:
                new.append(v)
                if not self.scope:
                    self.globals.add(v)
        self.dvars = self.dvars + new
        return [["var", res]] if res else [self.ins(args)]

    def k_use(self, depth, top, args):
        pool = self.dvars + self.vars
        if not pool:
            return [self.ins(args)]
        v = ["s", self.pick(pool)]
        k = self.i(0, 5)
        if k == 0:
            return [["ins", self.pick(["lda", "adc", "inc"]), "v", gen.mask(v, 0xFFFF)]]
        if k == 1:
            return [["ins", self.pick(["lda", "cmp"]), "#", self.pick([["u", "<", v], ["u", ">", v]])]]
        if k == 2:
            return [["print", ".print", [["e", v]]]]
        return [["data", ".word", [["e", gen.mask(v, 0xFFFF)], ["e", ["bin", "&", ["bin", ">>", v, gen.n(16)], gen.n(0xFFFF)]]]]]

    def sub(self, depth, args):
        # what is declared in a body is known in it only
        keep = self.dvars
        res = gen.Program.sub(self, depth, args)
        self.dvars = keep
        return res

    def macro_body(self, name, nargs):
        keep = self.dvars
        res = gen.Program.macro_body(self, name, nargs)
        self.dvars = keep
        return res

    def k_section(self, depth, top, args):
        keep = self.dvars
        if self.scope:
            # a section inside another one does not see what that one declares
            self.dvars = [d for d in self.dvars if d in self.globals]
        res = gen.Program.k_section(self, depth, top, args)
        self.dvars = keep
        return res

    def k_inc(self, depth, top, args):
        self.nlabel += 1
        return [["inc", "part%d.inc" % self.nlabel, self.block(self.i(1, 3), depth - 1, True, args)]]

    def kinds(self, top, depth, kinds):
        if kinds and "if" in kinds:
            kinds = tuple(kinds) + ("dset", "decl", "use")
        res = gen.Program.kinds(self, top, depth, kinds)
        return [k for k in res if not (k == "inc" and (not top or depth <= 0))]

    def program(self):
        first = self.start()
        keep = list(self.dvars)
        self_setup = self.setup

        def setup():
            self.dname = 0
            self.dvars = keep
            head, tail = gen.Program.setup(self)
            return head, tail
        self.setup = setup
        res = gen.Program.program(self)
        self.setup = self_setup
        # those of bodies that are never assembled have to be declared somewhere
        last = [["var", [["n%d" % k, None]]] for k in range(1, self.dname + 1)]
        return first + res + last


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    sect = 1 if i(0, 2) == 0 else 0
    g = Prog(draw, size=12, depth=3, nvars=3, nmacros=2, dset=7, decl=3, use=9, label=1, local=0, ins=2, data=2, fill=1, call=4,
             inc=sect, section=2 * sect, blank=0, ifdef=0, branch=0, var=1, set=3, equ=0,
             **{"for": 3, "while": 1, "repeat": 1, "do": 1, "if": 3})
    return {"prog": g.program()}


class Trace(model.Ref):
    """Notes the executed statements with the current values in place of variables and arguments."""

    top = True

    def one_pass(self):
        self.trace = []
        self.regions = {}
        self.nset = self.deep = 0
        self.level = 0
        model.Ref.one_pass(self)

    def subst(self, e):
        if e is None:
            return None
        k = e[0]
        if k == "s" and e[1][0] == "@":
            return ["s", self.plain(e[1])]
        if k == "s" or k == "arg":
            v = None
            if k == "arg":
                v = self.args[-1][e[1] - 1]
            else:
                f = self.varname(e[1])
                if f is None:
                    return e
                v = self.vars[f]
            if v is None:
                raise model.Ambiguous("unknown")
            if v == -0x80000000:
                raise model.Ambiguous("lowest value")
            return ["n", v, "d"] if v >= 0 else ["neg", ["n", -v, "d"]]
        return [self.subst(x) if isinstance(x, list) else x for x in e]

    def plain(self, name):
        """An ordinary name for a local label."""
        k = self.regions.setdefault(self.last_label, len(self.regions))
        return "loc%d_%s" % (k, name[1:])

    def stmt(self, s):
        k = s[0]
        if k in ("for", "while", "repeat", "do", "if", "call"):
            self.level += 1
            model.Ref.stmt(self, s)
            self.level -= 1
            return
        if self.final:
            if k == "ins":
                self.trace.append(["ins", s[1], s[2], self.subst(s[3])])
            elif k in ("data", "print"):
                self.trace.append([k, s[1], [[i[0], self.subst(i[1]) if i[0] == "e" else i[1]] for i in s[2]]])
            elif k in ("fill", "ds", "org", "pc"):
                self.trace.append([k] + [self.subst(x) for x in s[1:]])
            elif k in ("set", "var") or k == "equ" and self.varname(s[1]) is not None:
                self.nset += 1
            elif k == "lst":
                # its statement follows
                self.trace.append(["label", s[1]])
            elif k == "label" and s[1][0] == "@":
                self.trace.append(["label", self.plain(s[1])])
            elif k in ("inc", "macro", "section", "raw"):
                pass
            else:
                self.trace.append(s)
            if self.level and k in ("ins", "data"):
                self.deep += 1
        model.Ref.stmt(self, s)


def check(case, env):
    prog = case["prog"]
    try:
        ref = Trace(prog)
    except model.ModelError:
        common.judge(prog, env)
        return {"labels": ["invalid"]}
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    _, r = common.judge(prog, env, ref=ref, sym=True)
    want = b"".join(t + b"\n" for _, t in ref.printed)
    if want not in r.console:
        fail("console does not show %r" % want, r.source, r)
    sect = "section" in common.kinds(prog)
    if not sect and len(ref.trace) < 1500:
        common.same(env, model.render(ref.trace), r, "with the values in place")
    return {"nontrivial": ref.nset >= 8 and ref.deep > 0, "labels": ["assigned %d+" % (ref.nset // 10 * 10)] + ["section"] * sect,
            "sample": r.source["in.asm"]}
