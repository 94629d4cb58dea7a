"""Shared hypothesis strategies."""
from hypothesis import strategies as st

from . import model

BYTE_VALUES = st.one_of(st.sampled_from([0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF]), st.integers(0, 255))
WORD_VALUES = st.one_of(st.sampled_from([0x100, 0x101, 0x1FF, 0x200, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF]),
                        st.integers(256, 65535))
VALUES = st.one_of(BYTE_VALUES, WORD_VALUES)
FMTS = st.sampled_from("ddhhHbB")


@st.composite
def num(draw, values=VALUES):
    v = draw(values)
    f = draw(FMTS)
    if v in CHARS and draw(st.integers(0, 3)) == 0:
        f = draw(st.sampled_from("cq"))
    return ["n", v, f]


# characters usable in a character constant of either form
CHARS = frozenset(range(32, 127)) - {39, 34, 92}


def fix(e, syms, pc=None):
    """Replace operations outside the defined range (overflow, division by zero, shifts) by their left
    operand, so that every generated expression has a value."""
    k = e[0]
    if k == "par" or k == "neg":
        return [k, fix(e[1], syms, pc)]
    if k == "u":
        return [k, e[1], fix(e[2], syms, pc)]
    if k == "bin":
        a, b = fix(e[2], syms, pc), fix(e[3], syms, pc)
        r = ["bin", e[1], a, b]
        try:
            model.evaluate(r, syms.__getitem__, pc)
        except (model.ModelError, model.Ambiguous):
            return a
        return r
    return e


def value(e, syms, pc=None):
    return model.evaluate(e, syms.__getitem__, pc)


def exprs(names=(), values=VALUES, max_leaves=6, pc=False, ops=None):
    """Expression trees over literals and the given symbol names."""
    leaf = num(values)
    opts = [leaf]
    if names:
        opts.append(st.sampled_from(list(names)).map(lambda n: ["s", n]))
    if pc:
        opts.append(st.just(["pc"]))
    leaves = st.one_of(opts)
    binops = st.sampled_from(ops or model.BINOPS)

    def extend(sub):
        return st.one_of(
            st.tuples(binops, sub, sub).map(lambda t: ["bin", t[0], t[1], t[2]]),
            st.tuples(binops, sub, sub).map(lambda t: ["bin", t[0], t[1], t[2]]),
            st.tuples(st.sampled_from(["<", ">", "~", "not"]), sub).map(lambda t: ["u", t[0], t[1]]),
            sub.map(lambda e: ["neg", e]),
            sub.map(lambda e: ["par", e]))
    return st.recursive(leaves, extend, max_leaves=max_leaves)


def spell(value_, draw, names=None):
    """An expression with the given non-negative value, as a literal or an operation."""
    k = draw(st.integers(0, 5))
    if k <= 2:
        return ["n", value_, draw(FMTS)]
    if k == 3:
        d = draw(st.integers(0, min(value_, 300)))
        return ["bin", "+", ["n", value_ - d, draw(FMTS)], ["n", d, draw(FMTS)]]
    if k == 4:
        d = draw(st.integers(0, 300))
        return ["bin", "-", ["n", value_ + d, draw(FMTS)], ["n", d, draw(FMTS)]]
    m = draw(st.integers(1, 7))
    return ["bin", "+", ["bin", "*", ["n", value_ // m, draw(FMTS)], ["n", m, "d"]], ["n", value_ % m, draw(FMTS)]]


# ---------------------------------------------------------------- whole programs
def n(v, f="d"):
    return ["n", v, f]


def mask(e, m):
    return ["bin", "&", e, ["n", m, "h"]]


DEFAULT = {
    "ins": 6, "data": 4, "fill": 1, "label": 3, "anon": 0, "var": 1, "set": 2, "if": 1, "ifdef": 1, "for": 1,
    "while": 1, "repeat": 1, "do": 1, "reg": 0, "call": 2, "section": 1, "print": 0, "pc": 0, "ds": 0, "blank": 1,
    "equ": 1, "local": 2, "branch": 1,
}
PLAIN = ["lda", "ldx", "ldy", "sta", "adc", "and", "cmp", "eor", "ora", "sbc", "inc", "dec", "asl", "lsr", "rol",
         "jmp", "jsr", "stx", "sty", "bit", "cpx", "nop", "tax", "clc", "rts"]
BRANCH = ["bcc", "bcs", "beq", "bmi", "bne", "bpl", "bvc", "bvs"]


def assigned(stmt):
    """The variables that a statement or a list of statements sets."""
    res = set()
    for s in stmt:
        if isinstance(s, list):
            res |= assigned(s)
    if stmt and stmt[0] in ("set", "for") and isinstance(stmt[1], str):
        res.add(stmt[1])
    return res


class Program:
    """Builds a random valid program. Everything that decides how much is emitted is known where it is used;
    operands may refer to anything, earlier or later."""

    cpu, illegal = "6502", False        # which instructions there are

    def __init__(self, draw, size=12, depth=3, org=None, weights=None, nconst=3, nvars=2, nmacros=2, **over):
        self.draw = draw
        self.w = dict(DEFAULT)
        self.w.update(weights or {})
        self.w.update(over)
        self.depth = depth
        self.size = size
        self.early = {}                 # constants known from the start
        self.late = {}                  # constants defined at the end
        self.labels = []                # every ordinary label, full names
        self.vars = []
        self.macros = {}                # name -> number of arguments
        self.emitted = 0
        self.nlabel = 0
        self.nvar = 0
        self.in_do = 0
        self.inmacro = False
        self.defnames = []              # names that may be defined elsewhere (-d)
        self.condmacros = set()
        self.planned = []
        self.scope = ""
        self.nsect = 0
        self.regs = set()
        self.loopvars = []
        self.changes = {}
        self.changed = set()
        self.locals = None
        self.anon_ok = False
        self.head = []
        self.tail = []
        self.org = org
        self.nconst, self.nvars, self.nmacros = nconst, nvars, nmacros
        self.budget = size * 3

    # -- small draws
    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def chance(self, k):
        return self.i(1, k) == 1

    def lit(self, v):
        return ["n", v, self.draw(FMTS)]

    # -- expressions
    def known_atom(self, hi=8):
        """A value known where it stands."""
        opts = ["lit"]
        if self.early:
            opts.append("early")
        if self.vars:
            opts += ["var", "var"]
        k = self.pick(opts)
        if k == "early":
            return ["s", self.pick(sorted(self.early))]
        if k == "var":
            return ["s", self.pick(self.vars)]
        return self.lit(self.i(0, hi))

    def known(self, m=None):
        e = self.known_atom()
        if self.chance(2):
            e = ["bin", self.pick(["+", "-", "*", "&", "|", "^", "==", "<", ">", "!=", "<=", ">="]), e, self.known_atom()]
        if m is not None:
            e = mask(e, m)
        return e

    def value(self, args=0):
        """Any value; a reference to anything."""
        opts = ["lit", "known", "label", "label", "pc", "late"]
        if args:
            opts += ["arg"] * 4
        k = self.pick(opts)
        if k == "arg":
            e = ["arg", self.i(1, args)]
        elif k == "label" and self.planned:
            e = ["s", self.pick(self.planned)]
        elif k == "late" and self.late:
            e = ["s", self.pick(sorted(self.late))]
        elif k == "pc":
            e = ["pc"]
        elif k == "known":
            e = self.known_atom(300)
        else:
            e = self.lit(self.draw(VALUES))
        if self.chance(3):
            e = ["bin", self.pick(["+", "-", "*", "^", "|"]), e, self.lit(self.i(0, 9))]
        return e

    def byte(self, args=0):
        e = self.value(args)
        return self.pick([["u", "<", e], ["u", ">", e], mask(e, 0xFF), self.lit(self.draw(BYTE_VALUES))])

    def word(self, args=0):
        return self.pick([mask(self.value(args), 0xFFFF), self.lit(self.draw(VALUES))])

    # -- statements
    def ins(self, args=0):
        from . import isa
        tab = isa.table(self.cpu, self.illegal)
        m = self.pick(PLAIN)
        if (self.cpu != "6502" or self.illegal) and self.chance(2):
            m = self.pick(sorted(x for x in (isa.ONLY_CMOS + ["lda", "sta", "jmp", "bit", "inc"] if self.cpu == "65c02" else isa.ILLEGAL)
                                 if x in tab and "rel" not in tab[x]))
        forms = [f for f in isa.FORMS if isa.mode_exists(tab, m, f)]
        f = self.pick(forms)
        if f == "":
            return ["ins", m, "", None]
        t = tab[m]
        if f == "#" and self.chance(12):
            return ["ins", m, f, ["neg", self.lit(self.pick([1, 2, 100, 127, 128]))]]
        if f in ("#", "(v,x)", "(v),y"):
            return ["ins", m, f, self.byte(args)]
        k = self.i(0, 3)
        if k == 0 and self.planned:
            e = ["s", self.pick(self.planned)]
            if self.chance(3):
                e = ["bin", "+", e, self.lit(self.i(0, 9))]
            if f in ("v,x", "v,y") and isa.encode(tab, m, f, 0x1234, 0) is None:
                e = ["u", "<", e]
            return ["ins", m, f, e]
        if k == 1 and args:
            e = ["arg", self.i(1, args)]
            return ["ins", m, f, mask(e, 0xFF) if isa.encode(tab, m, f, 0x1234, 0) is None else e]
        v = self.draw(VALUES)
        if isa.encode(tab, m, f, v, 0) is None:
            v &= 0xFF
        if k == 2 and f.startswith("v") and isa.encode(tab, m, f, 0x1234, 0) is not None and self.chance(3):
            return ["ins", m, f, self.pick([["pc"], ["bin", "-", ["pc"], n(self.i(0, 5))]])]
        pool = [k for k, x in list(self.early.items()) + list(self.late.items())
                if isa.encode(tab, m, f, x, 0) is not None]
        if pool and self.chance(2):
            return ["ins", m, f, ["s", self.pick(pool)]]
        return ["ins", m, f, self.lit(v)]

    def data(self, args=0):
        d = self.pick([".byte", ".db", ".word", ".dw", ".dcw", ".str", ".text", ".string"])
        items = []
        for _ in range(self.i(1, 3)):
            if self.chance(5):
                items.append(["str", self.string()])
            elif d in (".byte", ".db", ".word", ".dw", ".dcw") and self.chance(10):
                k = self.pick([1, 2, 5, 127, 128]) if d in (".byte", ".db") else self.pick([1, 2, 255, 256, 257, 32767, 32768])
                items.append(["e", self.pick([["neg", self.lit(k)], ["bin", "-", self.known_atom(3), self.lit(k)]])
                              if k > 4 else ["neg", self.lit(k)]])
            elif d in (".byte", ".db"):
                items.append(["e", self.byte(args)])
            else:
                # .str: the size depends on the value, so only known ones
                items.append(["e", self.word(args) if d in (".word", ".dw", ".dcw") else self.lit(self.draw(VALUES))])
        return ["data", d, items]

    def string(self):
        s = plain(self.draw(WORDS))
        if self.chance(3):
            # an escape takes every pair of hex digits that follows
            s += [["c", "-"], self.pick([["x", "00"], ["x", "0041"], ["x", "ff"], ["e", "n"], ["e", "t"], ["e", '"'], ["e", "\\"]])]
            if self.chance(2):
                s += plain("-" + self.draw(WORDS))
        return s

    def fill(self):
        return ["fill", self.lit(self.draw(BYTE_VALUES)), ["bin", "+", self.known(7), n(self.i(0, 2))]]

    def macro_body(self, name, nargs):
        keep = self.vars, self.locals
        self.inmacro = True
        res = []
        locs = ["@%s%d" % (self.pick(["l", "m"]), k) for k in range(self.i(0, 2))]
        locs = sorted(set(locs))
        res += self.block(self.i(1, 3), 1, args=nargs, kinds=("ins", "data", "set", "if", "for", "call", "fill"))
        for x in locs:
            pos = self.i(0, len(res))
            res.insert(pos, ["label", x])
            res.insert(self.i(0, len(res)), ["ins", self.pick(["jmp", "jsr"]), "v", ["s", x]])
            if self.chance(2):
                res.insert(self.i(0, len(res)), ["ins", self.pick(BRANCH), "v", ["s", x]])
        self.vars, self.locals = keep
        self.inmacro = False
        return ["macro", name, res]

    def setup(self):
        for k in range(self.i(0, self.nconst)):
            self.early["k%d" % k] = self.draw(st.one_of(st.integers(0, 9), VALUES))
        for k in range(self.i(0, self.nconst)):
            self.late["z%d" % k] = self.draw(VALUES)
        for k in range(self.i(0, self.nvars)):
            self.vars.append("v%d" % k)
        head = [["equ", k, self.lit(v), self.pick(["=", ".equ", "="])] for k, v in self.early.items()]
        self.globalvars = list(self.vars)
        tail = [["equ", k, self.lit(v), self.pick(["=", ".equ", "="])] for k, v in self.late.items()]
        for v in list(self.vars):
            head.append(["var", [[v, self.pick([None, self.lit(self.i(0, 9))])]]])
        self.planned = ["lab%d" % k for k in range(self.i(0, 4))] if self.w["label"] else []
        self.pending = list(self.planned)
        for k in range(self.i(0, self.nmacros) if self.w["call"] else 0):
            na = self.i(0, 3)
            nm = "mac%d" % k
            self.cond = False
            self.changed = set()
            b = self.macro_body(nm, na)
            self.macros[nm] = na
            self.changes[nm] = self.changed | assigned(b)
            if self.cond:
                self.condmacros.add(nm)
            head.append(b)
        return head, tail

    def kinds(self, top, depth, kinds):
        res = []
        for k, w in sorted(self.w.items()):
            if not w or (kinds and k not in kinds):
                continue
            if k in ("label", "anon", "var", "section", "pc", "ds", "equ", "local", "branch") and not top:
                continue
            if k in ("if", "ifdef", "for", "while", "repeat", "do", "reg", "section") and depth <= 0:
                continue
            if k == "call" and not self.macros:
                continue
            if k == "set" and not self.vars:
                continue
            if k in ("for", "while", "repeat", "do") and not self.freevars():
                continue
            if k == "while" and self.in_do:
                continue            # would end the .do loop
            if k == "reg" and len(self.regs) == 2:
                continue
            res += [k] * w
        return res

    def freevars(self):
        return [v for v in self.vars if v not in self.loopvars]

    def block(self, count, depth, top=False, args=0, kinds=None):
        res = []
        for _ in range(count):
            if self.budget <= 0:
                break
            self.budget -= 1
            ks = self.kinds(top, depth, kinds)
            k = self.pick(ks)
            res += getattr(self, "k_" + k)(depth, top, args)
        return res

    def sub(self, depth, args):
        return self.block(self.i(1, 3), depth - 1, False, args) or [["ins", "nop", "", None]]

    def k_ins(self, depth, top, args):
        s = self.ins(args)
        if top and self.pending and self.chance(4):
            self.labels.append(self.pending[0])
            return [["lst", self.newlabel(), self.chance(2), s]]
        return [s]

    def newlabel(self):
        x = self.pending.pop(0)
        self.locals = None
        return x

    def k_blank(self, depth, top, args):
        return [["raw", ""]]

    def k_data(self, depth, top, args):
        return [self.data(args)]

    def k_fill(self, depth, top, args):
        return [self.fill()]

    def k_label(self, depth, top, args):
        if not self.pending:
            return [self.ins(args)]
        return [["label", self.newlabel(), self.chance(2)]]

    def k_local(self, depth, top, args):
        """Local labels of one region: definitions and references between ordinary labels."""
        names = ["@a", "@b2", "@_x"][:self.i(1, 3)]
        if self.locals is not None:
            return [self.ins(args)]
        self.locals = names
        res = self.block(self.i(0, 2), 0, False, args, ("ins", "data"))
        for x in names:
            for _ in range(self.i(1, 2)):
                res.insert(self.i(0, len(res)), self.pick([["ins", self.pick(["jmp", "jsr", "lda"]), "v", ["s", x]],
                                                          ["ins", self.pick(BRANCH), "v", ["s", x]],
                                                          ["data", ".word", [["e", ["s", x]]]]]))
        for x in names:
            res.insert(self.i(0, len(res)), ["label", x, self.chance(3)])
        return res

    def k_branch(self, depth, top, args):
        if not self.planned:
            return [self.ins(args)]
        return [["ins", self.pick(BRANCH), "v", ["s", self.pick(self.planned)]]]

    def k_anon(self, depth, top, args):
        c = self.pick("+-")
        res = [["anon", c, self.ins() if self.chance(2) else None]]
        if c == "-":
            res += self.block(self.i(0, 1), 0, False, args, ("ins", "data"))
            res.append(["ins", self.pick(BRANCH + ["jmp"]), "v", ["anon", "-"]])
        else:
            res = [["ins", self.pick(BRANCH + ["jmp"]), "v", ["anon", "+"]]] + \
                self.block(self.i(0, 1), 0, False, args, ("ins", "data")) + res
        return res

    def k_var(self, depth, top, args):
        k = len(self.vars)
        if k >= 5:
            return [self.ins(args)]
        e = self.pick([None, self.lit(self.i(0, 20)), self.known(15)])
        self.nvar += 1
        v = "w%d" % self.nvar
        self.vars.append(v)
        if not self.scope:
            self.globalvars.append(v)
        return [["var", [[v, e]]]]

    def assign(self, v, args):
        r = self.pick([["bin", self.pick(["+", "-", "^"]), ["s", v], self.lit(self.i(0, 9))],
                       self.known(), self.known(0xFF), self.lit(self.draw(VALUES))])
        return ["set", v, mask(r, 0xFFF)]

    def k_set(self, depth, top, args):
        fv = self.freevars()
        if not fv:
            return [self.ins(args)]
        return [self.assign(self.pick(fv), args)]

    def k_if(self, depth, top, args):
        c = self.known()
        if args and self.chance(2):
            self.cond = True        # the arguments of this macro must be known
            c = ["bin", self.pick(["==", "<", "&"]), ["arg", self.i(1, args)], self.lit(self.i(0, 9))]
        return [["if", c, self.sub(depth, args), self.sub(depth, args) if self.chance(2) else None]]

    def k_ifdef(self, depth, top, args):
        names = sorted(self.early) + ["nope", "undef_1"]
        if not self.inmacro:
            # inside a macro it is decided where the macro is defined
            names += sorted(self.late) + self.defnames
            if top and not self.scope:
                names += self.planned + self.globalvars
        name = self.pick(names)
        return [["ifdef", self.i(0, 1), name, self.sub(depth, args), self.sub(depth, args) if self.chance(2) else None]]

    def loop(self, v, depth, args):
        self.loopvars.append(v)
        b = self.sub(depth, args)
        self.loopvars.pop()
        return b

    def k_for(self, depth, top, args):
        v = self.pick(self.freevars())
        a, c = self.i(0, 6), self.i(0, 3)
        b = self.loop(v, depth, args)
        step = self.pick([None, None, 1, 2, 3, -1, -2])
        if step is None or step > 0:
            s, e = a, a + c
        else:
            s, e = a + c, a
        if self.chance(6):
            s, e = e + 1, s
        e = self.lit(max(e, 0))
        s = self.lit(s)
        stp = None if step is None else n(step) if step > 0 else ["neg", n(-step)]
        return [["for", v, s, e, stp, b]]

    def k_while(self, depth, top, args):
        v = self.pick(self.freevars())
        b = self.loop(v, depth, args)
        a, c = self.i(0, 9), self.i(0, 3)
        return [["set", v, self.lit(a)],
                ["while", ["bin", self.pick(["<", "!=", "<>"]), ["s", v], self.lit(a + c)],
                 b + [["set", v, ["bin", "+", ["s", v], n(1)]]]]]

    def k_repeat(self, depth, top, args):
        v = self.pick(self.freevars())
        b = self.loop(v, depth, args)
        a, c = self.i(0, 9), self.i(1, 3)
        return [["set", v, self.lit(a)],
                ["repeat", b + [["set", v, ["bin", "+", ["s", v], n(1)]]],
                 ["bin", self.pick(["==", ">="]), ["s", v], self.lit(a + c)]]]

    def k_do(self, depth, top, args):
        v = self.pick(self.freevars())
        self.in_do += 1
        b = self.loop(v, depth, args)
        self.in_do -= 1
        a, c = self.i(0, 9), self.i(1, 3)
        return [["set", v, self.lit(a)],
                ["do", b + [["set", v, ["bin", "+", ["s", v], n(1)]]],
                 ["bin", "<", ["s", v], self.lit(a + c)]]]

    def k_reg(self, depth, top, args):
        r = self.pick([x for x in "xy" if x not in self.regs])
        self.regs.add(r)
        b = self.sub(min(depth, 1), args)
        self.regs.discard(r)
        a, c = self.i(0, 200), self.i(0, 55)
        d = self.pick(["to", "downto"])
        lo, hi = n(a), n(a + c)
        if d == "downto":
            lo, hi = n(a + c), n(max(a, 1))
        return [["reg", r, lo, hi, d, b]]

    def k_call(self, depth, top, args):
        # not a macro that changes the variable of a loop around the call: it may never end in an early pass
        names = [m for m in sorted(self.macros) if not self.changes[m] & set(self.loopvars)]
        if not names:
            return [self.ins(args)]
        m = self.pick(names)
        self.changed |= self.changes[m]
        if m in self.condmacros:
            return [["call", m, [mask(self.known_atom(999), 0xFFFF) for _ in range(self.macros[m])]]]
        return [["call", m, [self.word(args) for _ in range(self.macros[m])]]]

    def k_section(self, depth, top, args):
        self.nsect += 1
        name = "sec%d" % self.nsect
        keep = self.scope, self.pending, self.planned
        keepvars = list(self.vars)
        if self.scope:
            self.vars = [v for v in self.vars if v in self.globalvars]
        full = self.scope + "." + name if self.scope else name
        self.scope = full
        inner = ["in%d" % k for k in range(self.i(0, 2))]
        self.pending, outer = list(inner), self.planned
        # from inside: the members by their own name, everything by its full name
        self.planned = inner + [p for p in outer if "." in p or not keep[0]]
        b = self.block(self.i(1, 4), depth - 1, True, args)
        b += [["label", self.newlabel()] for _ in list(self.pending)]
        self.scope, self.pending, self.planned = keep
        self.vars = keepvars
        self.planned = self.planned + [full + "." + x for x in inner]
        return [["section", name, b]]

    def k_print(self, depth, top, args):
        items = []
        for _ in range(self.i(0, 3)):
            items.append(["str", plain(self.draw(WORDS))] if self.chance(3) else ["e", self.value(args)])
        return [["print", self.pick([".print", "?"]), items]]

    def k_pc(self, depth, top, args):
        self.nlabel += 1
        return [["pc", n(0x2000 + 0x800 * self.nlabel + self.i(0, 255), "h")]]

    def k_ds(self, depth, top, args):
        self.nlabel += 1
        return [["ds", ["bin", "+", self.known(31), n(1)]], ["pc", n(0x2000 + 0x800 * self.nlabel + self.i(0, 255), "h")]]

    def k_equ(self, depth, top, args):
        k = len(self.early) + len(self.late)
        if self.scope or k > 9:
            return [self.ins(args)]
        name = "e%d" % k
        v = self.draw(VALUES)
        self.late[name] = v
        return [["equ", name, self.lit(v), self.pick(["=", ".equ"])]]

    def program(self):
        head, tail = self.setup()
        org = [["org", n(self.org if self.org is not None else self.pick([0, 0x00F0, 0x0400, 0x0400, 0x0801, 0x1000, 0xC000, 0x20FE]), "h")]]
        if self.chance(2):
            head = org + head
        else:
            head = head + org
        body = self.block(self.i(1, self.size), self.depth, True)
        if self.pending:
            body += [["lst", self.newlabel(), False, ["ins", "rts", "", None]] for _ in list(self.pending)]
        last = []
        if self.planned:
            last = [["data", ".word", [["e", ["s", p]] for p in self.planned]]]
        return head + body + last + tail


WORDS = st.text(alphabet="abc XYZ019;/*.,:#$%()-+<>='", min_size=1, max_size=6).filter(lambda s: len(s) != 1)


def plain(s):
    return [["c", c] for c in s]


@st.composite
def programs(draw, **kw):
    return Program(draw, **kw).program()
