"""C14: sections scope names lexically."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import assemble, fail

RULE = ("nested and reopened sections (names from a pool of three, now and then long or of one character) holding labels, equates, variables and local labels "
        "whose short names come from a pool of five, so that most names exist in several sections and globally; "
        "unqualified and full dotted references from everywhere, before and after the definitions, some without a "
        "definition, macros that use or define such names called from several sections, and unbalanced .endsection. Compared with the reference assembler, with the same program without "
        "sections using unique global names, and with the section members in the symbol file. Non-trivial: a short "
        "name has two or more definitions in different scopes")
BUDGET = {"quick": 9000, "thorough": 160000}
ASSUMPTIONS = ["an unqualified name that is defined neither in the current (full) section nor globally has no meaning",
               "a symbol is an equate, a label or a variable under one full name, not several"]
SECS = ["sa", "sb", "sc"]
SHORT = ["n1", "n2", "n3", "n4", "n5"]
OPEN = [".section", ".sect"]
PAD = ["_with_a_long_name_of_many_characters_that_goes_on", "x" * 60, "_q" * 70]


class Gen:
    def __init__(self, draw):
        self.draw = draw
        self.scope = []
        # now and then long names, which differ at the end or at the start
        pad = draw(st.sampled_from([""] * 7 + PAD)), draw(st.sampled_from([""] * 9 + PAD))
        self.secs = [s[0] + pad[0] + s[1:] if draw(st.booleans()) else s + pad[0] for s in SECS]
        if self.chance(6):
            self.secs = ["b", "c", "d"]
        self.short = [s[0] + pad[1] + s[1:] for s in SHORT]
        self.defs = {}          # full name -> kind
        self.vars = {}
        self.refs = []
        self.nl = 0
        self.bad = self.i(0, 9) == 0
        # macros: their names are those of the section they are called in
        self.macros = []
        for k in range(self.i(0, 2)):
            self.macros.append([[self.i(0, 4), self.pick(self.short)] for _ in range(self.i(1, 3))])
        self.defmacro = self.pick(self.short) if self.chance(3) else None

    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def chance(self, k):
        return self.i(1, k) == 1

    def pick(self, s):
        return self.draw(st.sampled_from(list(s)))

    def full(self, n):
        return ".".join(self.scope + [n])

    def define(self):
        n = self.pick(self.short)
        f = self.full(n)
        if f in self.defs:
            return self.ref()
        k = self.pick(["label", "label", "lst", "equ", "equ", "var"])
        # in a section, n = v assigns a variable n of the whole program
        if k == "equ" and self.scope and self.defs.get(n) == "var" or \
                k == "var" and not self.scope and any(x.endswith("." + n) and y == "equ" for x, y in self.defs.items()):
            k = "label"
        self.defs[f] = k
        if k == "label":
            return ["label", n, self.chance(3)]
        if k == "lst":
            return ["lst", n, self.chance(3), ["ins", "tax", "", None]]
        if k == "equ":
            return ["equ", n, gen.n(self.i(0, 700)), self.pick(["=", ".equ"])]
        self.vars[f] = 1
        return ["var", [[n, self.pick([None, gen.n(self.i(0, 700))])]]]

    def ref(self):
        s = ["ref", list(self.scope), self.i(0, 99), self.i(0, 99), self.i(0, 6), self.draw(st.sampled_from(self.short))]
        self.refs.append(s)
        return s

    def block(self, n, depth):
        res = []
        for _ in range(n):
            k = self.i(0, 11)
            if k <= 2 and depth:
                name = self.pick(self.secs)
                self.scope.append(name)
                b = self.block(self.i(1, 5), depth - 1)
                self.scope.pop()
                res.append(["section", name, b])
            elif k == 3 and self.defmacro:
                f = self.full(self.defmacro)
                if f in self.defs or self.scope and self.defs.get(self.defmacro) == "var":
                    res.append(self.ref())
                else:
                    self.defs[f] = "equ"
                    res.append(["call", "defm", [gen.n(self.i(0, 700))]])
            elif k == 4 and self.macros:
                res.append(["mcall", list(self.scope), self.i(0, len(self.macros) - 1)])
            elif k <= 5:
                res.append(self.define())
            elif k <= 9:
                res.append(self.ref())
            elif k == 10 and not self.bad:
                # local labels of a label of its own
                self.nl += 1
                res += [["label", "own%d" % self.nl], ["ins", "bcc", "v", ["s", "@l"]], ["ins", "nop", "", None],
                        ["label", "@l"], ["ins", "jmp", "v", ["s", "@l"]]]
            else:
                v = [x for x in self.vars if x.rsplit(".", 1)[0] == ".".join(self.scope) and "." in x or
                     not self.scope and "." not in x]
                if v:
                    n_ = self.pick(sorted(v)).rsplit(".", 1)[-1]
                    res.append(["set", n_, gen.mask(["bin", self.pick("+*"), ["s", n_], gen.n(self.i(0, 9))], 0xFFF)])
                else:
                    res.append(["ins", "iny", "", None])
        return res

    def resolve(self, body):
        out = []
        for s in body:
            if s[0] == "section":
                out.append([s[0], s[1], self.resolve(s[2])])
            elif s[0] == "ref":
                out.append(self.make(s))
            elif s[0] == "mcall":
                f = [".".join(s[1] + [n]) for _, n in self.macros[s[2]]]
                if all(self.defs.get(x if x in self.defs else x.rsplit(".", 1)[-1], "var") != "var" for x in f):
                    out.append(["call", "mac%d" % s[2], []])
            else:
                out.append(s)
            if s[0] == "var":
                pass
        return out

    def make(self, s):
        _, scope, a, b, form, bad = s
        sc = ".".join(scope)
        # names that have a meaning here; variables only where they were declared before
        cands = []
        for f in sorted(self.defs):
            if self.defs[f] == "var":
                continue
            cands.append(f)
            o, _, n = f.rpartition(".")
            if o == sc or (not o and (sc + "." + n) not in self.defs):
                cands += [n, n]
        if self.bad and a % 3 == 0:
            e = ["s", bad]
        elif not cands:
            return ["ins", "inx", "", None]
        else:
            e = ["s", cands[a % len(cands)]]
        return self.use(form, e, b)

    def head(self):
        res = [["macro", "mac%d" % k, [self.use(f, ["s", n], 1) for f, n in m]] for k, m in enumerate(self.macros)]
        if self.defmacro:
            res.append(["macro", "defm", [["equ", self.defmacro, ["arg", 1], "="]]])
        return res

    def use(self, form, e, b):
        if form == 0:
            return ["data", ".byte", [["e", ["u", "<" if b & 1 else ">", e]]]]
        if form == 1:
            return ["ins", "lda", "v", e]
        if form == 2:
            return ["ins", "jmp", "v", e]
        if form == 3:
            return ["data", ".word", [["e", gen.mask(["bin", "+", e, gen.n(b)], 0xFFFF)], ["e", e]]]
        if form == 4:
            return ["ins", "sta", "v,x", e]
        if form == 5:
            return ["ins", "ldx", "#", ["u", "<" if b & 1 else ">", e]]
        return ["data", ".word", [["e", e]]]


@st.composite
def cases(draw):
    g = Gen(draw)
    body = g.block(draw(st.integers(2, 10)), 3)
    prog = [["org", gen.n(draw(st.sampled_from([0, 0x0801, 0x1000, 0xC000])), "h")]] + g.head() + g.resolve(body)
    stray = draw(st.sampled_from([None] * 30 + ["end", "endsection", "open"]))
    return {"prog": prog, "open": draw(st.sampled_from(OPEN)), "stray": stray, "at": draw(st.integers(0, 30))}


class R(model.Render):
    pass


def subst(x, args):
    if isinstance(x, list):
        return args[x[1] - 1] if x and x[0] == "arg" else [subst(y, args) for y in x]
    return x


def unnest(prog):
    """Without sections: every section member becomes a global name."""
    defs = set()
    macros = {s[1]: s[2] for s in prog if s[0] == "macro"}

    def collect(body, sc):
        for s in body:
            if s[0] == "call":
                collect(macros[s[1]], sc)
            elif s[0] in ("label", "lst", "equ") and not s[1].startswith("@"):
                defs.add((sc + "." if sc else "") + s[1])
            elif s[0] == "var":
                defs.update((sc + "." if sc else "") + x[0] for x in s[1])
            elif s[0] == "section":
                collect(s[2], (sc + "." if sc else "") + s[1])
    collect(prog, "")
    flat = lambda f: "g_" + f.replace(".", "_x_")

    def name(n, sc):
        if n.startswith("@"):
            return n
        f = (sc + "." if sc else "") + n
        if "." not in n and f in defs:
            return flat(f)
        return flat(n)

    def ex(e, sc):
        if not isinstance(e, list):
            return e
        if e and e[0] == "s":
            return ["s", name(e[1], sc)]
        if e and e[0] in ("n", "str", "pc"):
            return e
        return [ex(x, sc) for x in e]

    def block(body, sc):
        res = []
        for s in body:
            k = s[0]
            if k == "macro":
                continue
            if k == "call":
                res += block([subst(x, s[2]) for x in macros[s[1]]], sc)
            elif k == "section":
                res += block(s[2], (sc + "." if sc else "") + s[1])
            elif k == "label":
                res.append([k, name(s[1], sc)] + s[2:])
            elif k == "lst":
                res.append([k, name(s[1], sc), s[2], ex(s[3], sc)])
            elif k in ("equ", "set"):
                res.append([k, name(s[1], sc), ex(s[2], sc)] + s[3:])
            elif k == "var":
                res.append([k, [[name(a, sc), ex(b, sc)] for a, b in s[1]]])
            else:
                res.append([k] + ex(s[1:], sc))
        return res

    return block(prog, "")


def check(case, env):
    prog = case["prog"]
    files = model.render(prog)
    if case["open"] != ".section":
        files["in.asm"] = files["in.asm"].replace(".section", case["open"])
    if case["stray"]:
        lines = files["in.asm"].splitlines()
        word = {"end": ".endsection", "endsection": ".ends", "open": case["open"] + " sx"}[case["stray"]]
        if case["stray"] == "open":
            return {"labels": ["skipped"]}
        # outside every section
        tops = [i for i in range(len(lines) + 1)
                if sum(l.strip().startswith((".sect", ".macro")) for l in lines[:i]) == sum(l.strip() in (".endsection", ".endmacro") for l in lines[:i])]
        lines.insert(tops[case["at"] % len(tops)], "        .endsection")
        files["in.asm"] = "\n".join(lines) + "\n"
        r = assemble(env, files)
        if r.rc == 0:
            fail(".endsection without a section was accepted", files, r)
        return {"labels": ["stray"]}
    ref, r = common.judge(prog, env, files=files, sym=True)
    if r is None:
        return {"labels": ["discarded"]}
    if ref is None:
        return {"labels": ["invalid"]}
    want = model.flatten_symbols(ref)
    for n, v in common.parse_symbols(r.sym) or []:
        if want.get(n.lower()) != v:
            fail("symbol file has %s = $%04X, expected %s" % (n, v, want.get(n.lower())), files, r)
    common.same(env, model.render(unnest(prog)), r, "unique global names instead of sections")
    shorts = {}
    for n in want:
        shorts.setdefault(n.rsplit(".", 1)[-1], set()).add(n)
    nt = any(len(v) > 1 for v in shorts.values())
    depth = max([n.count(".") for n in want] or [0])
    return {"nontrivial": nt, "labels": ["depth %d" % depth], "sample": files["in.asm"]}
