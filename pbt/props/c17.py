"""C17: the symbol file lists every symbol with its final value."""
import re

from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import fail

RULE = ("a random program (labels, equates before and after their use, sections, macros, loops, conditionals, variables, "
        "local and anonymous labels, -d symbols, long and mixed-case names, equal values) assembled with -s. Every label "
        "and equate referred to in the reference assembly must be listed once under its full name with the reference's "
        "final value, every other line must name a symbol of the program with its value, values must ascend, and the "
        "output must be that without -s. Non-trivial: four or more names that must be listed")
BUDGET = {"quick": 9000, "thorough": 150000}
ASSUMPTIONS = ["labels and equates nothing refers to, and -d symbols, may be listed or not"]
ENTRY = re.compile(r"^ *(\S+) \$([0-9A-F]{4})$")


class Prog(gen.Program):
    def value(self, args=0):
        if self.extra and self.chance(3):
            return ["s", self.pick(self.extra)]
        return gen.Program.value(self, args)

    def k_use(self, depth, top, args):
        """Refer to symbols in a place of its own."""
        pool = self.planned + self.extra + sorted(self.early) + sorted(self.late)
        if not pool:
            return [self.ins(args)]
        x = ["s", self.pick(pool)]
        k = self.i(0, 6)
        if k == 0:
            return [["if", ["bin", "<", x, gen.n(0)], [["ins", "inx", "", None]], None]]
        if k == 1:
            return [["fill", gen.n(1), ["bin", "&", x, gen.n(0)]]]
        if k == 2:
            return [["print", ".print", [["e", x]]]]
        if k == 3 and self.freevars():
            return [["set", self.pick(self.freevars()), ["bin", "&", x, gen.n(0)]]]
        return [["data", ".word", [["e", gen.mask(x, 0xFFFF)]]]]


@st.composite
def cases(draw):
    g = Prog(draw, size=10, depth=3, use=4, label=4, section=2, anon=1, local=2, nmacros=2, equ=2, print=1, nvars=2)
    g.extra = []
    i = lambda a, b: draw(st.integers(a, b))
    eq = []
    for k in range(i(0, 4)):
        e = g.lit(draw(gen.VALUES))
        if g.extra and i(0, 1):
            e = gen.mask(["bin", "+", ["s", draw(st.sampled_from(g.extra))], gen.n(i(0, 3))], 0xFFFF)
        g.extra.append("x%d" % k)
        eq.append(["equ", "x%d" % k, e, draw(st.sampled_from(["=", ".equ"]))])
    defs = {"d%d" % k: draw(gen.VALUES) for k in range(i(0, 2))}
    g.extra += sorted(defs)
    prog = g.program()
    for s in eq:
        prog.insert(draw(st.sampled_from([0, len(prog), i(0, len(prog))])), s)
    ren = {}
    for n in sorted(common.names(prog)):
        if i(0, 3) == 0:
            ren[n] = draw(st.sampled_from([n + "_" + "long" * i(1, 9), n.upper(), "My_" + n, "_" + n, n + "9"]))
    return {"prog": prog, "defs": defs, "ren": ren}


def enumerate_cases(tier):
    """Enough symbols to make the symbol table grow."""
    for n in (910, 930, 2400) if tier == "quick" else (890, 905, 915, 925, 950, 1850, 2400, 4000):
        yield {"many": n}


def many(n):
    prog = [["org", gen.n(0x1000, "h")]]
    names = []
    for k in range(n):
        x = "%s%d" % (["lab", "Count_", "q", "verylongname_of_symbol_"][k % 4], k)
        names.append(x)
        e = ["bin", "+", ["s", x], gen.n(k % 5)]
        prog.append([["label", x, bool(k & 4)], ["equ", x, gen.n((k * 37) & 0xFFFF), "="], ["lst", x, False, ["ins", "nop", "", None]],
                     ["section", "sec%d" % (k // 50), [["equ", x, gen.n(k), ".equ"], ["data", ".word", [["e", e]]]]]][k % 4])
        if k % 4 != 3:
            prog.append(["data", ".word", [["e", e]]])
    return {"prog": prog, "defs": {}, "ren": {}}


class Watch(model.Ref):
    def __init__(self, *a, **k):
        self.used = set()
        model.Ref.__init__(self, *a, **k)

    def lookup(self, name):
        v = model.Ref.lookup(self, name)
        if self.final:
            n = name.lower()
            f = self.fullname(n)
            if self.varname(n) is None and not n.startswith("@"):
                self.used.add(f if f in self.prev else n)
        return v


def check(case, env):
    if "many" in case:
        case = many(case["many"])
    ren = {k: v for k, v in case["ren"].items()}
    low = [v.lower() for v in ren.values()]
    if len(set(low)) != len(low) or set(low) & (common.names(case["prog"]) - set(ren)):
        ren = {}
    defs = {ren.get(k, k): v for k, v in case["defs"].items()}
    prog = common.rename(case["prog"], ren)
    # a loop's or section's local clash is impossible: names are renamed consistently
    try:
        ref = Watch(prog, defines=defs)
    except (model.Ambiguous, model.ModelError):
        return {"labels": ["discarded"]}
    args = []
    for k, v in sorted(defs.items()):
        args += ["-d", k, str(v)]
    files = model.render(prog)
    _, r = common.judge(prog, env, args=args, files=files, sym=True, ref=ref)
    if r.sym is None:
        fail("no symbol file", files, r, args=args)
    text = r.sym.decode("latin-1")
    got = []
    for line in text.split("\n"):
        # columns of a name and a value
        for t in re.findall(r" *\S+ \S+", line):
            m = ENTRY.match(t)
            if not m:
                fail("entry not understood: %r in\n%s" % (t, text), files, r, args=args)
            got.append((m.group(1).lower(), int(m.group(2), 16)))
    all_ = model.flatten_symbols(ref)
    all_.update({k.lower(): v for k, v in defs.items()})
    seen = {}
    for n, v in got:
        if n in seen:
            fail("%s is listed twice\n%s" % (n, text), files, r, args=args)
        seen[n] = v
        if n not in all_:
            fail("%s is listed, which is not a label or equate of the program\n%s" % (n, text), files, r, args=args)
        if all_[n] != v:
            fail("%s is listed as $%04X, its value is $%04X\n%s" % (n, v, all_[n], text), files, r, args=args)
    if [v for _, v in got] != sorted(v for _, v in got):
        fail("the values are not in ascending order\n%s" % text, files, r, args=args)
    must = {n for n in ref.used if n in ref.symbols}
    for n in sorted(must):
        if n not in seen:
            fail("%s is referred to but not listed\n%s" % (n, text), files, r, args=args)
    common.same(env, files, r, "without a symbol file", args=args)
    ks = common.kinds(prog)
    return {"nontrivial": len(must) >= 4, "labels": sorted(ks & {"section", "call", "for", "anon", "var", "print"}) +
            (["-d"] if defs else []) + (["renamed"] if ren else []),
            "sample": files["in.asm"] + "\n" + text}
