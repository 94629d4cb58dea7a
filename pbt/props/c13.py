"""C13: local and anonymous labels bind to the right definition."""
from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import fail

RULE = ("a history of up to 40 ordinary labels, local labels (a few names, reused between ordinary labels), anonymous "
        "labels and references to them (branches, jumps, operands, data, conditions; up to six signs deep) in files, "
        "included files (some twice), sections, loops, conditionals and macros; some references have no target; and programs with more than "
        "5000 anonymous labels. "
        "Compared with the reference assembler and with the same program using a unique ordinary label for each. "
        "Non-trivial: a local name defined twice or an anonymous reference two or more deep")
BUDGET = {"quick": 9000, "thorough": 160000}
ASSUMPTIONS = ["anonymous labels are not used inside macros, conditionals or loops (the assembler allows references there only)"]
LOC = ["@a", "@b", "@loop_1"]
JMP = ["jmp", "jsr", "lda", "sta", "ldx", "inc"]


class Gen:
    def __init__(self, draw):
        self.draw = draw
        self.nlab = 0
        self.nsec = 0
        self.ninc = 0
        self.nmac = 0
        self.macros = []
        self.bad = self.chance(8)
        self.anon = self.i(0, 3) != 0
        self.local = self.i(0, 3) != 0 or not self.anon
        self.incs = []

    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def chance(self, k):
        return self.i(1, k) == 1

    def pick(self, s):
        return self.draw(st.sampled_from(list(s)))

    def use(self, e, deep=True):
        k = self.i(0, 7)
        if k <= 2:
            return ["ins", self.pick(gen.BRANCH), "v", e]
        if k == 3:
            return ["ins", "lda", "#", ["u", self.pick("<>"), e]]
        if k == 4:
            return ["data", ".word", [["e", e] for _ in range(self.i(1, 2))]]
        if k == 5:
            return ["ins", self.pick(["lda", "sta", "adc"]), "v,x", e]
        if k == 6 and deep and e[0] == "s":
            return ["data", ".word", [["e", ["bin", self.pick("+-"), e, gen.n(self.i(0, 5))]]]]
        return ["ins", self.pick(JMP), "v", e]

    def region(self, size, depth, infile):
        """Statements up to the next ordinary label: locals are defined at most once each."""
        defs = [x for x in LOC if self.local and self.chance(2)]
        if size <= 2:
            defs = defs[:1]
        res = [["label", x, self.chance(3)] for x in defs]
        for _ in range(self.i(1, size)):
            k = self.i(0, 13)
            if k <= 2 and (defs or self.bad) and self.local:
                res.append(self.use(["s", self.pick(defs if defs and not self.bad else LOC)]))
            elif k <= 4 and self.anon:
                res.append(["anon", self.pick("+-"), self.pick([None, ["ins", "inx", "", None]])])
            elif k <= 7 and self.anon:
                res.append(["aref", self.pick("+-"), self.i(1, 5) if self.chance(3) else self.i(1, 2), self.i(0, 9)])
            elif k == 8:
                res.append(["ins", "nop", "", None])
            elif k == 9:
                res.append(["fill", gen.n(7), gen.n(self.pick([0, 1, 3, 20, 60, 120, 126]))])
            elif k == 10 and self.macros:
                res.append(["call", self.pick(self.macros), []])
            elif k == 11 and defs:
                b = [self.use(["s", self.pick(defs)])]
                res.append(self.pick([["for", "v", gen.n(1), gen.n(self.i(1, 3)), None, b],
                                      ["if", gen.n(self.i(0, 1)), b, [["ins", "iny", "", None]]]]))
            elif k == 12:
                self.nlab += 1
                res.append(["equ", "q%d" % self.nlab, gen.n(self.i(0, 500)), "="])
            else:
                res.append(["data", ".byte", [["e", gen.n(self.i(0, 255))]]])
        # any order
        return list(self.draw(st.permutations(res)))

    def file(self, n, depth):
        res = []
        for _ in range(n):
            k = self.i(0, 9)
            if k == 0 and depth:
                self.nsec += 1
                res.append(["section", "sec%d" % self.nsec, self.newlabel() + self.region(3, 0, False) + self.file(1, 0)])
                res += self.newlabel()
            elif k == 1 and depth:
                if self.incs and self.chance(3):
                    res.append(self.pick(self.incs))
                else:
                    # a file of local and anonymous labels only can be included several times
                    self.ninc += 1
                    multi = self.chance(2)
                    keep = self.local
                    if multi:
                        self.local = False
                    body = [s for s in (self.region(5, 0, True) if multi else self.file(self.i(1, 2), 0)) if s[0] != "equ" or not multi]
                    self.local = keep
                    s = ["inc", "f%d.inc" % self.ninc, body]
                    res.append(s)
                    if multi:
                        self.incs.append(s)
            else:
                res += self.newlabel() + self.region(8, depth, True)
        return res

    def newlabel(self):
        self.nlab += 1
        if self.chance(4):
            return [["lst", "lab%d" % self.nlab, self.chance(2), ["ins", "tax", "", None]]]
        return [["label", "lab%d" % self.nlab, self.chance(2)]]

    def macro(self):
        self.nmac += 1
        x = self.pick(LOC)
        b = [self.use(["s", x]), ["label", x], self.use(["s", x])]
        b.insert(self.i(0, 3), ["fill", gen.n(8), gen.n(self.pick([0, 2, 130]))])
        if self.macros and self.chance(2):
            b.insert(self.i(0, 4), ["call", self.pick(self.macros), []])
        name = "mac%d" % self.nmac
        self.macros.append(name)
        return ["macro", name, b]

    def program(self):
        head = [["org", gen.n(0x1000, "h")], ["var", [["v", None]]]]
        first = self.region(4, 1, True) if self.chance(3) else []
        macs = [self.macro() for _ in range(self.i(0, 2))] if self.local else []
        p = head + macs + first + self.file(self.i(1, 5), 1)
        self.anons(p, self.bad)
        return p

    def anons(self, body, bad):
        """Turn references into ones that have a target (unless bad), in the file of body."""
        flat = []

        def scan(b):
            for idx, s in enumerate(b):
                if s[0] == "inc":
                    if not any(x is s for x in self.done):
                        self.done.append(s)
                        self.anons(s[2], bad)
                elif s[0] == "section":
                    scan(s[2])
                elif s[0] in ("anon", "aref"):
                    flat.append((s, b, idx))
        scan(body)
        total = {c: sum(s[0] == "anon" and s[1] == c for s, _, _ in flat) for c in "+-"}
        seen = {"+": 0, "-": 0}
        for s, b, idx in flat:
            c = s[1]
            if s[0] == "anon":
                seen[c] += 1
                continue
            have = seen[c] if c == "-" else total[c] - seen[c]
            d = s[2]
            if not bad:
                d = min(d, have)
            if d <= 0:
                b[idx] = ["ins", "sei", "", None]
            else:
                b[idx] = self.use(["anon", c * d], False)

    done = ()


@st.composite
def cases(draw):
    g = Gen(draw)
    g.done = []
    return {"prog": g.program()}


class Names(model.Ref):
    """Also notes the definition each reference binds to."""


def unique(prog):
    """The same program with a unique ordinary label for each local and anonymous one, or None when a reference has
    no target. Macros are left alone: their labels belong to the call."""
    out = []
    state = {"last": 0, "id": 0}

    # pass 1: number the definitions by region and by file
    def regions(body, acc):
        """Flat list of (kind, value) in order, files as ("open"/"close")."""
        for s in body:
            k = s[0]
            if k in ("label", "lst"):
                acc.append(("local" if s[1].startswith("@") else "label", s[1], s))
            elif k == "anon":
                acc.append(("anon", s[1], s))
            elif k == "section":
                regions(s[2], acc)
            elif k == "inc":
                acc.append(("open", s[1], s))
                regions(s[2], acc)
                acc.append(("close", s[1], s))
        return acc

    flat = regions(prog, [])
    locs = {}
    anons = {}
    region = 0
    stack = [0]
    nfile = 0
    for k, v, s in flat:
        if k == "label":
            region += 1
        elif k == "local":
            locs[(region, v)] = "u%d_%s" % (region, v[1:])
        elif k == "open":
            nfile += 1
            stack.append(nfile)
        elif k == "close":
            stack.pop()
        else:
            anons.setdefault((stack[-1], v), []).append("w%d_%d%s" % (stack[-1], len(anons.get((stack[-1], v), [])), "p" if v == "+" else "m"))
    st_ = {"region": 0, "file": 0, "nfile": 0}
    seen = {}
    sect = [""]
    where = {}

    class Missing(Exception):
        pass

    def ex(e):
        if not isinstance(e, list):
            return e
        if e and e[0] == "s" and e[1].startswith("@"):
            n = locs.get((st_["region"], e[1]))
            if n is None:
                raise Missing()
            return ["s", "G_" + n]
        if e and e[0] == "anon":
            c, d = e[1][0], len(e[1])
            have = seen.get((st_["file"], c), 0)
            i = have - d if c == "-" else have + d - 1
            lst = anons.get((st_["file"], c), [])
            if not 0 <= i < len(lst):
                raise Missing()
            return ["s", "G_" + lst[i]]
        if e and e[0] in ("n", "pc", "arg", "str"):
            return e
        return [ex(x) for x in e]

    def block(body):
        res = []
        for s in body:
            k = s[0]
            if k == "lst":
                st_["region"] += 1
                res.append(s)
            elif k == "label":
                if s[1].startswith("@"):
                    n = locs[(st_["region"], s[1])]
                    where[n] = sect[-1]
                    res.append(["label", n])
                else:
                    st_["region"] += 1
                    res.append(s)
            elif k == "anon":
                key = (st_["file"], s[1])
                n = anons[key][seen.get(key, 0)]
                seen[key] = seen.get(key, 0) + 1
                where[n] = sect[-1]
                res.append(["label", n])
                if len(s) > 2 and s[2]:
                    res.append(s[2])
            elif k == "section":
                sect.append(s[1])
                res.append([k, s[1], block(s[2])])
                sect.pop()
            elif k == "inc":
                keep = st_["file"]
                st_["nfile"] += 1
                st_["file"] = st_["nfile"]
                res += block(s[2])
                st_["file"] = keep
            elif k == "macro":
                res.append(s)
            else:
                res.append(ex(s))
        return res

    try:
        b = block(prog)
    except Missing:
        return None

    def full(e):
        if not isinstance(e, list):
            return e
        if e and e[0] == "s" and e[1].startswith("G_"):
            n = e[1][2:]
            return ["s", where[n] + "." + n if where[n] else n]
        return [full(x) for x in e]

    return full(b)


def enumerate_cases(tier):
    """More anonymous labels than the tables have room for at first."""
    for c in "+-":
        for n in (5100,) if tier == "quick" else (4899, 4901, 5001, 5100, 7000):
            yield {"many": c, "n": n}


def many(c, n):
    """n labels with a byte each, and jumps to the nearest and to more distant ones."""
    prog = [["org", gen.n(0x1000, "h")]]
    back = c == "-"
    for k in range(n):
        at = not k % 700 or abs(k - 4900) < 3 or k + 7 > n
        jumps = [["ins", "jmp", "v", ["anon", c * d]] for d in (1, 2, 6) if at and (d <= k + back if back else d <= n - k)]
        prog += ([] if back else jumps) + [["anon", c, ["ins", "nop", "", None]]] + (jumps if back else [])
    return prog


def check(case, env):
    if "many" in case:
        _, r = common.judge(many(case["many"], case["n"]), env)
        if r is None:
            raise AssertionError("no result")
        return {"nontrivial": True, "labels": ["many"]}
    prog = case["prog"]
    ref, r = common.judge(prog, env)
    if r is None:
        return {"labels": ["discarded"]}
    u = unique(prog)
    if ref is None:
        return {"labels": ["invalid"]}
    if u is None:
        raise AssertionError("the reference found a target")
    common.same(env, model.render(u), r, "unique labels instead of local and anonymous ones")
    locs = [s[1] for s in common.walk(prog) if s[0] == "label" and s[1].startswith("@")]
    deep = any(isinstance(e, str) and len(e) > 1 and set(e) <= {"+"} | {"-"} for e in strings(prog))
    lab = [k for k in ("inc", "section", "macro") if k in common.kinds(prog)]
    return {"nontrivial": len(locs) > len(set(locs)) or deep, "labels": lab + (["deep"] if deep else []),
            "sample": r.source["in.asm"]}


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, list):
        if x and x[0] == "anon" and len(x) == 2:
            yield x[1]
            return
        for y in x:
            yield from strings(y)
