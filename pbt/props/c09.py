"""C09: conditional assembly keeps exactly the selected text."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import fail

RULE = ("a program with .if/.ifdef/.ifndef blocks nested up to four deep at the top level, in loops, macros and sections; "
        "conditions over constants, variables, macro arguments and -d symbols; .ifdef of names defined earlier, later, "
        "by -d or never, include guards, conditional definitions. Text skipped by .ifdef is replaced by junk (unknown "
        "statements, unbalanced directives, conditionals, directive look-alikes in names, comments and strings). Compared "
        "with the reference assembler and with the program whose .ifdef blocks were replaced by hand. Non-trivial: a "
        "nested conditional")
BUDGET = {"quick": 9000, "thorough": 150000}
ASSUMPTIONS = ["an .ifdef inside a macro or a block is decided where it is read; names defined by the block it stands in "
               "are not tested there"]
JUNK = ["garbage (( here", "lda #", "   .byte 999, zzz(", ".org", "x_1 = = 4", ".macro junk1", ".endmacro", "bogus 1 2 3",
        ".for i = 1", ".next", ".wend", ".until", ".do", ".section", ".endsection", "; .endif", "// .else", "/* .endif */",
        "  .byte \".endif\"", "name.endif", "don't", "\"open", "\\9 \\1 @@ ~~ ``", ".inc \"missing.inc\"", ".load \"no\"",
        "lab.else nop", "a.if", ".end", ".word 1 ; .ifdef zz", "'", "", "   ", "* = ", "$$$", "end.if.x .byte 1",
        ".str \"a ; b\" ; .endif", ".str \"\\\" .endif\"", ".repeat", ".65c02 on", ".illegal on", ".c64", "- nop", "++"]
BALANCED = [[".if 1", "junk", ".endif"], [".ifdef q", "junk", ".else", "more", ".endif"],
            [".if zz(", ".else", ".endif"], [".ifndef k0", ".if 2", ".ifdef a", ".endif", ".else", ".endif", ".endif"],
            ["/* .endif", ".else */"], [".IF 1", ".ELSE", ".EndIf"], [".ifdef  a", ".endif;x", ".ifndef\tb", ".endif"],
            ["/* ** .endif ***/"], ["/**/", "/***/"]]


@st.composite
def cases(draw):
    g = gen.Program(draw, size=8, depth=4, **{"if": 7, "ifdef": 7, "for": 1, "while": 0, "repeat": 0, "do": 0, "label": 3,
                                              "ins": 4, "data": 4, "call": 2, "set": 2, "section": 1, "local": 0})
    defs = {}
    for k in range(draw(st.integers(0, 2))):
        defs["dd%d" % k] = draw(gen.VALUES)
    g.defnames = sorted(defs)
    prog = g.program()
    for k in range(draw(st.integers(0, 2))):
        pos = draw(st.integers(0, len(prog)))
        kind = draw(st.sampled_from(["guard", "guard", "cond", "ddif", "default", "absent", "absent"]))
        name = "gg%d" % k
        if kind == "guard":
            body = [["equ", name, gen.n(1), "="], ["data", ".byte", [["e", ["s", name]], ["e", gen.n(draw(st.integers(0, 255)))]]]]
            for _ in range(draw(st.integers(1, 3))):
                prog.insert(min(len(prog), pos + draw(st.integers(0, 3))), ["ifdef", 1, name, body,
                            draw(st.sampled_from([None, [["ins", "nop", "", None]]]))])
        elif kind == "cond":
            a, b = draw(gen.VALUES), draw(gen.VALUES)
            c = draw(st.sampled_from([gen.n(0), gen.n(1), gen.n(77)]))
            prog.insert(pos, ["if", c, [["equ", name, gen.n(a), "="]], draw(st.sampled_from([None, [["equ", name, gen.n(b), ".equ"]]]))])
            prog.insert(draw(st.integers(pos + 1, len(prog))),
                        ["ifdef", draw(st.integers(0, 1)), name, [["ins", "tax", "", None]], [["ins", "tay", "", None]]])
        elif kind == "default":
            # default values for symbols that -d may define
            name = draw(st.sampled_from(["dd0", "dd1"]))
            prog.insert(0, ["ifdef", 1, name, [["equ", name, gen.n(draw(gen.VALUES)), "="]], None])
            prog.append(["data", ".word", [["e", ["s", name]]]])
        elif kind == "absent":
            # the branch that is not selected uses names that exist nowhere
            absent = [draw(st.sampled_from([
                ["ins", "lda", "v", ["s", "absent"]], ["ins", "lda", "#", ["u", "<", ["s", "absent"]]],
                ["ins", "sta", "v,x", ["bin", "+", ["s", "absent"], gen.n(1)]], ["ins", "jmp", "v", ["s", "absent"]],
                ["ins", "bne", "v", ["s", "absent"]], ["data", ".word", [["e", ["s", "absent"]]]],
                ["data", ".byte", [["e", ["u", ">", ["s", "absent"]]]]], ["fill", gen.n(0), ["s", "absent"]],
                ["equ", "gone", ["s", "absent"], "="], ["ins", "ldx", "v", ["s", "secz.absent"]],
                ["if", ["s", "absent"], [["ins", "dex", "", None]], None]])) for _ in range(draw(st.integers(1, 3)))]
            kept = draw(st.sampled_from([None, [["ins", "inx", "", None]], [["data", ".byte", [["e", gen.n(k)]]]]]))
            prog.insert(pos, ["if", draw(st.sampled_from([gen.n(1)] + [["s", z] for z in sorted(g.late) if g.late[z]])), kept, absent]
                        if kept and draw(st.booleans()) else ["if", gen.n(0), absent, kept])
        elif defs:
            d = draw(st.sampled_from(sorted(defs)))
            prog.insert(pos, ["if", ["bin", "==", ["s", d], gen.n(draw(st.sampled_from([defs[d], 5])))],
                              [["data", ".word", [["e", ["s", d]]]]], [["data", ".byte", [["e", gen.n(8)]]]]])
    junk = [draw(st.sampled_from(JUNK + [None])) or draw(st.sampled_from(BALANCED)) for _ in range(draw(st.integers(0, 5)))]
    keep = draw(st.booleans())
    return {"prog": prog, "defs": defs, "junk": junk, "keep": keep}


class Junk(model.Render):
    """Replaces the text skipped by .ifdef. seen records, per .ifdef in rendering order, which branch is kept."""

    def __init__(self, chosen, junk, keep):
        model.Render.__init__(self)
        self.chosen, self.junk, self.keeptext = chosen, junk, keep
        self.skipping = False

    def stmt(self, s):
        if s[0] != "ifdef" or self.skipping or id(s) not in self.chosen:
            return model.Render.stmt(self, s)
        first = self.chosen.get(id(s))
        self.put((".ifndef " if s[1] else ".ifdef ") + s[2])
        self.part(s[3], first is True)
        if s[4] is not None:
            self.put(".else")
            self.part(s[4], first is False)
        self.put(".endif")

    def part(self, body, kept):
        if kept:
            self.block(body)
            return
        if self.keeptext:
            self.skipping = True
            self.block(body)
            self.skipping = False
        for j in self.junk:
            self.lines += [j] if isinstance(j, str) else j


class Watch(model.Ref):
    """Notes which branch each .ifdef takes; a block read several times must agree."""

    def run(self):
        self.chosen = {}
        model.Ref.run(self)

    def s_ifdef(self, s):
        n = s[2].lower()
        f = self.fullname(n)
        defined = n in self.defines or n in self.vars or f in self.vars or f in self.cur or n in self.cur
        first = defined != bool(s[1])
        if self.final:
            if self.chosen.setdefault(id(s), first) != first:
                raise model.Ambiguous("ifdef")
        self.block(s[3] if first else s[4] or [])


def flatten(body, chosen):
    res = []
    for s in body:
        if s[0] == "ifdef":
            first = chosen.get(id(s))
            if first is None:
                raise KeyError
            res += flatten(s[3] if first else s[4] or [], chosen)
        else:
            res.append([flatten(x, chosen) if isinstance(x, list) and x and isinstance(x[0], list) and x[0]
                        and isinstance(x[0][0], str) and x[0][0] in common.KINDS else x for x in s])
    return res


def depth(body, d=0):
    m = d
    for s in body:
        for x in s[1:]:
            if isinstance(x, list) and x and isinstance(x[0], list) and x[0] and isinstance(x[0][0], str) \
                    and x[0][0] in common.KINDS:
                m = max(m, depth(x, d + (s[0] in ("if", "ifdef"))))
    return m


def check(case, env):
    prog = case["prog"]
    args = []
    for k, v in sorted(case["defs"].items()):
        args += ["-d", k, str(v)]
    try:
        ref = Watch(prog, defines=case["defs"])
    except model.ModelError:
        ref = None
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    if ref is None:
        common.judge(prog, env, args, defines=case["defs"])
        return {"labels": ["invalid"]}
    r = Junk(ref.chosen, case["junk"], case["keep"])
    r.program(prog)
    _, res = common.judge(prog, env, args, files=r.files, ref=ref)
    lab = ["valid"]
    try:
        flat = flatten(prog, ref.chosen)
    except KeyError:
        flat = None
    if flat is not None and flat != prog:
        lab.append("flattened")
        common.same(env, model.render(flat), res, "with every .ifdef replaced by its branch", args)
    return {"nontrivial": depth(prog) > 1, "labels": lab, "sample": r.files["in.asm"]}
