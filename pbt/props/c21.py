"""C21: .print shows the final values in source order."""
import re

from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import assemble, fail

RULE = ("a random program with many .print, ?, .printall and ?? statements (no, one or several strings and values: forward "
        "references, labels, *, variables, macro arguments, negative and large values) at the top level, in loops, "
        "register loops, macros, conditionals, sections and included files; the console of the final pass is compared "
        "with the lines the reference assembler prints, those of the passes before with the .printall lines, and "
        "the output with that of the program without its prints. Non-trivial: four or more lines printed, one of them by "
        "a statement in a loop or macro")
BUDGET = {"quick": 8000, "thorough": 150000}
ASSUMPTIONS = ["a one-character string in .print is a number (its character's code) and not generated"]
STRINGS = st.one_of(gen.WORDS.map(gen.plain), st.sampled_from(["Pass 1", "on", "off", "hello, world", "lda #1", "100%", "%s%d", "a;b", "x//y",
                                                              "  two  ", "$12", "-1", ".print"]).map(gen.plain),
                    st.text(alphabet="abcXYZ %$;.", min_size=20, max_size=300).map(gen.plain))


class Prog(gen.Program):
    def k_print(self, depth, top, args):
        items = []
        for _ in range(self.i(0, 4)):
            k = self.i(0, 8)
            if k <= 2:
                items.append(["str", self.draw(STRINGS)])
            elif k <= 4 and self.vars:
                e = ["s", self.pick(self.vars)]
                if self.chance(2):
                    e = ["bin", self.pick("+-*"), e, self.lit(self.i(0, 300))]
                items.append(["e", e])
            elif k == 5:
                items.append(["e", self.pick([["neg", self.lit(self.draw(gen.VALUES))],
                                              ["bin", "+", gen.n(65535), self.lit(self.draw(gen.VALUES))],
                                              ["bin", "-", self.value(args), self.value(args)]])])
            else:
                items.append(["e", self.value(args)])
        return [["print", self.pick([".print", "?", ".print", ".printall", "??"]), items]]

    def k_inc(self, depth, top, args):
        self.nlabel += 1
        return [["inc", "part%d.inc" % self.nlabel, self.block(self.i(1, 3), depth - 1, True, args)]]

    def kinds(self, top, depth, kinds):
        if kinds and "if" in kinds:
            kinds = tuple(kinds) + ("print",)
        res = gen.Program.kinds(self, top, depth, kinds)
        return [k for k in res if not (k == "inc" and (not top or depth <= 0))]


@st.composite
def cases(draw):
    g = Prog(draw, size=10, depth=3, nvars=3, nmacros=3, print=12, inc=1, reg=1, section=1, local=1, fill=1, anon=1, call=4, **{"for": 2, "if": 2})
    return {"prog": g.program(), "lst": draw(st.booleans())}


MARK = re.compile(rb"(?m)^(Pass \d+|Final Pass)\n")


def strip(prog):
    """The program without its prints."""
    def f(b):
        res = []
        for s in b:
            if s[0] == "print":
                res.append(["raw", ""])
            else:
                res.append([f(x) if isinstance(x, list) and x and isinstance(x[0], list) and x[0] and isinstance(x[0][0], str)
                            and x[0][0] in common.KINDS else x for x in s])
        return res
    return f(prog)


def lines(printed, every):
    return b"".join(t + b"\n" for d, t in printed if not every or d in (".printall", "??"))


def check(case, env):
    prog = case["prog"]
    ref, why = common.refer(prog)
    if ref is None:
        return {"labels": ["discarded"]}
    files = model.render(prog)
    r = assemble(env, files, ["-v"], lst=case["lst"], merge=False)
    if r.rc != 0 or r.out != ref.out:
        fail("wrong output\nexpected %s" % ref.out.hex(" "), files, r)
    body, sep, rest = r.console.rpartition(b"\n%d bytes written to " % len(ref.out))
    parts = MARK.split(body)
    if not sep or len(parts) < 3 or parts[-2] != b"Final Pass":
        fail("no final pass on the console", files, r)
    drop = lambda t: re.sub(rb"(?m)^Current File .*\n", b"", t)
    want = lines(ref.printed, False)
    got = drop(parts[-1])
    if got != want:
        fail("final pass printed\n%r\nexpected\n%r" % (got, want), files, r)
    every = lines(ref.printed, True)
    passes = [drop(p) for p in parts[2:-2:2]]
    for k, p in enumerate(passes):
        if b" unresolved symbols " in p:
            break
        if p.count(b"\n") != every.count(b"\n") or k == len(passes) - 1 and p != every:
            fail("pass %d printed\n%r\nexpected the .printall lines\n%r" % (k + 1, p, every), files, r)
    # without -v the same lines in the same order
    r2 = common.same(env, files, r, "without -v", merge=False)
    head, _, tail = r2.console.partition(b"\n")
    everything = b"".join(passes) + want
    if b" unresolved symbols " not in everything and not tail.startswith((everything, b"\n" + everything)):
        fail("without -v the lines differ, expected\n%r" % everything, files, r2)
    common.same(env, model.render(strip(prog)), r, "without prints")
    n = want.count(b"\n")
    once = sum(1 for s in common.walk(prog) if s[0] == "print")
    return {"nontrivial": n >= 4 and (n > once or any(s[0] in ("macro", "for", "while", "repeat", "do") for s in common.walk(prog))),
            "labels": ["printed %d+" % (n // 10 * 10), "passes %d" % len(passes)], "sample": files["in.asm"]}
