"""C18: the command line options act independently and as documented."""
import os
import re

from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import assemble, describe, fail
from ..harness import Violation

RULE = ("a random program (with -d symbols in operands, conditions and .ifdef, .6502/.65c02/.illegal switches, undocumented and 65C02 instructions when "
        "the options allow them, relaxed branches and a file found through -dir) and a command line with a random subset "
        "of the options in random order, case and prefix between the inputs. Output, symbols and listing are compared with "
        "the reference and with the run that has only the options that matter, with -d as equates in front. A fifth of "
        "the cases have a duplicated option, a missing argument, no input or a file that cannot be written, which must "
        "fail. Non-trivial: five or more options, or an erroneous command line")
BUDGET = {"quick": 8000, "thorough": 140000}
ASSUMPTIONS = ["a -d symbol that the source also defines is not generated", "option arguments are well formed"]
FLAGS = ["v", "nowarn", "i", "c64"]
NAMES = ["def1", "Def2", "DEF_3", "_d4"]


class Prog(gen.Program):
    def k_mode(self, depth, top, args):
        """A switch in the source, which the options do not undo; instructions of the mode after it."""
        s = self.pick([".6502 on", ".65c02 on", ".illegal on", ".illegal off"])
        if s == ".illegal on" and self.cpu == "65c02":
            s = ".6502 on"
        if s.startswith(".ill"):
            self.ill = s == ".illegal on"
        else:
            self.cpu = s[1:-3]
        return [["dir", s]] + self.k_special(depth, top, args)

    def k_special(self, depth, top, args):
        tab = isa.table(self.cpu, self.ill)
        pool = [m for m in (isa.ONLY_CMOS if self.cpu == "65c02" else []) + (sorted(isa.ILLEGAL) if self.ill else [])
                if m in tab and (self.cpu != "65c02" or m not in isa.ILLEGAL)]
        pool = [(m, f) for m in pool for f in isa.FORMS if isa.mode_exists(tab, m, f) and not ("rel" in tab[m])]
        if not pool:
            return [self.ins(args)]
        m, f = self.pick(pool)
        v = self.i(0, 255) if isa.encode(tab, m, f, 0x1234, 0x1000) is None else self.draw(gen.VALUES)
        return [["ins", m, f, None if f == "" else gen.n(v)]]

    def k_def(self, depth, top, args):
        if not self.defs:
            return [["ifdef", self.i(0, 1), "nodef", [["ins", "inx", "", None]], [["ins", "iny", "", None]]]]
        d = self.pick(sorted(self.defs))
        k = self.i(0, 4)
        if k == 0 and top:
            return [["ifdef", self.i(0, 1), d, [["ins", "inx", "", None]], [["ins", "iny", "", None]]]]
        if k == 1:
            return [["if", ["bin", self.pick(["<", "==", ">="]), ["s", d], gen.n(self.i(0, 300))],
                     [["ins", "inx", "", None]], [["ins", "dey", "", None]]]]
        if k == 2:
            return [["ins", "lda", "v", ["s", d]]]
        return [["data", ".word", [["e", ["s", d]]]]]

    def k_far(self, depth, top, args):
        if not self.planned:
            return [self.ins(args)]
        return [["ins", self.pick(gen.BRANCH), "v", ["s", self.pick(self.planned)]], ["fill", gen.n(3), gen.n(self.i(100, 140))]]

    def kinds(self, top, depth, kinds):
        res = gen.Program.kinds(self, top, depth, kinds)
        if not top or self.scope or depth < self.depth:
            res = [k for k in res if k != "mode"]
        if self.inmacro and self.modes:
            res = [k for k in res if k != "special"]    # what it means depends on the mode at the call
        return res if top and depth > 0 else [k for k in res if k != "far"]


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    flags = draw(st.lists(st.sampled_from(FLAGS), unique=True, max_size=4))
    cpu = draw(st.sampled_from([None, None, "6502", "65c02"]))
    modes = draw(st.sampled_from([0, 2]))
    g = Prog(draw, size=8, depth=2, special=3, far=1, mode=modes, nmacros=1, section=1, print=1, **{"def": 4})
    g.cpu = cpu or "6502"
    g.modes = modes
    g.ill = "i" in flags
    g.defs = {n: draw(st.one_of(gen.VALUES, st.sampled_from([0, 1, 65535]))) for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=3))}
    prog = g.program()
    opts = list(flags)
    if cpu:
        opts.append(cpu)
    opts += ["d:" + n for n in g.defs]
    opts += draw(st.lists(st.sampled_from(["s", "l", "log", "dir"]), unique=True, max_size=4))
    # one file is only found through -dir
    incat = [i(0, len(prog)), i(0, 3)] if "dir" in opts and i(0, 1) else None
    opts.append("o")
    opts = draw(st.permutations(opts))
    second = i(0, len(prog)) if i(0, 3) == 0 else None
    return {"prog": prog, "opts": opts, "defs": g.defs, "spell": {n: i(0, 8) for n in g.defs},
            "style": [i(0, 5) for _ in opts], "where": sorted(i(0, len(opts)) for _ in range(2)), "second": second,
            "incat": incat,
            "bad": draw(st.sampled_from([None] * 16 + ["dup", "dup", "missing", "noinput", "unwritable"])), "which": i(0, 99)}


def style(o, k):
    o = ("-", "/")[k & 1] + o
    return o.upper() if k >> 1 == 1 else o.title() if k >> 1 == 2 else o


def number(v, k):
    return [str(v), "$%x" % v, "$%04X" % v, "0x%x" % v, "%" + bin(v)[2:], "0b" + bin(v)[2:], "0x%04X" % v, "%05d" % v, "0%d" % v][k]


ARG = {"o": "out.bin", "s": "out.sym", "l": "out.lst", "log": "out.log", "dir": "adir;bdir/"}


def check(case, env):
    prog, opts, defs = case["prog"], case["opts"], case["defs"]
    try:
        ref = model.Ref(prog, defines=defs, cpu="65c02" if "65c02" in opts else "6502", illegal="i" in opts, c64="c64" in opts)
    except (model.Ambiguous, model.ModelError):
        return {"labels": ["discarded"]}
    tree = list(prog)
    if case["incat"]:
        a, n = case["incat"]
        part = tree[a:a + n]
        tree[a:a + n] = [["inc", "part.inc", part]]
    pieces = [tree]
    if case["second"] is not None:
        k = min(case["second"], len(tree))
        pieces = [tree[:k], tree[k:]]
    files = {}
    inputs = []
    for k, p in enumerate(pieces):
        rr = model.Render()
        rr.files = files
        rr.program(p, "in%d.asm" % k)
        inputs.append("in%d.asm" % k)
    if "part.inc" in files:
        files["bdir/part.inc"] = files.pop("part.inc")
    groups = []
    for o, k in zip(opts, case["style"]):
        if o.startswith("d:"):
            n = o[2:]
            groups.append([style("d", k), n, number(defs[n], case["spell"][n])])
        else:
            groups.append([style(o, k)] + ([ARG[o]] if o in ARG else []))
    bad = case["bad"]
    if bad == "dup":
        k = case["which"] % len(groups)
        if opts[k].startswith("d:"):
            bad = None
        else:
            o = opts[k]
            if o in ("6502", "65c02"):
                o = ("6502", "65c02")[case["which"] & 1]
            at = (case["which"] * 7) % (len(groups) + 1)
            groups.insert(at, [style(o, case["which"] % 6)] + (["other." + o] if o in ARG else []))
    elif bad == "unwritable":
        k = [x for x in range(len(opts)) if opts[x] in ("o", "s", "l", "log")]
        groups[k[case["which"] % len(k)]][1] = "no/such/dir/file"
    if bad != "noinput":
        for n, w in reversed(list(zip(inputs, case["where"]))):
            groups.insert(min(w, len(groups)), [n])
    argv = [x for g in groups for x in g]
    if bad == "missing":
        o = ["o", "s", "l", "log", "dir", "d", "d"][case["which"] % 7]
        if o in opts:
            # the option itself goes last
            groups = [g for g in groups if g[0].lower()[1:] != o]
        argv = [x for g in groups for x in g] + [style(o, case["which"] % 6)] + (["def9"] if case["which"] % 14 == 6 else [])
    r = assemble(env, files, argv, (), out=False)
    if bad:
        if r.rc == 0:
            fail("%s: the run did not fail" % bad, files, r, args=argv)
        return {"nontrivial": True, "labels": [bad], "sample": "%s: %s" % (bad, " ".join(argv))}
    if r.rc != 0:
        fail("a valid command line was rejected", files, r, args=argv)
    if r.out != ref.out:
        fail("wrong output\nexpected %s" % ref.out.hex(" "), files, r, args=argv)
    for o, n in ARG.items():
        if o != "dir" and os.path.exists(os.path.join(env.scratch, n)) != (o in opts):
            fail("-%s: %s is %s" % (o, n, "missing" if o in opts else "written without being asked for"), files, r, args=argv)
    if "nowarn" in opts and re.search(rb"File \S+ near line", r.console):
        fail("a warning in spite of -nowarn", files, r, args=argv)
    # the run with only the options that matter; -d as equates in front
    args = ["-" + o for o in ("i", "c64") if o in opts] + (["-65c02"] if "65c02" in opts else [])
    if "dir" in opts:
        args += ["-dir", ARG["dir"]]
    r2 = assemble(env, files, args + ["-s", "out.sym", "-l", "out.lst"] + [x for n in sorted(defs) for x in ("-d", n, str(defs[n]))], inputs)
    if r2.rc != 0 or r2.out != r.out:
        fail("options that do not matter change the output (or these: %s)" % " ".join(argv), files, r2, args=args)
    if "s" in opts and r.sym != r2.sym:
        fail("options change the symbol file, compare %s" % " ".join(argv), files, r2, args=args)
    if "l" in opts and r.lst != r2.lst:
        fail("options change the listing, compare %s" % " ".join(argv), files, r2, args=args)
    files2 = dict(files)
    files2["in0.asm"] = "".join("%s = %d\n" % (n, defs[n]) for n in sorted(defs)) + files["in0.asm"]
    r3 = assemble(env, files2, args, inputs)
    if r3.rc != 0 or r3.out != r.out:
        fail("equates in front give another output than -d: %s" % " ".join(argv), files2, r3, args=args)
    return {"nontrivial": len(opts) >= 5, "labels": sorted(o.split(":")[0] for o in opts) + (["two inputs"] if len(inputs) > 1 else []) +
            (["through -dir"] if case["incat"] else []), "sample": " ".join(argv)}
