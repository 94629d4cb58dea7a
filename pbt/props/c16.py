"""C16: the listing agrees with the output and the source."""
import re

from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import fail

RULE = ("a random program with comments, blank lines, macros, loops, conditionals, sections, reservations, origin changes, "
        "strings with any byte, .load, .fill, relaxed branches, included files (some twice, some whose names differ only in case), several inputs, sources of some thousand lines, undocumented or 65C02 instructions and .print "
        "off/on, assembled with -l. The addresses and bytes of the listing are compared with the reference's (emission by "
        "emission), the instruction or data text with the bytes, the source column with the files, and the output with "
        "that of a run without -l. Non-trivial: ten or more listed bytes")
BUDGET = {"quick": 8000, "thorough": 140000}
ASSUMPTIONS = ["the .print off and .print on lines themselves, and an .inc line between them, may or may not be listed",
               "a file included several times is listed with its source once"]
LINE = re.compile(r"^\$([0-9A-F]{4}): ((?:\$[0-9A-F]{2} )*\$[0-9A-F]{2})(?: +|$)(.*)$")


class Prog(gen.Program):
    def data(self, args=0):
        d = gen.Program.data(self, args)
        if self.chance(4):
            p = []
            for _ in range(self.i(2, 7)):
                k = self.i(0, 3)
                p.append(["c", self.pick("xy ';,$.")] if k < 2 else ["e", self.pick("nrt\\\"'")] if k == 2 else
                         ["x", "%02x" % self.i(0, 255)])
            # an escape must not run into a following digit
            d = ["data", self.pick([".byte", ".str", ".word", ".text"]), [["str", p]]]
        return d

    def k_comment(self, depth, top, args):
        return [["raw", self.pick(["; a comment", "// other", "/* block */", "        ; indented ; twice", "/* two",
                                   "; " + "long " * self.i(1, 40), "\t", "   "])]]

    def k_printoff(self, depth, top, args):
        b = self.block(self.i(1, 3), depth - 1, True, args)
        return [["dir", ".print off"]] + b + [["dir", ".print on"]]

    def k_load(self, depth, top, args):
        return [["load", "data%d.bin" % self.i(0, 2)]]

    def k_far(self, depth, top, args):
        if not self.planned:
            return [self.ins(args)]
        return [["ins", self.pick(gen.BRANCH), "v", ["s", self.pick(self.planned)]], ["fill", gen.n(3), gen.n(self.i(100, 140))]]

    def kinds(self, top, depth, kinds):
        res = gen.Program.kinds(self, top, depth, kinds)
        if not top or depth <= 0:
            res = [k for k in res if k not in ("printoff", "far")]
        if kinds is None and not top and self.inmacro:
            res = [k for k in res if k != "comment"]
        return res


@st.composite
def cases(draw):
    g = Prog(draw, size=12, depth=3, nmacros=2, nvars=2, load=1, comment=3, printoff=1, far=1, ds=1, pc=1, reg=1, data=5,
             blank=2, label=3)
    i = lambda a, b: draw(st.integers(a, b))
    cpu = [None, None, "65c02", "illegal"][i(0, 3)]
    if cpu == "65c02":
        g.cpu = cpu
    elif cpu:
        g.illegal = True
    prog = g.program()
    if cpu:
        # the command line chooses the instructions, or a statement in front
        prog.insert(0, ["dir", ".65c02 on" if cpu == "65c02" else ".illegal on"])
    for s in common.walk(prog):
        if s[0] == "raw" and s[1] == "/* two":
            s[1] = "/* two\n   lines */"
    cut = None
    if i(0, 2) == 0:
        cut = [i(0, 99), i(0, 6)]
    return {"prog": prog, "cut": cut, "twice": i(0, 5) == 0, "names": [draw(st.sampled_from(["part.inc", "one.inc", "AGAIN.INC", "IN0.asm"])),
                                                                     draw(st.sampled_from(["again.inc", "Part.inc", "In1.asm"]))], "second": i(0, 99) if i(0, 3) == 0 else None,
            "pad": draw(st.sampled_from([254, 255, 511, 998, 1000, 1001, 1500, 2500])) if i(0, 60) == 0 else 0,
            "bins": {"data%d.bin" % k: [i(0, 40), i(0, 255)] for k in range(3)}}


class Watch(model.Ref):
    def one_pass(self):
        self.on = True
        self.listed = []
        model.Ref.one_pass(self)

    def emit(self, b, src):
        a = self.pc
        model.Ref.emit(self, b, src)
        if b and self.on:
            self.listed.append((a, bytes(b), src, self.cpu, self.illegal))

    def s_dir(self, s):
        if s[1] == ".print off":
            self.on = False
        elif s[1] == ".print on":
            self.on = True
        else:
            model.Ref.s_dir(self, s)


def check(case, env):
    prog = case["prog"]
    bins = {k: bytes((b + 5 * j) & 255 for j in range(n)) for k, (n, b) in case["bins"].items()}
    tree = list(prog)
    cutname, twice = case.get("names", ["part.inc", "again.inc"])
    if case.get("pad"):
        # a long source: comment lines in front of something
        k = case["pad"] % (len(tree) + 1)
        prog = tree = tree[:k] + [["raw", "; %d" % x] for x in range(case["pad"])] + tree[k:]
        tree = list(tree)
    if case["cut"]:
        at = case["cut"][0] % (len(tree) + 1)
        n = min(case["cut"][1], len(tree) - at)
        tree[at:at + n] = [["inc", cutname, tree[at:at + n]]]
    if case["twice"]:
        part = [["data", ".byte", [["e", gen.n(7)]]], ["raw", "; again"], ["ins", "iny", "", None]]
        tree = tree + [["inc", twice, part], ["raw", "; between"], ["inc", twice, part]]
        prog = prog + part + part
    try:
        ref = Watch(prog, binfiles=bins)
    except (model.Ambiguous, model.ModelError):
        return {"labels": ["discarded"]}
    pieces = [tree]
    if case["second"] is not None:
        k = case["second"] % (len(tree) + 1)
        pieces = [tree[:k], tree[k:]]
    files = {}
    inputs = []
    for k, p in enumerate(pieces):
        rr = model.Render()
        rr.files = files
        rr.program(p, "in%d.asm" % k)
        inputs.append("in%d.asm" % k)
    _, r = common.judge(prog, env, inputs=inputs, files=files, lst=True, ref=ref, extra=bins)
    if r.lst is None:
        fail("no listing", files, r)
    text = r.lst.decode("latin-1")
    # bytes by address order of emission
    got = []
    sources = {}
    current = None
    for line in text.split("\n"):
        if line.startswith("; Processing "):
            current = line[13:].strip()
            continue
        m = LINE.match(line[:45])
        if line[:1] == "$":
            if not m:
                fail("listing line not understood: %r" % line, files, r)
            b = bytes(int(x[1:], 16) for x in m.group(2).split())
            got.append((int(m.group(1), 16), b, m.group(3).strip()))
        elif line[:45].strip():
            fail("listing line not understood: %r" % line, files, r)
        if current is not None:
            sources.setdefault(current, []).append(line[45:])
    want = [(a + k, x) for a, b, _, _, _ in ref.listed for k, x in enumerate(b)]
    flat = [(a + k, x) for a, b, _ in got for k, x in enumerate(b)]
    if flat != want:
        k = next((k for k, (x, y) in enumerate(zip(flat + [None], want + [None])) if x != y), min(len(flat), len(want)))
        show = lambda l: " ".join("%04X:%02X" % x for x in l[max(0, k - 2):k + 6])
        fail("the listing differs from the bytes emitted at entry %d:\n%s\n%s" % (k, show(flat), show(want)) + "\n" + text, files, r)
    modes = [(c, i) for _, b, _, c, i in ref.listed for _ in b]
    at = 0
    for a, b, t in got:
        at += len(b)
        if t.startswith(".db"):
            if shown_data(t) != b:
                fail("listed as %s but the bytes are %s\n%s" % (t, b.hex(" "), text), files, r)
        else:
            d = disasm(a, b, *modes[at - 1])
            if " ".join(t.lower().split()) not in d:
                fail("listed as %r but the bytes are %s (%s)\n%s" % (t, b.hex(" "), " or ".join(d), text), files, r)
    for name, expected in visible(pieces, files).items():
        lines = [x for x in sources.get(name, []) if x.strip()]
        k = 0
        for line, must in expected:
            if not line.strip() or must is False:
                continue
            if k < len(lines) and lines[k].rstrip("\r") == line:
                k += 1
            elif must:
                fail("%s: source line %r is missing from the listing (next is %r)\n%s" %
                     (name, line, lines[k] if k < len(lines) else None, text), files, r)
        if k < len(lines):
            fail("%s: the listing has the line %r out of place\n%s" % (name, lines[k], text), files, r)
    common.same(env, dict(files, **bins), r, "without a listing", inputs=inputs)
    ks = common.kinds(prog)
    return {"nontrivial": len(flat) >= 10, "labels": sorted(ks & {"call", "for", "section", "load", "ds", "pc", "dir", "reg"}) +
            (["inc"] if case["cut"] else []), "sample": files["in0.asm"] + "\n" + text}


def visible(pieces, files):
    """file -> [(line, whether it must be listed, None if it may be)]"""
    res = {}
    state = {"on": True, "end": False}
    done = set()

    def go(body, name):
        """Lines of this file in the order of the statements, by rendering each statement."""
        acc = res.setdefault(name, [])
        first = name not in done
        done.add(name)
        for s in body:
            if s[0] == "dir" and s[1].startswith(".print"):
                state["on"] = s[1] == ".print on"
                if first:
                    acc.append(("        " + s[1], None))
                continue
            if s[0] == "section":
                if first:
                    acc.append(("        .section " + s[1], state["on"]))
                sub(s[2], acc, first)
                if first:
                    acc.append(("        .endsection", state["on"]))
                continue
            if first:
                for l in lines_of(s):
                    acc.append((l, state["on"] or (None if s[0] == "inc" else False)))
            if s[0] == "inc":
                go(s[2], s[1])

    def sub(body, acc, first):
        for s in body:
            if s[0] == "dir" and s[1].startswith(".print"):
                state["on"] = s[1] == ".print on"
                if first:
                    acc.append(("        " + s[1], None))
            elif s[0] == "section":
                if first:
                    acc.append(("        .section " + s[1], state["on"]))
                sub(s[2], acc, first)
                if first:
                    acc.append(("        .endsection", state["on"]))
            else:
                if first:
                    for l in lines_of(s):
                        acc.append((l, state["on"] or (None if s[0] == "inc" else False)))
                if s[0] == "inc":
                    go(s[2], s[1])

    for k, p in enumerate(pieces):
        go(p, "in%d.asm" % k)
    return res


def lines_of(s):
    rr = model.Render()
    rr.files = {s[1]: ""} if s[0] == "inc" else {}
    rr.lines = []
    rr.stmt(s)
    return "\n".join(rr.lines).split("\n")


def shown_data(t):
    t = t[3:].strip()
    res = bytearray()
    k = 0
    while k < len(t):
        if t[k] == "$":
            res.append(int(t[k + 1:k + 3], 16))
            k += 3
        elif t[k] == "'" and t[k + 2:k + 3] == "'":
            res.append(ord(t[k + 1]))
            k += 3
        else:
            return None
        if k < len(t):
            if t[k:k + 2] != ", ":
                return None
            k += 2
    return bytes(res)


def _table(cpu, illegal):
    codes = {}
    for m, modes in isa.table(cpu, illegal).items():
        for mode, c in modes.items():
            codes.setdefault(c, []).append((m, mode))
    return codes


TEXT = {"imp": "", "imm": " #$%02x", "zp": " $%02x", "zpx": " $%02x,x", "zpy": " $%02x,y", "izx": " ($%02x,x)",
        "izy": " ($%02x),y", "izp": " ($%02x)", "abs": " $%04x", "abx": " $%04x,x", "aby": " $%04x,y", "ind": " ($%04x)",
        "aix": " ($%04x,x)"}


def disasm(a, b, cpu, illegal):
    """All texts the bytes may be listed as."""
    res = []
    for m, mode in _CODES[cpu, illegal].get(b[0], []):
        if mode == "rel":
            if len(b) == 2:
                res.append("%s $%04x" % (m, (a + 2 + (b[1] ^ 128) - 128) & 0xFFFF))
            continue
        t = TEXT[mode]
        v = b[1:]
        if len(v) != (0 if "%" not in t else 2 if "04" in t else 1):
            continue
        if v:
            t = t % int.from_bytes(v, "little")
        res.append(m + t)
        if not v:
            res.append(m + " a")
    return res


_CODES = {(c, i): _table(c, i) for c in ("6502", "65c02") for i in (False, True)}
