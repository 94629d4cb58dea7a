"""C28: a diagnostic points at the statement in error."""
import re

from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import assemble, fail

RULE = ("a random valid program, cut into included files and several inputs, with blank lines, comments (also over several "
        "lines), CRLF line ends and very long lines between its statements, and one error injected at a random place that is "
        "assembled: a malformed statement, unknown mnemonic, mode, option or macro (anywhere, also in macros, loops, "
        "sections and conditionals), or an operand, data value, division or missing .load file that can only be rejected when "
        "the statement is assembled. The first diagnostic must name the file of the statement; its line number must be the "
        "statement's (or the next: the error is seen at the end of the line), or lie within the outermost block or be that of "
        "the macro call for a statement assembled from one; the excerpt it shows must hold lines of that file under their "
        "right numbers, among them the line in error; and the count of errors at the end, if there is one, must be the number of diagnostics. With several errors, each "
        "diagnostic must point at one of them, and of several equal statements in error all or none are reported. "
        "A missing .inc file must be named. Non-trivial: every case with an injected error")
BUDGET = {"quick": 6000, "thorough": 100000}
ASSUMPTIONS = ["undefined symbols, conflicting definitions and unclosed blocks are not errors of one line and are reported "
               "without one: they are not generated here (C19 has them)",
               "the exact wording of the messages is not specified"]

# rejected by the parser
SYNTAX = ["bogus9 1", "lda ($10,y)", "lda 5 6", "lda (5", "lda 5)", "lda #,x", "lda 5,z", "lda 5,", ".byte", ".byte 1,,2", ".byte 1,", ".word",
          ".fill 1", ".fill 1, 2, 3", ".foo 5", "lda #$", "lda #%2", "lda [5]", "5", "nop 5", "rts #1", "nop nop", "mac9 1", "lda #'", '.byte "abc', ".org",
          "* =", ".var", ".str", "stx 5,,x", "lda ((5)", ".byte 1 2", "jmp", "beq", ".inc 5", ".load", ".if", ".for .regx 1 .to 2"]
# rejected when the statement is assembled
VALUE = ["lda #256", "ldx #$1ff", "cpy #65535", "lda ($100),y", "lda ($1234,x)", "lda 65536", "lda $12345,x", "jmp 70000", ".byte 256", ".byte 1, 300", ".db $100, 2",
         ".word 65536", ".word 1, $10000", ".str 65536", ".fill 256, 1", ".fill 1, -1", "lda #1 / 0", ".byte 4 / 0, 1", ".word 9 / (2 - 2)", "lda 5 / (3 - 3),x", ".fill 1, 4 / 0",
         ".print 5 / 0", '.load "missing9.bin"', "stx $1234,y"]
INC = ['.inc "missing9.inc"', '.inc "sub dir/missing9.inc"', '.inc "missing 9"']
MARK = "!!BAD!!"


class Ref(model.Ref):
    """Remembers from which statements the one in error is assembled."""
    paths = ()

    def one_pass(self):
        self.stack, self.paths = [], []
        return model.Ref.one_pass(self)

    def stmt(self, s):
        self.stack.append(s)
        model.Ref.stmt(self, s)
        self.stack.pop()

    def s_raw(self, s):
        if s[1] == MARK:
            self.paths.append(list(self.stack))


class Noisy(model.Render):
    """Blank and comment lines between the statements; remembers where each statement is."""
    noise = ()
    count = 0
    where = {}

    def program(self, prog, name="in.asm"):
        self.name = name
        return model.Render.program(self, prog, name)

    def stmt(self, s):
        k = Noisy.noise[Noisy.count % len(Noisy.noise)] if Noisy.noise else 0
        Noisy.count += 1
        self.lines.extend(NOISE[k])
        first = len(self.lines) + 1
        model.Render.stmt(self, s)
        Noisy.where[id(s)] = (self.name, first, len(self.lines))


NOISE = [[], [], [], [""], ["; a comment"], ["", "   ", "\t"], ["/* one", "   two lines */"], ["/*", "", "", "", "*/"], ["// c", "; /* not open"],
         ["/* .if 1 */"], ["; " + "x" * 100], ["; " + "long line " * 40], ["; " + "y" * 1500], ["/* ; */ ; // */"],
         ["/* "] + ["   line %d of a long comment" % k for k in range(200)] + ["*/"],
         ["; filler filler %d" % k for k in range(1300)]]


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    prog = gen.Program(draw, size=10, depth=3, section=2, nmacros=2, anon=1).program()
    kind = draw(st.sampled_from(["syntax"] * 4 + ["value"] * 5 + ["inc"]))
    text = draw(st.sampled_from({"syntax": SYNTAX, "value": VALUE, "inc": INC}[kind]))
    same = i(0, len(VALUE) - 1)
    return {"prog": prog, "kind": kind, "text": text, "at": [i(0, 99) for _ in range(2)], "cuts": [[i(0, 99), i(0, 99), i(0, 9)] for _ in range(i(0, 4))],
            "inputs": sorted(i(0, 99) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))), "noise": draw(st.lists(st.integers(0, len(NOISE) - 1), max_size=7)),
            "crlf": i(0, 4) == 0, "tail": i(0, 3),
            "more": [[i(0, 99), same if i(0, 1) else i(0, len(VALUE) - 1)] for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3, 5])))]}


BLOCKS = {"if": [2, 3], "for": [5], "while": [2], "repeat": [1], "do": [1], "reg": [5], "macro": [2], "section": [2], "ifdef": [3, 4], "inc": [2]}
TRANSPARENT = ("section", "ifdef", "inc")           # their statements are assembled one by one


def show(con, lines, at, files, r):
    """The excerpt holds lines of the file under their numbers, among them one of the statement."""
    excerpt = {}
    for l in con:
        if not re.match(r"\d+ *$", l[:5]) or l[5:7] != "  ":
            break
        excerpt[int(l.split(" ")[0])] = l
    for n, l in excerpt.items():
        if n > len(lines) or l[7:].rstrip() != lines[n - 1].rstrip():
            fail("line %d of the excerpt is not line %d of %s" % (n, n, at[0][0]), files, r)
    if not any(a <= n <= b for n in excerpt for _, a, b in at):
        fail("the excerpt does not show line %d" % at[0][1], files, r)


def check(case, env):
    import copy
    prog = copy.deepcopy(case["prog"])
    # the places where a statement may be put
    places = []

    def find(body):
        places.append(body)
        for s in body:
            for x in BLOCKS.get(s[0], ()):
                if s[x] is not None and (kind != "inc" or s[0] in TRANSPARENT):
                    find(s[x])

    kind = case["kind"]
    find(prog)
    a, b = case["at"]
    body = places[a % len(places)]
    bad = ["raw", MARK]
    at = b % (len(body) + 1)
    body.insert(at, bad)
    more = []
    for n, (a, b) in enumerate(case["more"] if kind == "value" else ()):
        more.append((["raw", "!!MORE%d!!" % n], VALUE[b]))
        prog.insert(a % (len(prog) + 1), more[-1][0])
    # files
    names = iter(["one.inc", "two.inc", "Three", "four.s"])
    for a, b, c in case["cuts"]:
        lists = []

        def where(bd):
            lists.append(bd)
            for s in bd:
                if s[0] == "section" or s[0] == "inc":
                    where(s[2])

        where(prog)
        bd = lists[a % len(lists)]
        k = b % (len(bd) + 1)
        bd[k:k + c] = [["inc", next(names), bd[k:k + c]]]
    try:
        ref = Ref(prog)
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    except model.ModelError:
        return {"labels": ["invalid"]}
    if not ref.paths:
        return {"labels": ["not assembled"]}
    ends = sorted(x % (len(prog) + 1) for x in case["inputs"]) + [len(prog)]
    if len(ends) > 1:
        # an anonymous label is not seen from another file
        try:
            model.Ref([["inc", "in%d.asm" % k, prog[a:b]] for k, (a, b) in enumerate(zip([0] + ends, ends))])
        except (model.Ambiguous, model.ModelError):
            return {"labels": ["invalid"]}
    Noisy.noise, Noisy.count, Noisy.where = case["noise"], 0, {}
    files, inputs, last = {}, [], 0
    for k, x in enumerate(ends):
        r = Noisy()
        r.files = files
        inputs.append("in%d.asm" % k)
        r.program(prog[last:x], inputs[-1])
        last = x
    where = [n for n in files if MARK in files[n]]
    if len(where) != 1:
        return {"labels": ["discarded"]}
    name = where[0]
    lines = files[name].split("\n")
    line = [k for k, l in enumerate(lines) if MARK in l][0] + 1
    files[name] = files[name].replace(MARK, " " + case["text"])
    for x, t in more:
        n = Noisy.where[id(x)][0]
        files[n] = files[n].replace(x[1], " " + t)
    for k in range(case["tail"]):
        files[inputs[-1]] += " nop\n"
    texts = files
    lines = files[name].split("\n")
    if case["crlf"]:
        files = {n: t.replace("\n", "\r\n") for n, t in files.items()}
    r = assemble(env, files, [], inputs)
    if r.rc == 0:
        fail("assembled in spite of the error %s" % case["text"], files, r)
    con = r.console.replace(b"\r", b"").decode("latin-1").split("\n")
    labels = [kind, "files %d" % len(files)]
    if kind == "inc":
        missing = case["text"].split('"')[1]
        if not any(missing in l for l in con):
            fail("the missing file is not named", files, r)
        return {"nontrivial": True, "labels": labels, "sample": common.text(files)}
    diags = [(k, m) for k, m in ((k, re.match(r"(.*) File (.*) near line (\d+)$", l)) for k, l in enumerate(con)) if m]
    if not diags:
        fail("the diagnostic names no line", files, r)
    expected = []                       # file, first and last line of the statements in error
    if kind == "value":
        # reported when the whole of the outermost block or call has been read
        outer = {id(x): x for x in ([x for x in p if x[0] not in TRANSPARENT][0] for p in ref.paths)}.values()
        labels.extend(sorted({x[0] for x in outer}))
        expected = [Noisy.where[id(x)] for x in list(outer) + [x for x, _ in more]]
        labels.append("errors %d" % len(expected))
    else:
        expected = [(name, line, line)]
    hit, sure = set(), set()
    for k, m in diags[:None if kind == "value" else 1]:
        got = int(m.group(3))
        at = [(n, a, b) for n, a, b in expected if n == m.group(2) and a <= got <= b + 1]
        if not at:
            fail("the errors are in %s, one is reported near line %d of %s" % (
                ", ".join("line %d to %d of %s" % (a, b, n) for n, a, b in expected), got, m.group(2)), files, r)
        hit.update(at)
        sure.update(at if len(at) == 1 else ())
        show(con[k + 1:], texts[m.group(2)].split("\n"), at, files, r)
    # statements are rejected in an early pass or when the output is written: the same ones together
    for x, t in more:
        n, a, b = Noisy.where[id(x)]
        if (n, a, b) not in hit and all(".fill" not in u for _, u in more) and ".fill" not in case["text"] and any(t == u and Noisy.where[id(y)] in sure for y, u in more):
            fail("the error in line %d of %s is not reported, another one with the same statement is" % (a, n), files, r)
    total = [l for l in con if re.match(r"\d+ error\(s\)", l)]
    if total and int(total[0].split(" ")[0]) != len(diags):
        fail("%d diagnostics, but %r" % (len(diags), total), files, r)
    return {"nontrivial": True, "labels": labels, "sample": common.text(files)}
