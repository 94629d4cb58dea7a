"""C23: no input crashes, corrupts or hangs the assembler."""
import os
import re
import resource

from hypothesis import strategies as st

from .. import gen, harness, model
from ..asm import describe, spawn

RULE = ("run under AddressSanitizer and UndefinedBehaviorSanitizer: random programs with every construct with up to 12 random "
        "edits of their text (lines and tokens removed, doubled, moved, replaced by others or by directives, operators and "
        "odd literals, bytes changed, the text cut off), token soups, random bytes, nests of parentheses, conditionals, "
        "sections, macros and loops up to 400 deep, macros that call themselves, .end in loops, blocks of 40000 statements, very long names, strings, lines and lists, files that include "
        "themselves, several inputs of which one ends in the middle of a block or with an error, and random command lines, and directories and file names around and above the longest path. The run has to end with an exit status by itself. "
        "Non-trivial: three or more edits, or an input of another kind")
BUDGET = {"quick": 6000, "thorough": 150000}
FLAVOUR = "asan"
ASSUMPTIONS = ["a source whose assembly-time loops do not end (found with a time limit) is the user's, it is not counted",
               "32-bit overflow in expressions is not reported", "memory limit 2 GB per run"]

WORDS = """.byte .db .word .dw .dcw .str .text .string .fill .ds .org .equ = * == != <> <= >= < > << >> && || & | ^ + - / ~ not
! ( ) , : # @ @a \\1 \\2 \\9 \\0 \\ " ' ; // /* */ .if .else .endif .ifdef .ifndef .macro .mac .endmacro .endm .section .sect
.endsection .ends .for .to .downto .step .next .while .wend .repeat .until .do .var .print .printall ? ?? .inc .load .end
.6502 .65c02 .illegal .warn .c64 .c64 on off .print on .regx .regy .reg x y a A X Y lda ldx sta stx jmp jsr bne beq bra bbr0 nop
asl slo lax inc dec rmb7 .print off .illegal on .65c02 on .6502 on $ % 0b 0x $ffff $10000 %2 65535 65536 2147483647 4294967295
-1 -32768 'a' '\\n' "" "a" "abc" '' + - ++ -- lab0 lab1 v0 k0 mac0 sec1 sec1.in0 x.y.z a.b . .. .x undefined _ $zz 09 1e5
.endif .endmacro .endsection .wend .until 1 .next v0 .pagesize .lib .error""".split()
LOOPS = re.compile(rb"\.(while|repeat|do|for|until)", re.I)


class Prog(gen.Program):
    loops = True

    def k_string(self, depth, top, args):
        p = []
        for _ in range(self.i(0, 5)):
            k = self.i(0, 5)
            p.append(["c", self.pick("aB ;/,.*'-$(")] if k < 3 else ["e", self.pick("nrt\\\"'")] if k < 5 else ["x", "4142"])
        return [["data", self.pick([".byte", ".str", ".word"]), [["str", p]]]]

    def k_cpu(self, depth, top, args):
        return [["dir", self.pick([".6502 on", ".65c02 on", ".warn off", ".print off", ".illegal on", ".c64"])]]

    def k_inc(self, depth, top, args):
        self.nlabel += 1
        return [["inc", "part%d.inc" % self.nlabel, self.block(self.i(1, 3), depth - 1, True, args)]]

    def kinds(self, top, depth, kinds):
        res = gen.Program.kinds(self, top, depth, kinds)
        return [k for k in res if not (k == "cpu" and not top or k == "inc" and (not top or depth <= 0))]


edits = st.lists(st.tuples(st.integers(0, 13), st.integers(0, 1 << 20), st.integers(0, 1 << 20), st.integers(0, len(WORDS) - 1),
                           st.integers(0, 255)), max_size=12)
NAMES = ["a" * 5, "b" * 300, "c" * 5000, "x.y" * 40, "@" + "l" * 200, "_1"]


@st.composite
def nests(draw):
    i = lambda a, b: draw(st.integers(a, b))
    n = draw(st.sampled_from([1, 5, 20, 60, 120, 250, 400]))
    k = i(0, 20)
    m = n if i(0, 2) else max(0, n + i(-3, 3))
    return ["nest", k, n, m, i(0, 5)]


@st.composite
def paths(draw):
    """Long directories and long names of files, together around and above the limit of a path."""
    i = lambda a, b: draw(st.integers(a, b))
    dirs = [draw(st.one_of(st.integers(1, 20), st.integers(900, 1100), st.integers(3900, 4200), st.integers(2000, 9000))) for _ in range(i(1, 3))]
    k = i(0, 2)
    name = 4096 - dirs[-1] + i(-6, 6) if k == 0 else i(1, 5000) if k == 1 else i(1, 255)
    return [dirs, max(name, 1), i(0, 3), i(0, 3)]


OPTS = ["-o", "-s", "-l", "-log", "-d", "-dir", "-v", "-i", "-c64", "-nowarn", "-6502", "-65c02", "-?", "-h", "-t", "-yydebug", "/v", "-", "--",
        "-D", "-O", "-x", "-dir", "-d", "-v"]
VALS = ["in.asm", "out.bin", "out.lst", "", "x", "5", "$10", "0x1F", "%101", "sym=5", "sym", "70000", "-1", ".", "/nonexistent/f", "no/such.bin",
        "nofile.asm", "n" * 255, "n" * 4000, "%s%n%d", "sub;.", ";;;", "in.asm", "in.asm", "\xe9", "a b", "-", "=", "'c'", "\"s\"", "99999999999"]


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    k = i(0, 16)
    flags = [i(0, 1) for _ in range(5)]
    if k <= 8:
        loops = 1 if i(0, 3) == 0 else 0
        g = Prog(draw, size=8, depth=3, string=1, cpu=1, inc=1, section=2, anon=1, local=2, reg=loops, ds=1, pc=1, print=1, call=3,
                 **{"for": loops, "while": loops, "repeat": loops, "do": loops})
        return {"kind": "prog", "prog": g.program(), "edits": draw(edits), "flags": flags}
    if k <= 11:
        soup = draw(st.lists(st.tuples(st.integers(0, len(WORDS) - 1), st.integers(0, 5)), max_size=60))
        return {"kind": "soup", "soup": soup, "flags": flags}
    if k == 12:
        return {"kind": "bytes", "text": draw(st.binary(max_size=300)).decode("latin-1"), "flags": flags}
    if k == 14:
        return {"kind": "inputs", "inputs": [[i(0, len(HEADS) - 1), i(0, len(ERRS) - 1), i(0, len(TAILS) - 1), i(0, len(ENDING) - 1)]
                                             for _ in range(i(2, 4))], "flags": flags}
    if k == 13 and i(0, 2) == 0:
        return {"kind": "endless", "loop": [i(0, 6), i(0, len(FILLER) - 1), i(0, 3), i(0, 6), i(0, 1)], "flags": flags}
    if k == 13:
        return {"kind": "nest", "nest": draw(nests()), "edits": draw(edits)[:3], "flags": flags}
    if i(0, 3) == 0:
        return {"kind": "paths", "paths": draw(paths()), "flags": flags}
    args = draw(st.lists(st.one_of(st.sampled_from(OPTS), st.sampled_from(VALS)), max_size=9))
    return {"kind": "args", "args": args, "flags": flags}


def enumerate_cases(tier):
    """Every kind of nest in several depths, every loop without an end."""
    for kind in range(7):
        for b in range(len(FILLER)):
            for outer in range(6):
                if tier != "quick" or (kind + b + outer) % 6 == 0:
                    yield {"kind": "endless", "loop": [kind, b, (kind + b) % 4, outer, 0], "flags": [1, 1, 0, 0, 0]}
    for h in range(len(HEADS)):
        for e in range(len(ENDING)):
            yield {"kind": "inputs", "inputs": [[h, 0, 0, e], [15, 0, 0, e]], "flags": [1, 1, 1, 0, 0]}
            yield {"kind": "inputs", "inputs": [[h, 1, (h + e) % len(TAILS), e], [15, 0, 0, e]], "flags": [1, 0, 0, 0, 0]}
    for a in (1, 100, 1500, 2048, 3000, 3800, 4000, 4089, 4094, 4095, 4096, 4097, 5000):
        for n in (1, 4090 - a, 4093 - a, 4094 - a, 4095 - a, 4096 - a, 1500, 2048, 4000):
            for w in range(3):
                if n > 0:
                    yield {"kind": "paths", "paths": [[a], n, w, 0], "flags": [1, 0, 0, 0, 0]}
    for k in range(21):
        for w in range(6):
            for n in (1, 20, 400):
                yield {"kind": "nest", "nest": ["nest", k, n, n, w], "edits": [], "flags": [1, 1, 1, 0, 0]}


FILLER = [" nop", " .byte 1", " .word v0, v0", " lda $1234", ' .str "abc"', " .fill 1, 100", " m1", " .if 1\n nop\n .endif",
          "v0 = v0 + 1\n nop", " .ds 10", " bne *", " .byte 1\n .print v0", " .load \"b.inc\"", " .for v1 = 1 .to 3\n nop\n .next v1"]


def endless(spec):
    """A loop whose condition never ends it, and which emits something each time."""
    kind, body, before, outer, neg = spec
    head = " .org $%x\n .var v0, v1\n .macro m1\n inx\n .endmacro\n" % [0x1000, 0, 0xFF00, 0x801][before]
    b = FILLER[body] + "\n"
    t = [" .while 1\n%s .wend\n", " .do\n%s .while 1\n", " .repeat\n%s .until 0\n", " .for v0 = 1 .to 5 .step 0\n%s .next v0\n",
         " .while v1 < 5\n%s .wend\n", " .repeat\n%s .until v1 == 5\n", " .do\n%s .while v1 != 5\n"][kind] % b
    if neg:
        t = t.replace("1\n", "-1\n", 1) if kind < 2 else t
    if outer == 1:
        t = " .if 1\n" + t + " .endif\n"
    elif outer == 2:
        t = " .macro m2\n" + t + " .endmacro\n m2\n"
    elif outer == 3:
        t = " .section s\n" + t + " .endsection\n"
    elif outer == 4:
        t = " .repeat\n" + t + " .until 1\n"
    elif outer == 5:
        t = "lab jmp fwd\n" + t + "fwd rts\n"
    return head + t


def nest(spec):
    _, k, n, m, w = spec
    head = " .org $1000\n .var v0\nk0 = 1\n"
    if k == 0:
        return head + " .byte " + "(" * n + "1" + ")" * m + "\n"
    if k == 1:
        return head + " .if 1\n" * n + " nop\n" + " .endif\n" * m
    if k == 2:
        return head + " .ifdef k0\n" * n + " nop\n" + " .endif\n" * m
    if k == 3:
        return head + "".join(" .section s%d\n" % j for j in range(n)) + "l1 nop\n" + " .endsection\n" * m
    if k == 4:
        t = head + " .macro m0\n nop\n .endmacro\n"
        for j in range(1, n):
            t += " .macro m%d\n m%d\n .endmacro\n" % (j, j - 1)
        return t + " m%d\n" % max(n - 1, 0)
    if k == 5:
        return head + " .for v0 = 1 .to 1\n" * n + " nop\n" + " .next v0\n" * m
    if k == 6:
        return head + " .byte " + ["-", "~", "<", "not ", "-(", "1+"][w] * n + "1\n"
    if k == 7:
        return head + " .byte " + ",".join(str(j % 256) for j in range(n * 10)) + "\n"
    if k == 8:
        nm = NAMES[w]
        q = "q" + nm.strip("@.").replace(".", "_")
        return head + nm + " nop\n jmp " + nm + "\n .print " + nm + "\n .macro " + q + "\n nop\n.endmacro\n " + q + "\n " + q + "\n"
    if k == 9:
        return head + ' .byte "' + ["x", "\\n", "\\x41", ";", "\\\\", "\xff"][w] * n * 20 + '"\n .print "' + "%s" * n + '"\n'
    if k == 10:
        return head + "".join("L%d%s\n" % (j, [" nop", ":", " = 5", " jmp L%d" % (j + 1), " .byte <L0", " bne L0"][w]) for j in range(n * 2)) + \
            "L%d nop\n" % (2 * n)
    if k == 11:
        return head + " m1 " + ",".join("1" for _ in range(n)) + "\n .macro m1\n .byte \\%d\n .endmacro\n m1 " % n + ",".join("1" for _ in range(n)) + "\n"
    if k == 12:
        return head + "/*" * n + " x " + "*/" * m + "\n nop\n"
    if k == 13:
        return head + ["+ nop\n", "- nop\n", " bne +\n", " bne -\n", " bne " + "+" * 9 + "\n", "+\n bne -\n"][w] * n
    if k == 14:
        return head + ' .inc "in.asm"\n' if w < 3 else head + ' .inc "b.inc"\n'
    if k == 15:
        return head + " .macro m\n" * n + " nop\n" + " .endmacro\n" * m + " m\n"
    if k == 16:
        return head + "\n" * n + " " * n * 50 + "nop" + " " * n * 50 + ";" + "c" * n * 100 + "\n"
    if k == 18:
        return head + [" .repeat\n nop\n .end\n .until 0\n", " .do\n nop\n .end\n .while 1\n", " .while 1\n nop\n .end\n .wend\n",
                       " .for v0 = 1 .to 60000\n nop\n .end\n .next v0\n", " .macro m\n .repeat\n .end\n .until 0\n .endmacro\n m\n",
                       " .repeat\n .if v0 == 3\n .end\n .endif\nv0 = v0 + 1\n .until 0\n"][w] + "\n nop" * m + "\n"
    if k == 19:
        return head + [" .macro m\n m\n .endmacro\n m\n", " .macro m\n nop\n m\n m\n .endmacro\n m\n",
                       " .macro m\n n\n .endmacro\n .macro n\n m\n .endmacro\n m\n n\n",
                       " .macro m\n .if \\1\n m \\1-1\n .endif\n .endmacro\n m 5\n", " .macro m\n.if 0\n m\n .endif\n .endmacro\n m\n",
                       " .macro m\n" + " nop\n" * n + " m\n .endmacro\n m\n"][w]
    if k == 20:
        return head + [" .if 1\n", " .macro m\n", " .if 0\n", " .ifdef k0\n", " .macro m\n", " .repeat\n"][w] + "v0 = v0 + 1\n" * (n * n // 4) + \
            [" .endif\n", " .endmacro\n m\n", " .endif\n", " .endif\n", " .endmacro\n m\n m\n", " .until 1\n"][w]
    return head + " .section s\n" + "l0 nop\n" + " .endsection\n" * m + " .else\n" * w + " .endif\n" * (n % 3)


ENDING = [" .repeat\nV = V + 1\n .until V >= 3\n", " .while V < 3\nV = V + 1\n .wend\n", " .do\nV = V + 1\n .while V < 3\n",
          " .for V = 1 .to 3\n nop\n .next V\n", " .macro mV\n .repeat\n nop\nV = V + 1\n .until V >= 3\n .endmacro\n mV\n",
          " .if V == 0\n .while V < 2\n .byte V\nV = V + 1\n .wend\n .endif\n", " .while V == 0\n nop\nV = 1\n .wend\n",
          " .section sV\nlV nop\n .repeat\n jmp lV\nV = V + 1\n .until V == 2\n .endsection\n", "lV nop\n.ifdef lV\n .repeat\nV = V + 1\n .until V > 1\n.endif\n"]
HEADS = [" .macro bV\n", " .macro bV\n .repeat\n", " .repeat\n", " .do\n", " .do\n .do\n", " .while V > 2\n", " .for V = 1 .to 2\n", " .if 1\n",
         " .if 0\n nop\n .else\n", ".ifdef V\n", ".ifndef V\n", ".ifdef V\n.else\n", " .section bV\n", "/*\n", " .for .regx = 1 .to 4\n", "",
         " .macro\n", " .macro bV\n .endmacro\n .macro cV\n .do\n", ' .inc "err.inc"\n', ' .inc "mac.inc"\n', ' .inc "do.inc"\n', ' .byte "abc\n']
ERRS = ["", " bogus9 1\n", " lda #\n", " .endmacro\n", " .wend\n", " .endif\n", " nop\n .end\n", " )\n", "\\1\n"]
TAILS = ["", " .endmacro\n", " .endif\n", " .until V < 3\n", " .while V > 2\n", " .endsection\n", "*/\n", " .wend\n", " .next V\n", ".endif\n"]


def inputs(spec):
    """Several input files, some of which end in the middle of something; every loop in them ends."""
    res = {"err.inc": " bogus9 1\n nop\n", "mac.inc": " .macro incmac\n bogus9 1\n", "do.inc": " .do\n lda #\n"}
    for n, (head, err, tail, end) in enumerate(spec):
        if head in (3, 4) and end in (1, 5, 6):     # the .while would be the end of the .do, and that loop would have none
            end = 0
        t = " .org $1000\n" * (n == 0) + " .var V\n" + HEADS[head] + ERRS[err] + TAILS[tail] + " .var w\n" + ENDING[end].replace("V", "w")
        res["in%d.asm" % n] = re.sub(r"\bw\b", "w%d" % n, t.replace("V", "v%d" % n).replace("mw", "mw%d" % n).replace("sw", "sw%d" % n).replace("lw", "lw%d" % n))
    return res


TOK = re.compile(r'"[^"\n]*"|[.$%@\\]?\w+|\s+|.', re.S)


def edit(text, es):
    for op, a, b, w, c in es:
        lines = text.split("\n")
        n = len(lines)
        if op == 0:
            del lines[a % n]
        elif op == 1:
            lines.insert(a % n, lines[b % n])
        elif op == 2:
            lines[a % n], lines[b % n] = lines[b % n], lines[a % n]
        elif op == 3:
            lines.insert(a % n, "        " + WORDS[w] + " " + WORDS[b % len(WORDS)])
        elif op == 4:
            lines.insert(a % n, WORDS[w])
        elif op in (5, 6, 7, 8, 9):
            l = TOK.findall(lines[a % n])
            if l:
                k = b % len(l)
                if op == 5:
                    del l[k]
                elif op == 6:
                    l[k] = WORDS[w]
                elif op == 7:
                    l.insert(k, " " + WORDS[w] + " ")
                elif op == 8:
                    l.insert(k, l[a // 7 % len(l)])
                else:
                    del l[k:]
                lines[a % n] = "".join(l)
        text = "\n".join(lines)
        if op == 10 and text:
            k = a % len(text)
            text = text[:k] + chr(c) + text[k + b % 2:]
        elif op == 11 and text:
            text = text[:a % len(text)]
        elif op == 12:
            text = text.rstrip("\n")
        elif op == 13 and text:
            k = a % len(text)
            text = text[:k] + text[k + 1:]
    return text


ENV = None


def limits():
    global ENV
    if ENV is None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:hard_rss_limit_mb=2000:allocator_may_return_null=1:"
                   "handle_abort=1:handle_sigfpe=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="exitcode=77:print_stacktrace=1:abort_on_error=0")


def check(case, env):
    limits()
    kind = case["kind"]
    files = {"b.inc": ' nop\n .inc "in.asm"\n'}
    nontrivial = True
    if kind == "prog":
        files.update(model.render(case["prog"]))
        for k, n in enumerate(sorted(files)):
            if n != "b.inc":
                files[n] = edit(files[n], case["edits"] if n == "in.asm" else case["edits"][:2])
        nontrivial = len(case["edits"]) >= 3
    elif kind == "soup":
        t = "        "
        for w, sep in case["soup"]:
            t += WORDS[w] + [" ", " ", "", "\n        ", "\n", ","][sep]
        files["in.asm"] = t + "\n"
    elif kind == "bytes":
        files["in.asm"] = case["text"]
    elif kind == "endless":
        files["in.asm"] = endless(case["loop"])
    elif kind == "nest":
        files["in.asm"] = edit(nest(case["nest"]), case["edits"])
    elif kind == "inputs":
        files.update(inputs(case["inputs"]))
    elif kind == "paths":
        name = "n" * case["paths"][1]
        files["in.asm"] = " .org $1000\n" + [' .inc "%s"\n', ' .load "%s"\n', ' nop ;%s\n', ' .byte 1\n .inc "b.inc"\n .inc "%s"\n'][case["paths"][2]] % name
    else:
        files["in.asm"] = " .org $1000\n.ifdef sym\n nop\n.endif\nlab jmp lab\n"
    f = case["flags"]
    args = case.get("args")
    if args is None:
        args = ["-o", "out.bin"] * f[0] + ["-s", "out.sym"] * f[1] + ["-l", "out.lst"] * f[2] + ["-v"] * f[3] + ["-i"] * f[4] + (["in.asm"] if kind != "inputs" else
                                                                                      ["in%d.asm" % n for n in range(len(case["inputs"]))])
    if kind == "paths":
        sep = [";", "; ", ";", ";;"][case["paths"][3]]
        args = ["-dir", sep.join("d" * n for n in case["paths"][0])] + args
        if case["paths"][2] == 2:
            args[-1] = "n" * case["paths"][1]
    d = env.scratch
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    whole = b""
    for n, t in files.items():
        data = t.encode("latin-1")
        whole += data
        with open(os.path.join(d, n), "wb") as fp:
            fp.write(data)
    finite = kind == "nest" and case["nest"][1] in (18, 20) and not case["edits"] or kind in ("endless", "inputs")
    loops = LOOPS.search(whole) and not finite
    argv = [a.encode("latin-1") for a in args]
    rc, out = spawn([env.pasm] + argv, d, env=ENV, as_limit=False, cpu=2 if loops else 8)
    if rc == 77 and b"hard rss limit exhausted" in out:
        rc = -9
    if rc in (-24, -9):
        if loops:
            return {"labels": ["endless"]}
        raise harness.Violation("the assembler does not end\n" + describe(files, ["pasm"] + args), "hang")
    if kind == "endless" and rc == 0:
        raise harness.Violation("a loop without an end is assembled\n" + describe(files, ["pasm"] + args))
    if rc < 0 or rc == 77:
        text = out.decode("latin-1")
        k = max(text.find("ERROR: AddressSanitizer"), text.find("runtime error:"))
        raise harness.Violation("exit %d: %s\n%s" % (rc, text[max(k - 200, 0):k + 3000], describe(files, ["pasm"] + args)))
    return {"nontrivial": nontrivial, "labels": [kind, "%s exit %d" % (kind, rc)],
            "sample": files.get("in.asm", files.get("in0.asm", ""))[:3000] if kind != "args" else args}
