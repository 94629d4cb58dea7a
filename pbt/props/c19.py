"""C19: a program with an error is never reported as assembled."""
from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import assemble, fail

RULE = ("a random valid program, assembled as it is (exit status 0 and the reference's output) and with one error injected: "
        "an erroneous statement out of about 150 (undefined symbols in every kind of use, conflicting definitions of the "
        "program's own symbols, unknown mnemonics and modes, operands and data that do not fit, division by zero, "
        "malformed statements and blocks, missing files), at a random place, directly or inside a conditional, loop, "
        "macro, section or included file that is executed, or up to 1024 times in a row. The run must fail with a diagnostic. Non-trivial: every case "
        "with an injected error; distinct by program, error and place")
BUDGET = {"quick": 9000, "thorough": 160000}
ASSUMPTIONS = ["an error in text that is never assembled (skipped branches, uncalled macros) is not generated",
               "for malformed text the diagnostic only has to exist"]

U = "undef1"
LINES = {
    # undefined symbols in every kind of use
    "undefined": [
        "lda U", "lda U,x", "lda #U", "lda #<U", "lda #>U", "lda (U),y", "lda (U,x)", "jmp U", "jmp (U)", "jsr U + 1",
        "bne U", "sta U + 4", "lda 2 * U", "lda #-(U)", "lda #U & 1", "stx U,y", ".byte U", ".byte 1, U", ".byte <U",
        ".byte >U", ".word U", ".word 1, U, 2", ".word U - 1", ".dw U * 2", ".db U & 3", ".str U", ".text U", ".fill U, 2",
        ".fill 1, U", ".if U\n nop\n .endif", ".if U == 0\n nop\n .else\n nop\n .endif", "und9 = U", "und9 .equ U + 1",
        ".var und9 = U", ".var und9 = U + 1", ".print U", "? U + 1", "* = U", "jmp @undef", "bne @undef", ".word @undef",
        "jmp ++++++++++++++++++++++++++++++++++++++++", "jmp ----------------------------------------", "lda nosec.U",
        "lda nosec.in0", ".word nosec.U", "mac9 U", "mac9 1, U + 1", ".repeat\n nop\n .until U == 0 || 1",
        ".do\n nop\n .while U && 0", ".for .regx = U .to 9\n nop\n .next x", ".for .regy = 0 .to U\n nop\n .next y",
        ".var und9\n .for und9 = U .to 0\n nop\n .next und9", ".var und9\n .for und9 = 1 .to U - 9\n nop\n .next und9",
        ".section s9\nq9 = 1\n .endsection\n lda q9", ".section s9\nq9 = 1\n .section s8\n lda s9.s8.q9\n .endsection\n .endsection",
        ".ds U", ".macro mac8\n lda U\n .endmacro\n mac8", ".macro mac8\n lda \\1\n .endmacro\n mac8 U",
    ],
    "mnemonic": ["lad #1", "xyz 5", "ldd $10,x", "mvo (5),y", "lda.x 5", "bnq *", "jsrr $1000", "foo9 #1", "sta9 4", "brx #$10"],
    "operand": [
        "lda #256", "lda #$1ff", "ldx #65535", "lda #70000", "cpx #300", "lda ($100),y", "lda ($100,x)", "sta (65536),y",
        "stx $1234,y", "sty $100,x", "lda 65536", "lda $12345", "jmp 65536", "jsr 70000", "lda 65536,x", "lda 65535 + 1",
        "jmp (65536)", "lda #256 + 1", "lda #$100 | 5", "inc 99999", "lda big9 * 100", "lda #big9", "lda (big9),y", "sty big9,x",
    ],
    "data": [
        ".byte 256", ".byte 1, 300", ".db $100", ".byte 255 + 1", ".byte big9", ".byte 1, 2, big9", ".word 65536", ".word 1, $10000",
        ".dw 70000", ".dcw 65535 + 1", ".word big9 * 256", ".str 65536", ".text 99999", ".fill 256, 1", ".fill 1, -1", ".fill -1, 3", ".fill 300, 0",
        ".fill big9, 2", ".fill 1, 0 - 1", ".byte 4294967297", "lda #4294967296", ".word $100000000", "lda #$1ffffffff", ".byte 99999999999999999999999", "und9 = %100000000000000000000000000000000",
        "und9 = 65536", "und9 = -1", "und9 .equ 65535 + 1", "und9 = 300 * 300", "mac9 65536", "mac9 1, -1",
        ".for .regx = 0 .to 256\n nop\n .next x", ".for .regx = 256 .to 260\n nop\n .next x", ".for .regy = -1 .to 5\n nop\n .next y",
        ".for .regy = 300 .downto 5\n nop\n .next y",
    ],
    "division": [
        "lda #1 / 0", "lda 5 / (2 - 2)", ".byte 4 / 0", ".word 1, 9 / zero9", "und9 = 7 / zero9", ".fill 1, 4 / 0", ".if 1 / 0\n nop\n .endif",
        ".var und9 = 3 / zero9", ".print 5 / 0", "mac9 1 / zero9", "lda #0 * (5 / 0)", ".word (1 / zero9) & 0", "* = 9 / 0", ".str 1 / 0",
        "bne 5 / zero9", "lda (5 / zero9),y", ".repeat\n nop\n .until 1 / zero9", ".word 0 / zero9", "lda #(1 / 0) == 1",
    ],
    "malformed": [
        "lda #", "lda 5 +", "lda + 5", "lda 5 6", "lda (5", "lda 5)", "lda #,x", "lda 5,z", "lda 5,", "sta (5),x", "lda (5,y)", "lda ,x", ".byte",
        ".byte 1,,2", ".byte 1,", ".byte , 1", ".word", ".fill 1", ".fill", ".fill 1, 2, 3", ".org", "* =", "und9 =", "= 5", ".var", ".var 5", ".var q9 =",
        ".str", ".next", ".next x", ".endif", ".else", ".wend", ".until 1", ".endmacro", ".endsection\n .endsection\n .endsection\n .endsection\n .endsection",
        ".for", ".for und9", ".for und9 = 1", ".for .regx 1 .to 2\n nop\n .next x", ".for .regx = 1 .to 2\n nop\n .next y", ".section", ".foo 5", ".bite 5",
        ".inc", ".load", ".inc 5", ".illegal", ".6502", ".print off on", ".macro\n nop\n .endmacro", "lda #'", "lda #''", '.byte "abc', "lda #$", "lda #$xyz",
        "lda #%2", "lda #0b", "lda 5 5", "lda ((5)", "lda (5))", "lda [5]", "lda #5 *", "lda # * / / 2", "lda #1 & & 2", "lda #!5", "lda {5}", "#5", "5", "$10", "lda `5`",
        "lda #5 ^", ".byte 1 2", ".word 5;,\n ,6", "nop nop", "nop 5", "rts #1", "inx x", "tax a", "mac9 1,", "mac9 ,1", ".repeat\n nop\n .wend", ".do\n nop\n .until 1",
        ".if\n nop\n .endif", ".while\n nop\n .wend", ".ifdef\n nop\n .endif", ".ifndef 5 +\n nop\n .endif", ".if 1 nop .endif", '.inc "', '.load "x', "bne", "bcc #5", "beq (5)",
        "bvs 5,x", "lda", "jmp", "jmp #5", "jsr (5)", "bit #1", "sta #5", "inc #5", "lsr #5", "stx 5,x", "sty 5,y", "cpx 5,x", "ldx 5,x", "ldy 5,y", "jmp 5,x", "jsr 5,y",
    ],
    "unclosed": [".if 1", ".ifdef U", ".ifndef U", ".while 0", ".repeat", ".do", ".macro m9", ".for .regx = 1 .to 3", "/* never closed", ".if 1\n nop\n .else",
                 ".var und9\n .for und9 = 1 .to 3", ".section s9\n .if 1", ".macro m9\n .if 1\n .endmacro"],
    "file": ['.inc "missing9.inc"', '.load "missing9.bin"', '.inc "no/dir/x.inc"', '.load ""', '.inc ""'],
    "gating": ["slo $10", "lax 5,y", "rla ($10),y", "dcp $1000", "anc #4", "phx", "ply", "stz $10", "bra *", "trb 5", "lda ($10)", "inc a", "jmp ($1000,x)", "bit #5",
               ".illegal on\n .illegal off\n slo 5", ".65c02 on\n .6502 on\n phx"],
    "twice": ["dup9 = 5\ndup9 = 6", "dup9\n nop\ndup9\n nop", "dup9 nop\ndup9 = 9", "dup9 .equ 5\n nop\ndup9 .equ 4",
              ".section s9\ndup9 = 1\n .endsection\n .section s9\ndup9 = 2\n .endsection", "lab9\n@dup nop\n@dup nop\n jmp @dup",
              "lab9\n@dup nop\n@dup nop", ".macro m9\n@dup nop\n@dup nop\n jmp @dup\n .endmacro\n m9"],
    "place": [".org $5000\n .org $6000", ".for .regx = 1 .to 5\n .for .regx = 1 .to 5\n nop\n .next x\n .next x", "nop\n .ds 4\n nop", "nop\n .ds 1\n .byte 5",
              "nop\n .ds 2\n .fill 1, 4", "* = $3000\n .ds 2\n lda #1", "nomacro9 5", "nomacro9 1, 2"],
}
DEFS = ["big9 = 999", "zero9 = 0", " .macro mac9", " .byte 1", " .endmacro"]
WRAPS = ["", "", "", "", "if", "else", "for", "repeat", "do", "while", "macro", "section", "inc", "ifdef", "ifndef", "nest"]
# statements that only fail when the text around them allows it, or that name the wrapping's own parts
ALONE = {".next", ".next x", ".endif", ".else", ".wend", ".until 1", ".endmacro", "/* never closed"}


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    prog = gen.Program(draw, size=7, depth=2, section=1, nmacros=1, anon=1).program()
    kind = draw(st.sampled_from(sorted(LINES) + ["conflict", "mode", "none", "input"]))
    e = {"kind": kind}
    if kind in LINES:
        e["line"] = draw(st.sampled_from(LINES[kind]))
    elif kind == "conflict":
        e["which"] = i(0, 99)
        e["how"] = i(0, 3)
    elif kind == "mode":
        tab = isa.table("6502", False)
        m = draw(st.sampled_from(sorted(tab)))
        f = draw(st.sampled_from([f for f in isa.FORMS if f and not isa.mode_exists(tab, m, f)] or [""]))
        if f == "" or m in gen.BRANCH and f == "v":
            m, f = "sta", "#"
        e["line"] = isa.FORM_TEXT[f] % (m, draw(st.sampled_from(["$10", "$1234", "5", "300"])))
    return {"prog": prog, "err": e, "wrap": draw(st.sampled_from(WRAPS)), "at": i(0, 40),
            "times": draw(st.sampled_from([1] * 24 + [2, 3, 20, 255, 256, 257, 512]))}


def enumerate_cases(tier):
    """Every listed error, plainly and in one construct."""
    prog = [["org", gen.n(0x1000), "h"][:2], ["ins", "nop", "", None]]
    ws = sorted(set(WRAPS) - {""})
    k = 0
    for kind in sorted(LINES):
        for line in LINES[kind]:
            k += 1
            for w in ["", ws[k % len(ws)]] if tier == "quick" else [""] + ws:
                yield {"prog": prog, "err": {"kind": kind, "line": line}, "wrap": w, "at": 2}
    # the status is not the number of errors modulo something
    for kind, line in (("operand", "lda #256"), ("data", ".byte 300"), ("undefined", "lda U"), ("gating", "slo $10"), ("mnemonic", "xyz 5"),
                       ("division", ".byte 4 / 0"), ("malformed", "lda #")):
        for times in (2, 3, 127, 128, 255, 256, 257, 512, 1024):
            yield {"prog": prog, "err": {"kind": kind, "line": line}, "wrap": "", "at": 2, "times": times}


def wrapped(text, w, files):
    lines = [l if l[:1] in " @" or l.split(" ")[0].rstrip(":") in HEADS or "=" in l and l.split(" ")[0] in HEADS else " " + l
             for l in text.split("\n")]
    if w == "if":
        return [" .if 1"] + lines + [" .endif"]
    if w == "else":
        return [" .if 0", " nop", " .else"] + lines + [" .endif"]
    if w == "for":
        return [" .var wv9", " .for wv9 = 1 .to 2"] + lines + [" .next wv9"]
    if w == "repeat":
        return [" .repeat"] + lines + [" .until 1"]
    if w == "do":
        return [" .do"] + lines + [" .while 0"]
    if w == "while":
        return [" .var wv9 = 1", " .while wv9 > 0"] + lines + ["wv9 = wv9 - 1", " .wend"]
    if w == "macro":
        return [" .macro wrap9"] + lines + [" .endmacro", " wrap9"]
    if w == "section":
        return [" .section wrap9"] + lines + [" .endsection"]
    if w == "ifdef":
        return [" .ifdef big9"] + lines + [" .endif"]
    if w == "ifndef":
        return [" .ifdef nodef9", " nop", " .else"] + lines + [" .endif"]
    if w == "inc":
        files["wrap9.inc"] = "\n".join(lines) + "\n"
        return [' .inc "wrap9.inc"']
    if w == "nest":
        return [" .section wrap9", " .macro wrap9", " .if 1"] + lines + [" .endif", " .endmacro", " wrap9", " .endsection"]
    return lines


MANY = {"operand", "data", "undefined", "gating", "mnemonic", "division", "malformed", "mode"}
HEADS = {"und9", "dup9", "q9", "lab9", "=", "*"}


def check(case, env):
    prog, e = case["prog"], case["err"]
    ref, why = common.refer(prog)
    if ref is None:
        return {"labels": ["discarded"]}
    files = model.render(prog)
    kind = e["kind"]
    if kind == "none":
        common.judge(prog, env, files=files, ref=ref)
        return {"labels": ["valid"]}
    if kind == "input":
        r = assemble(env, files, inputs=("in.asm", "missing9.asm") if case["at"] & 1 else ("missing9.asm", "in.asm"))
        text = "missing input"
    else:
        w = case["wrap"]
        tops = None
        if kind == "conflict":
            # a second, different definition of one of the program's own symbols
            own = sorted((n, v) for n, v in model.flatten_symbols(ref).items())
            if not own:
                return {"labels": ["discarded"]}
            n, v = own[e["which"] % len(own)]
            short = n.rsplit(".", 1)[-1]
            text = ["%s = %d" % (short, v ^ 1), "%s .equ %d" % (short, (v + 256) & 0xFFFF),
                    "%s = %s ^ 1" % (short, v), "%s = * ^ %d" % (short, 1)][e["how"]]
            if e["how"] == 3:
                text = "%s = %d" % (short, v ^ 0x8000)
            lines = [text]
            for sec in reversed(n.split(".")[:-1]):
                lines = [" .section " + sec] + lines + [" .endsection"]
            if any(s[0] == "var" and short in [x[0] for x in s[1]] for s in common.walk(prog)):
                return {"labels": ["discarded"]}
        else:
            text = e["line"].replace("U", U) if kind in ("undefined", "unclosed") else e["line"]
            if kind == "place" and "$6000" not in text and "nomacro" not in text and w == "macro":
                w = ""
            if text in ALONE or kind == "unclosed" or text.startswith((".endsection", "* =")) or kind == "twice" and w != "macro":
                w = ""
            lines = wrapped(text, w, files)
            if kind in MANY and "\n" not in text:
                lines = lines * case.get("times", 1)
        # at the top level of the program, at its start or end when it has its own blocks
        body = [model.render([s])["in.asm"] for s in prog]
        at = case["at"] % (len(body) + 1)
        if kind == "unclosed" and ("while" in text or ".do" in text or "macro" in text or "/*" in text):
            # what follows could close the block
            at = len(body)
        if kind == "unclosed":
            at = len(body)
        new = "".join(body[:at]) + "\n".join(lines) + "\n" + "".join(body[at:])
        files["in.asm"] = "\n".join(DEFS) + "\n" + new
        r = assemble(env, files)
    if r.rc == 0:
        fail("assembled in spite of the error (%s): %s" % (kind, text), files, r)
    said = r.console.split(b"\n", 1)
    if len(said) < 2 or not said[1].strip():
        fail("failed without a diagnostic (%s): %s" % (kind, text), files, r)
    return {"nontrivial": True, "labels": [kind, "wrap " + (case["wrap"] or "none")], "sample": files["in.asm"]}
