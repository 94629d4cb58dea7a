"""Reference model of the assembly language: AST, renderer, expression evaluator and assembler.

Everything here is written from the language as described in properties.jsonl, not from the passes of
the code under test: values are found as a fixpoint over the whole program.

Expressions (JSON lists)
  ["n", value, fmt]  literal; fmt d h H b B c(har)        ["s", name] symbol    ["pc"] *
  ["neg", e]  -e     ["u", op, e] op in < > ~ not         ["bin", op, l, r]
  ["par", e]  redundant parentheses                       ["arg", k] macro parameter
  ["anon", "--"]     anonymous label reference

Statements: see Ref.stmt / Render.stmt.
"""
from . import isa


class ModelError(Exception):
    """The program is invalid: the assembler must reject it."""


class Ambiguous(Exception):
    """More than one output is right, or the model does not decide; the case is not judged."""


PREC = {"<<": 2, ">>": 2, "||": 3, "&&": 3, ">=": 3, "<=": 3, "==": 3, "!=": 3, "<>": 3, ">": 3, "<": 3,
        "|": 4, "&": 4, "^": 4, "+": 5, "-": 5, "*": 6, "/": 6}
BINOPS = sorted(PREC)


def i32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def fits32(v):
    return -(1 << 31) <= v < (1 << 31)


def binop(op, a, b):
    """Value, or raises ModelError (division by zero) / Ambiguous (outside the defined range)."""
    if op == "+":
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        r = a * b
    elif op == "/":
        if b == 0:
            raise ModelError("division by zero")
        q = abs(a) // abs(b)
        r = q if (a < 0) == (b < 0) else -q
    elif op == "&":
        r = a & b
    elif op == "|":
        r = a | b
    elif op == "^":
        r = a ^ b
    elif op == "<<":
        if not 0 <= b <= 31 or a < 0:
            raise Ambiguous("shift")
        r = a << b
    elif op == ">>":
        if not 0 <= b <= 31:
            raise Ambiguous("shift")
        r = a >> b
    elif op == "&&":
        r = int(bool(a) and bool(b))
    elif op == "||":
        r = int(bool(a) or bool(b))
    elif op == "==":
        r = int(a == b)
    elif op in ("!=", "<>"):
        r = int(a != b)
    elif op == "<":
        r = int(a < b)
    elif op == ">":
        r = int(a > b)
    elif op == "<=":
        r = int(a <= b)
    elif op == ">=":
        r = int(a >= b)
    else:
        raise AssertionError(op)
    if not fits32(r):
        raise Ambiguous("overflow")
    return r


def unop(op, v):
    if op == "<":
        return v & 0xFF
    if op == ">":
        return (v >> 8) & 0xFF
    if op == "not":
        return int(not v)
    if op == "~":
        return ~v & (0xFF if 0 <= v <= 0xFF else 0xFFFF)
    raise AssertionError(op)


def evaluate(e, sym, pc=None, args=None, anon=None):
    """Value of e, None when it depends on something unknown yet."""
    k = e[0]
    if k == "n":
        return e[1]
    if k == "s":
        return sym(e[1])
    if k == "pc":
        return pc
    if k == "par":
        return evaluate(e[1], sym, pc, args, anon)
    if k == "arg":
        return args[e[1] - 1]
    if k == "anon":
        return anon(e[1])
    if k == "neg":
        v = evaluate(e[1], sym, pc, args, anon)
        return None if v is None else -v
    if k == "u":
        v = evaluate(e[2], sym, pc, args, anon)
        return None if v is None else unop(e[1], v)
    if k == "bin":
        a = evaluate(e[2], sym, pc, args, anon)
        b = evaluate(e[3], sym, pc, args, anon)
        if a is None or b is None:
            return None
        return binop(e[1], a, b)
    raise AssertionError(e)


def names_in(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == "s":
        acc.add(e[1])
    else:
        for x in e[1:]:
            if isinstance(x, list):
                names_in(x, acc)
    return acc


def literal(v, fmt):
    assert v >= 0
    if fmt[0] == "=":
        return fmt[1:]
    if fmt == "d":
        return str(v)
    if fmt == "h":
        return "$%x" % v
    if fmt == "H":
        return "$%04X" % v
    if fmt == "b":
        return "%" + bin(v)[2:]
    if fmt == "B":
        return "0b" + bin(v)[2:]
    if fmt == "c":
        return "'%s'" % chr(v)
    if fmt == "q":
        return '"%s"' % chr(v)
    raise AssertionError(fmt)


def expr_text(e, level=0, tail=True):
    """Text that the grammar parses back to e. level: loosest precedence allowed without parentheses;
    tail: nothing follows before the closing parenthesis (a prefix operator takes all that follows)."""
    k = e[0]
    if k == "n":
        return literal(e[1], e[2])
    if k == "s":
        return e[1]
    if k == "pc":
        return "*"
    if k == "arg":
        return "\\%d" % e[1]
    if k == "anon":
        return e[1]
    if k == "par":
        return "(" + expr_text(e[1]) + ")"
    if k == "neg":
        if e[1][0] == "n":
            return "-" + expr_text(e[1])
        return "-(" + expr_text(e[1]) + ")"
    if k == "u":
        t = expr_text(e[2], 0, True)
        t = e[1] + (" " if e[1] == "not" or t[0] in "<>=" else "") + t
        return t if tail else "(" + t + ")"
    if k == "bin":
        p = PREC[e[1]]
        wrap = p < level
        t = "%s %s %s" % (expr_text(e[2], p, False), e[1], expr_text(e[3], p + 1, tail or wrap))
        return "(" + t + ")" if wrap else t
    raise AssertionError(e)


def operand_text(e):
    """An operand that is not in parentheses must not look like an indirect one."""
    while e[0] == "par":
        e = e[1]
    return expr_text(e)


# ---------------------------------------------------------------- strings
ESC = {"n": 10, "r": 13, "t": 9, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, "'": 39, '"': 34}


def string_text(pieces):
    """pieces: [["c", "x"], ["e", "n"], ["x" or "X", "4142"]]"""
    s = ""
    for k, v in pieces:
        s += v if k == "c" else "\\" + v if k == "e" else "\\" + k + v
    return '"' + s + '"'


def string_bytes(pieces):
    b = bytearray()
    for k, v in pieces:
        if k == "c":
            b += v.encode("latin-1")
        elif k == "e":
            b.append(ESC[v.lower()])
        else:
            b += bytes.fromhex(v)
    return bytes(b)


def plain_string(s):
    return [["c", c] for c in s]


# ---------------------------------------------------------------- rendering
class Render:
    """Program to text. Overridable hooks are used by the lexical checks."""

    def __init__(self):
        self.files = {}
        self.lines = []

    def program(self, prog, name="in.asm"):
        self.lines = []
        self.block(prog)
        self.files[name] = "\n".join(self.lines) + "\n"
        return self.files

    def block(self, body):
        for s in body:
            self.stmt(s)

    def put(self, text, indent=True):
        self.lines.append(("        " if indent else "") + text)

    def item(self, it):
        return expr_text(it[1]) if it[0] == "e" else string_text(it[1])

    def ins(self, s):
        _, mnem, form, e = s
        if form == "":
            return mnem
        t = operand_text(e) if form in ("v", "v,x", "v,y") else expr_text(e)
        return isa.FORM_TEXT[form] % (mnem, t)

    def simple(self, s):
        """Text of a one-line statement, or None."""
        k = s[0]
        if k == "ins":
            return self.ins(s)
        if k == "data":
            return "%s %s" % (s[1], ", ".join(self.item(i) for i in s[2]))
        if k == "fill":
            return ".fill %s, %s" % (expr_text(s[1]), expr_text(s[2]))
        if k == "ds":
            return ".ds " + expr_text(s[1])
        if k == "org":
            return ".org " + expr_text(s[1])
        if k == "pc":
            return "* = " + expr_text(s[1])
        if k == "var":
            return ".var " + ", ".join(n if e is None else "%s = %s" % (n, expr_text(e)) for n, e in s[1])
        if k == "print":
            return "%s %s" % (s[1], ", ".join(self.item(i) for i in s[2])) if s[2] else s[1]
        if k == "call":
            return s[1] + (" " + ", ".join(expr_text(a) for a in s[2]) if s[2] else "")
        if k == "end":
            return ".end"
        if k == "load":
            return '.load "%s"' % s[1]
        if k == "dir":           # .6502 on, .illegal off, .print off ...
            return s[1]
        return None

    def stmt(self, s):
        k = s[0]
        t = self.simple(s)
        if t is not None:
            self.put(t)
        elif k == "label":
            self.put(s[1] + (":" if len(s) > 2 and s[2] else ""), False)
        elif k == "lst":         # label and statement on one line
            self.put(s[1] + (": " if s[2] else " ") + self.simple(s[3]), False)
        elif k == "anon":
            self.put(s[1] + (" " + self.simple(s[2]) if len(s) > 2 and s[2] else ""), False)
        elif k == "equ":
            self.put("%s %s %s" % (s[1], s[3], expr_text(s[2])), False)
        elif k == "set":
            self.put("%s = %s" % (s[1], expr_text(s[2])), False)
        elif k == "if":
            self.put(".if " + expr_text(s[1]))
            self.body(s[2])
            if s[3] is not None:
                self.put(".else")
                self.body(s[3])
            self.put(".endif")
        elif k == "ifdef":
            self.put((".ifndef " if s[1] else ".ifdef ") + s[2])
            self.block(s[3])
            if s[4] is not None:
                self.put(".else")
                self.block(s[4])
            self.put(".endif")
        elif k == "for":
            self.put(".for %s = %s .to %s" % (s[1], expr_text(s[2]), expr_text(s[3])) +
                     ("" if s[4] is None else " .step " + expr_text(s[4])))
            self.body(s[5])
            self.put(".next " + s[1])
        elif k == "while":
            self.put(".while " + expr_text(s[1]))
            self.body(s[2])
            self.put(".wend")
        elif k == "repeat":
            self.put(".repeat")
            self.body(s[1])
            self.put(".until " + expr_text(s[2]))
        elif k == "do":
            self.put(".do")
            self.body(s[1])
            self.put(".while " + expr_text(s[2]))
        elif k == "reg":
            self.put(".for .reg%s = %s .%s %s" % (s[1], expr_text(s[2]), s[4], expr_text(s[3])))
            self.body(s[5])
            self.put(".next " + s[1])
        elif k == "macro":
            self.put(".macro " + s[1])
            self.body(s[2])
            self.put(".endmacro")
        elif k == "section":
            self.put(".section " + s[1])
            self.block(s[2])
            self.put(".endsection")
        elif k == "inc":
            self.put('.inc "%s"' % s[1])
            if s[1] not in self.files:
                r = self.sub()
                r.program(s[2], s[1])
        elif k == "raw":
            self.put(s[1], False)
        else:
            raise AssertionError(s)

    def sub(self):
        r = type(self)()
        r.files = self.files
        return r

    def body(self, body):
        """Bodies must hold at least one line."""
        if not body:
            self.lines.append("")
        self.block(body)


def render(prog, name="in.asm"):
    r = Render()
    r.program(prog, name)
    return r.files


# ---------------------------------------------------------------- reference assembler
class End(Exception):
    pass


class Ref:
    """Assemble prog (a list of statements) to self.out, self.symbols, self.chunks, self.printed."""

    MAX_PASSES = 24
    MAX_BYTES = 60000
    MAX_STEPS = 60000

    def __init__(self, prog, defines=None, cpu="6502", illegal=False, c64=False, binfiles=None, near=True):
        self.prog = prog
        self.defines = {k.lower(): v for k, v in (defines or {}).items()}
        self.cpu0, self.illegal0, self.c64 = cpu, illegal, c64
        self.binfiles = binfiles or {}
        self.near = near
        self.symbols = {}
        self.declared = set()
        self.run()

    # -- passes
    def run(self):
        self.prev = {}
        self.later = self.ahead = False
        self.tainted = set()
        self.settle()
        if self.later:
            self.unique()
        self.final = True
        self.prev = self.cur
        self.one_pass()
        self.final = False
        self.symbols = self.cur
        self.layout()

    def unique(self):
        """How much is emitted depends on symbols defined later: there may be several solutions, none of them the right one."""
        cur, chunks, first = self.cur, self.chunks, [c[:2] for c in self.chunks]
        for d in (1, 2, 3, 4, -1, -2, -3, -4, 60, 256):
            self.prev = {k: v if v is None else v + d for k, v in cur.items()}
            try:
                self.settle()
            except ModelError:
                raise Ambiguous("several solutions")
            if (self.cur, [c[:2] for c in self.chunks]) != (cur, first):
                raise Ambiguous("several solutions")

    def settle(self):
        last = None
        for _ in range(self.MAX_PASSES):
            self.one_pass()
            state = (self.cur, [c[:2] for c in self.chunks])
            if last == state:
                break
            last = state
            self.prev = self.cur
        else:
            raise Ambiguous("no fixpoint")

    def layout(self):
        out = bytearray()
        if (self.c64 or self.c64_seen) and self.chunks:
            a = self.chunks[0][0]
            out += bytes([a & 0xFF, a >> 8 & 0xFF])
        for _, b, _ in self.chunks:
            out += b
        self.out = bytes(out)

    final = False

    def one_pass(self):
        self.cur = {}
        self.chunks = []       # (address, bytes, source)
        self.nbytes = 0
        self.steps = 0
        self.printed = []
        self.vars = {}
        self.scope = ""
        self.last_label = ""
        self.macros = {}
        self.args = []
        self.calls = 0
        self.pc = 0x1000
        self.org_seen = False
        self.cpu, self.illegal = self.cpu0, self.illegal0
        self.c64_seen = False
        self.gap = self.placed = False
        self.anon_defs = {"-": [], "+": []}
        self.file = self.nfiles = 0
        self.reg_active = set()
        try:
            self.block(self.prog)
        except End:
            pass

    # -- symbols
    def fullname(self, name):
        n = name.lower()
        if n.startswith("@"):
            return self.last_label + "@@" + n
        if "." in n or not self.scope:
            return n
        return self.scope + "." + n

    def define(self, name, value):
        f = self.fullname(name)
        if self.final:
            if f in self.cur and self.cur[f] != value:
                raise ModelError("symbol %s defined twice" % name)
            if value is None or not 0 <= value <= 65535:
                raise ModelError("value of %s does not fit" % name)
        self.cur[f] = value
        return f

    def lookup(self, name):
        v = self.lookup1(name)
        f = self.fullname(name)
        n = name.lower()
        if n in self.tainted or f in self.tainted or not (n in self.vars or f in self.vars or n in self.cur or f in self.cur or n in self.defines):
            self.ahead = True
        if self.final and ((f in self.declared and f not in self.vars) or (v is None and name.lower() in self.declared)):
            raise Ambiguous("variable used before its declaration")
        if v is None and self.final:
            raise ModelError("undefined symbol " + name)
        return v

    def lookup1(self, name):
        n = name.lower()
        if n.startswith("@"):
            return self.prev.get(self.last_label + "@@" + n)
        k = self.varname(n)
        if k is not None and k == self.fullname(n):
            return self.vars[k]
        if self.scope and "." not in n:
            f = self.scope + "." + n
            if f in self.prev or f in self.cur:
                return self.prev.get(f, self.cur.get(f))
        if k is not None:
            return self.vars[k]
        if n in self.prev:
            return self.prev[n]
        if n in self.cur:
            return self.cur[n]
        if n in self.defines:
            return self.defines[n]
        return None

    def anon(self, text):
        kind, n = text[0], len(text)
        seen = len(self.anon_defs[kind])
        if kind == "-":
            # the n-th definition above
            i = seen - n
        else:
            i = seen + n - 1
        if i < 0:
            raise ModelError("no such anonymous label")
        v = self.prev.get("%s#%d#%d" % (kind, self.file, i))
        if v is None and self.final:
            raise ModelError("no such anonymous label")
        return v

    def ev(self, e):
        try:
            return evaluate(e, self.lookup, self.pc, self.args[-1] if self.args else (), self.anon)
        except ModelError:
            if self.final:
                raise
            return None

    def taint(self, name, e):
        """The value of a symbol; note if it depends on symbols defined later."""
        self.ahead = False
        v = self.ev(e)
        if self.ahead:
            self.tainted.add(name)
        return v

    def known(self, e, what):
        """A value that decides how much is emitted: 0 while it is not known."""
        self.ahead = False
        v = self.ev(e)
        self.later = self.later or self.ahead
        if v is None:
            if self.final:
                raise ModelError("%s is not known: %s" % (what, expr_text(e)))
            return 0
        return v

    # -- output
    def emit(self, b, src):
        if self.gap:
            raise ModelError("code after a reservation")
        if b:
            self.chunks.append((self.pc, bytes(b), src))
            self.pc += len(b)
            self.nbytes += len(b)
            if self.nbytes > self.MAX_BYTES or self.pc > 0x10000:
                raise Ambiguous("too big")

    # -- statements
    def block(self, body):
        for s in body:
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Ambiguous("too long")
            self.stmt(s)

    def stmt(self, s):
        getattr(self, "s_" + s[0])(s)

    def s_raw(self, s):
        pass

    def s_label(self, s):
        n = s[1]
        if not n.startswith("@"):
            self.define(n, self.pc)
            self.last_label = self.fullname(n)
        else:
            self.define(n, self.pc)

    def s_lst(self, s):
        self.s_label(["label", s[1]])
        self.stmt(s[3])

    def s_anon(self, s):
        k = s[1]
        self.cur["%s#%d#%d" % (k, self.file, len(self.anon_defs[k]))] = self.pc
        self.anon_defs[k].append(self.pc)
        if len(s) > 2 and s[2]:
            self.stmt(s[2])

    def s_equ(self, s):
        k = self.varname(s[1])
        if k is not None:
            self.vars[k] = self.taint(k, s[2])
            return
        v = self.taint(self.fullname(s[1]), s[2])
        self.define(s[1], v)

    def varname(self, name):
        """Variables belong to the section they are declared in."""
        n = name.lower()
        f = self.fullname(n)
        return f if f in self.vars else n if n in self.vars else None

    def s_set(self, s):
        k = self.varname(s[1])
        if k is None:
            raise Ambiguous("not a variable: it would be an equate")
        self.vars[k] = self.taint(k, s[2])

    def s_var(self, s):
        for n, e in s[1]:
            f = self.fullname(n)
            self.declared.add(f)
            self.vars[f] = 0
            if e is not None:
                self.vars[f] = self.taint(f, e)

    def s_ins(self, s):
        _, mnem, form, e = s
        tab = isa.table(self.cpu, self.illegal)
        if not isa.mode_exists(tab, mnem, form):
            raise ModelError("no such instruction or mode: %s %s" % (mnem, form))
        if form == "":
            self.emit(isa.encode(tab, mnem, "", None, self.pc), s)
            return
        v = self.ev(e)
        t = tab[mnem]
        if form == "v" and "rel" in t:
            self.branch(s, t["rel"], v)
            return
        if v is None:
            v = 0x7FFF if form != "#" else 0
            if form == "v,y" and "zpy" in t and "aby" not in t:
                v = 0
            b = isa.encode(tab, mnem, form, v, self.pc) or isa.encode(tab, mnem, form, 0, self.pc)
        else:
            b = isa.encode(tab, mnem, form, v, self.pc)
            if b is None:
                if self.final and -0x10000 < v < 0 and form != "#":
                    raise Ambiguous("negative address")
                if self.final:
                    raise ModelError("operand does not fit: %d" % v)
                b = isa.encode(tab, mnem, form, 0x7FFF, self.pc) or isa.encode(tab, mnem, form, 0, self.pc)
        self.emit(b, s)

    INVERSE = {0x10: 0x30, 0x30: 0x10, 0x50: 0x70, 0x70: 0x50, 0x90: 0xB0, 0xB0: 0x90, 0xD0: 0xF0, 0xF0: 0xD0}

    def branch(self, s, code, v):
        if v is None:
            self.emit(bytes([code, 0]), s)
            return
        d = v - (self.pc + 2)
        if self.final and not self.near and (110 <= d <= 150 or -150 <= d <= -110):
            raise Ambiguous("branch near its limit")
        if -128 <= d <= 127:
            self.emit(bytes([code, d & 0xFF]), s)
        elif code == 0x80:
            self.emit(bytes([0x4C, v & 0xFF, v >> 8 & 0xFF]), s)
        else:
            self.emit(bytes([self.INVERSE[code], 3, 0x4C, v & 0xFF, v >> 8 & 0xFF]), s)

    def s_data(self, s):
        d = s[1].lower()
        for it in s[2]:
            if it[0] == "str":
                b = string_bytes(it[1])
                if d in (".word", ".dw", ".dcw") and len(b) % 2:
                    b += b"\0"
                self.emit(b, s)
                continue
            v = self.ev(it[1])
            if d in (".byte", ".db"):
                if v is None:
                    v = 0
                elif not -254 <= v <= 255:
                    if self.final:
                        raise ModelError("byte value does not fit")
                self.emit(bytes([v & 0xFF]), s)
            elif d in (".word", ".dw", ".dcw"):
                if v is None:
                    v = 0
                elif not -65534 <= v <= 65535:
                    if self.final:
                        raise ModelError("word value does not fit")
                self.emit(bytes([v & 0xFF, v >> 8 & 0xFF]), s)
            else:
                if v is None:
                    v = 0x7FFF
                if v < 0 or v > 0xFFFF:
                    raise Ambiguous(".str value")
                self.emit(bytes([v]) if v < 256 else bytes([v & 0xFF, v >> 8]), s)

    def s_fill(self, s):
        v, n = self.ev(s[1]), self.known(s[2], ".fill count")
        if n < 0 or (v is not None and not 0 <= v <= 255):
            if self.final:
                raise ModelError(".fill out of range")
            n, v = 0, 0
        self.emit(bytes([v or 0]) * n, s)

    def s_ds(self, s):
        n = self.known(s[1], ".ds count")
        if n <= 0:
            if self.final:
                raise Ambiguous(".ds count")
            return
        self.pc += n
        # without an origin so far, the output starts after the reservation
        self.gap = self.gap or self.placed or bool(self.chunks)

    def s_org(self, s):
        if self.org_seen:
            raise ModelError(".org twice")
        self.org_seen = True
        self.pc = self.known(s[1], ".org")
        self.placed, self.gap = True, False

    def s_pc(self, s):
        self.pc = self.known(s[1], "* =")
        self.placed, self.gap = True, False

    def s_if(self, s):
        self.block(s[2] if self.known(s[1], ".if") else s[3] or [])

    def s_ifdef(self, s):
        n = s[2].lower()
        f = self.fullname(n)
        defined = n in self.defines or n in self.vars or f in self.cur or n in self.cur or n in self.macros
        if defined != bool(s[1]):
            self.block(s[3])
        else:
            self.block(s[4] or [])

    def s_for(self, s):
        v = self.varname(s[1])
        if v is None:
            raise ModelError("loop variable")
        step = 1 if s[4] is None else self.known(s[4], ".step")
        self.vars[v] = self.known(s[2], ".for")
        end = self.known(s[3], ".to")
        if step == 0:
            if self.final:
                raise Ambiguous("step 0")
            return
        while not ((self.vars[v] > end) if step > 0 else (self.vars[v] < end)):
            self.tick()
            self.block(s[5])
            self.vars[v] += step

    def s_while(self, s):
        while self.known(s[1], ".while"):
            self.tick()
            self.block(s[2])

    def s_repeat(self, s):
        while True:
            self.tick()
            self.block(s[1])
            if self.known(s[2], ".until"):
                break

    def s_do(self, s):
        while True:
            self.tick()
            self.block(s[1])
            if not self.known(s[2], ".while"):
                break

    def tick(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Ambiguous("too long")

    def s_reg(self, s):
        _, reg, a, b, direction, body = s
        a, b = self.known(a, "reg"), self.known(b, "reg")
        if reg in self.reg_active:
            raise ModelError("nested loop of the same register")
        if not (0 <= a <= 255 and 0 <= b <= 255):
            if not self.final:
                return
            raise ModelError("register loop bounds")
        if (a > b) if direction == "to" else (a < b):
            return
        self.reg_active.add(reg)
        x = reg == "x"
        self.emit(bytes([0xA2 if x else 0xA0, a]), s)
        top = self.pc
        self.block(body)
        self.reg_active.discard(reg)
        if a == b:
            return
        if direction == "to":
            self.emit(bytes([0xE8 if x else 0xC8]), s)
            if b == 255:
                self.branch(s, 0xD0, top)
            else:
                self.emit(bytes([0xE0 if x else 0xC0, b + 1]), s)
                self.branch(s, 0x90, top)
        else:
            self.emit(bytes([0xCA if x else 0x88]), s)
            if b == 0:
                raise Ambiguous("downto 0")
            self.emit(bytes([0xE0 if x else 0xC0, b]), s)
            self.branch(s, 0xB0, top)

    def s_macro(self, s):
        self.macros[s[1].lower()] = s[2]

    def s_call(self, s):
        m = self.macros.get(s[1].lower())
        if m is None:
            raise ModelError("unknown macro " + s[1])
        a = [self.ev(x) for x in s[2]]
        if self.final and not all(0 <= v <= 65535 for v in a):
            raise ModelError("argument does not fit")
        self.args.append(a)
        if len(self.args) > 60:
            raise Ambiguous("recursion")
        keep = self.last_label
        self.last_label = "%s::%d" % (s[1].lower(), self.calls)
        self.calls += 1
        self.block(m)
        self.last_label = keep
        self.args.pop()

    def s_section(self, s):
        keep = self.scope
        self.scope = self.scope + "." + s[1].lower() if self.scope else s[1].lower()
        self.block(s[2])
        self.scope = keep

    def s_print(self, s):
        line = b""
        for it in s[2]:
            if it[0] == "str":
                line += b" " + string_bytes(it[1])
            else:
                v = self.ev(it[1])
                line += self.print_value(v)
        if self.final:
            self.printed.append((s[1], line))

    @staticmethod
    def print_value(v):
        if v is None:
            return b"?"
        w = v & 0xFFFF
        return b" $%02X $%02X" % (w >> 8, w & 0xFF) if w & 0xFF00 else b" $%02X" % w

    def s_inc(self, s):
        # anonymous labels belong to the file, each time it is included
        keep = self.file, self.anon_defs
        self.nfiles += 1
        self.file, self.anon_defs = self.nfiles, {"-": [], "+": []}
        self.block(s[2])
        self.file, self.anon_defs = keep

    def s_load(self, s):
        data = self.binfiles.get(s[1])
        if data is None:
            raise ModelError("missing file")
        self.emit(data, s)

    def s_end(self, s):
        raise End()

    def s_dir(self, s):
        t = " ".join(s[1].lower().split())
        if t == ".6502 on":
            self.cpu = "6502"
        elif t == ".65c02 on":
            self.cpu = "65c02"
        elif t == ".illegal on":
            self.illegal = True
        elif t == ".illegal off":
            self.illegal = False
        elif t == ".c64":
            self.c64_seen = True
        elif t in (".warn on", ".warn off", ".print on", ".print off"):
            pass
        else:
            raise AssertionError(s)


def flatten_symbols(ref):
    """Names as the symbol file shows them (no local, anonymous or variable names)."""
    return {k: v for k, v in ref.symbols.items() if "@" not in k and "#" not in k}
