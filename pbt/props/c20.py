"""C20: layout, case and comments do not affect the result."""
import re

from hypothesis import strategies as st

from .. import common, gen, isa, model
from ..asm import assemble, fail

RULE = ("a random program with every construct, assembled as rendered and in one to three rewritings chosen by the case: "
        "letter case of every word and hex digit, blanks and tabs between tokens added or removed, indentation, trailing "
        "blanks, blank lines, ; and // comments at line ends and on their own lines, /* */ comments between tokens and "
        "over several lines, up to 32 kB of comments in front, CRLF per line, colons after labels and synonym directives. Output and symbol values must "
        "stay those of the first run, which are compared with the reference. Non-trivial: a rewriting with 20 or more "
        "changed places")
BUDGET = {"quick": 7000, "thorough": 120000}
ASSUMPTIONS = ["blanks are not removed where two operators would meet", "comment text is ASCII; the 0b prefix keeps its case",
               "* =, on/off directives and .ifdef/.ifndef name are units with blanks only in between"]
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|\$[0-9A-Fa-f]+|%[01]+|0b[01]+|[0-9]+|\\[0-9]+|\.?@?[A-Za-z_][\w.]*|\.6502 *on|'
                   r'\.65C02 *on|>=|<=|==|!=|<>|<<|>>|&&|\|\||\?\?|[-+]+|[ \t]+|.', re.I)
SYN = [[".byte", ".db"], [".word", ".dw", ".dcw"], [".str", ".text", ".string"], [".macro", ".mac"], [".endmacro", ".endm"],
       [".section", ".sect"], [".endsection", ".ends"], [".print", "?"], [".printall", "??"]]
SYNONYM = {x: g for g in SYN for x in g}
COMMENTS = ["x", " text", " lda #1", ' "string', " it's", " .endif", " .else", " .if 1", " .endmacro", " */ /* ", " ;; // ", " -", " @a", " \\1", " $ % &",
            " .inc \"x\"", " .wend", "", " = 5", " 100% \"ok\""]
BLOCKS = ["x", " text ", " ; ", " // ", ' " ', " ' ", " .endif ", "*", " ** ", " lda #1 ", " \\ ", " / ", ""]


class Prog(gen.Program):
    def k_string(self, depth, top, args):
        p = []
        for _ in range(self.i(2, 6)):
            k = self.i(0, 4)
            p.append(["c", self.pick("aB ;/,.*'-$(")] if k < 4 else ["e", self.pick("nrt\\\"'")])
        return [["data", self.pick([".byte", ".str", ".word"]), [["str", p]]]]

    def k_char(self, depth, top, args):
        return [["data", ".byte", [["e", ["n", self.pick([32, 47, 59, 65, 97, 42, 46, 34 + 1]), self.pick("cq")]]]]]

    def k_cpu(self, depth, top, args):
        return [["dir", self.pick([".6502 on", ".65c02 on", ".warn off", ".warn on", ".print off", ".print on"])]]

    def k_inc(self, depth, top, args):
        self.nlabel += 1
        return [["inc", "part%d.inc" % self.nlabel, self.block(self.i(1, 3), depth - 1, True, args)]]

    def kinds(self, top, depth, kinds):
        res = gen.Program.kinds(self, top, depth, kinds)
        return [k for k in res if not (k == "cpu" and not top or k == "inc" and (not top or depth <= 0))]


@st.composite
def cases(draw):
    g = Prog(draw, size=9, depth=3, string=2, char=1, cpu=1, inc=1, section=2, anon=1, local=2, reg=1, ds=1, pc=1, print=1)
    prog = g.program()
    i = lambda a, b: draw(st.integers(a, b))
    return {"prog": prog, "seeds": [i(0, 2 ** 30) for _ in range(i(1, 3))], "what": [i(1, 255) for _ in range(3)],
            "printall": i(0, 9) == 0}


WORDISH = re.compile(r"^[\w.$%@\\'\"?]")


class Rewriter:
    """Rewrites are decided by a small generator of its own, seeded by the case."""

    def __init__(self, seed, what):
        self.s = seed * 2654435761 % (1 << 32) or 1
        self.what = what
        self.n = 0

    def r(self, k):
        s = self.s
        s ^= s << 13 & 0xFFFFFFFF
        s ^= s >> 17
        s ^= s << 5 & 0xFFFFFFFF
        self.s = s
        return (s >> 7) % k

    def on(self, bit, k=2):
        return bool(self.what & bit) and self.r(k) == 0

    def case(self, w):
        k = self.r(4)
        self.n += 1
        return w.upper() if k == 0 else w.lower() if k == 1 else "".join(c.upper() if self.r(2) else c.lower() for c in w)

    def blank(self, optional):
        opts = [" ", "  ", "\t", " \t ", "      "]
        if self.on(2):
            self.n += 1
            if self.on(16, 4):
                return " /*" + BLOCKS[self.r(len(BLOCKS))] + "*/ "
            if optional and self.r(2):
                return ""
            return opts[self.r(len(opts))]
        return "" if optional is None else " "

    def line(self, text):
        toks = TOKEN.findall(text)
        # the rendered indentation goes
        indent = bool(toks) and toks[0].isspace()
        if indent:
            toks = toks[1:]
        while toks and toks[-1].isspace():
            toks.pop()
        if not toks:
            return text
        label = not indent
        if self.on(4) and label and toks[0][0] not in "+-" and not toks[0].startswith("."):
            nxt = [t for t in toks[1:] if not t.isspace()][:1]
            if nxt in ([], ) or nxt[0].isalpha() or nxt[0][0] == "." and nxt[0].lower() != ".equ":
                # label, not an equate, an assignment or a macro call
                self.n += 1
                toks.insert(1, ":")
            elif nxt == [":"]:
                k = toks.index(":")
                self.n += 1
                del toks[k]
                if k < len(toks) and not toks[k].isspace():
                    toks.insert(k, " ")
        first = True
        out = ""
        if self.on(2, 2):
            self.n += 1
            out += ["", " ", "\t", "          ", "\t\t "][self.r(5)]
        else:
            out += "        " if indent else ""
        prev = None
        for k, t in enumerate(toks):
            if t.isspace():
                a = prev or ""
                b = toks[k + 1]
                optional = not (WORDISH.match(a[-1:]) and WORDISH.match(b)) and not (a[-1:] in "+-*/|&<>=!~(?" and b[0] in "+-*/|&<>=!~?") \
                    and not (a[-1:] in "'\"" or b[0] in "'\"") and not first and a.lower() not in (".print", "?", "??", ".inc", ".load") \
                    and b[0] != "." and a != "*" and not (a[0] in "+-" and len(toks) and k == 1)
                if a[0] in "%" or b[0] == "%":
                    optional = False
                if a == "*" and k == 1:
                    out += ["", " ", "\t "][self.r(3)]
                elif a.lower() in (".ifdef", ".ifndef", ".warn", ".illegal", ".6502", ".65c02") or \
                        a.lower() == ".print" and b.lower() in ("on", "off"):
                    out += [" ", "\t", " \t "][self.r(3)]
                else:
                    out += self.blank(optional)
                continue
            first = False
            low = t.lower()
            if t[0] in "\"'":
                out += t
            elif t.startswith("0b"):
                out += t
            elif low == ".print" and [x.lower() for x in toks[k + 1:] if not x.isspace()] in (["on"], ["off"]):
                out += t
            elif low in SYNONYM and self.on(8):
                self.n += 1
                g = SYNONYM[low]
                x = g[self.r(len(g))]
                if x == "?" and (k + 1 < len(toks)) and not toks[k + 1].isspace():
                    x += " "
                out += self.case(x) if self.on(1) else x
            elif low == ".equ" and self.on(8):
                self.n += 1
                out += "="
            elif t in ("!=", "<>") and self.on(8):
                self.n += 1
                out += ["!=", "<>"][self.r(2)]
            elif t == "=" and self.on(8, 3) and prev and len([x for x in toks[:k] if not x.isspace()]) == 1:
                self.n += 1
                out += (" " if not out[-1:].isspace() else "") + ".equ" + (" " if k + 1 < len(toks) and not toks[k + 1].isspace() else "")
            elif re.match(r"^[.$@]?[A-Za-z_0-9]", t) and self.on(1):
                out += self.case(t)
            else:
                out += t
            prev = t
            if t in (",", "(") and self.on(2, 3) and not (t == "(" and k == 0):
                self.n += 1
                out += " " * (1 + self.r(2))
        if self.on(2, 3):
            out += [" ", "\t", "   "][self.r(3)]
        if self.on(16, 3):
            self.n += 1
            k = self.r(3)
            if k == 2:
                out += " /*" + BLOCKS[self.r(len(BLOCKS))] + "*/"
            else:
                out += [" ;", " //"][k] + COMMENTS[self.r(len(COMMENTS))]
        return out

    def extra(self, bodies):
        """Lines to insert."""
        self.n += 1
        k = self.r(5)
        if k == 0 or not self.what & 16:
            return [["", "   ", "\t"][self.r(3)]]
        if k == 1:
            return ["  " * self.r(4) + ";" + COMMENTS[self.r(len(COMMENTS))]]
        if k == 2:
            return ["  " * self.r(4) + "//" + COMMENTS[self.r(len(COMMENTS))]]
        if k == 3:
            return ["  " * self.r(3) + "/*" + BLOCKS[self.r(len(BLOCKS))] + "*/"]
        return ["/*" + BLOCKS[self.r(len(BLOCKS))]] + ["    lda #1 ; .endif \" '", ""][:self.r(3)] + [BLOCKS[self.r(len(BLOCKS))].rstrip("*") + "*/"]

    def file(self, text):
        out = []
        for l in text.split("\n")[:-1]:
            if self.on(32, 4):
                out += self.extra(0)
            out.append(self.line(l))
        if self.on(32, 2):
            out += self.extra(0)
        if self.what & 128 and self.r(8) == 0:
            # the lexer reads its input in pieces
            self.n += 1
            size = [8192, 16384, 32768][self.r(3)] - self.r(len(text) + 100)
            pad = []
            while size > 0:
                k = min(size, 40 + self.r(200))
                pad.append(";" + "p" * (k - 2))
                size -= k
            out = pad + out
        res = ""
        mode = self.r(3)
        for l in "\n".join(out).split("\n"):
            if self.what & 64 and (mode == 0 or mode == 1 and self.r(2)):
                self.n += 1
                res += l + "\r\n"
            else:
                res += l + "\n"
        return res


def check(case, env):
    prog = case["prog"]
    ref, r = common.judge(prog, env, sym=True)
    if ref is None:
        return {"labels": ["discarded"]}
    files = model.render(prog)
    sym = sorted((n.lower(), v) for n, v in common.parse_symbols(r.sym) or [])
    most = 0
    sample = None
    for seed, what in zip(case["seeds"], case["what"]):
        w = Rewriter(seed, what)
        new = {n: w.file(t) for n, t in sorted(files.items())}
        r2 = common.same(env, new, r, "rewritten", sym=True)
        if r2.rc == 0:
            s2 = sorted((n.lower(), v) for n, v in common.parse_symbols(r2.sym) or [])
            if s2 != sym:
                fail("symbols differ: %s, were %s" % (s2, sym), new, r2)
        if w.n > most:
            most, sample = w.n, new["in.asm"]
    return {"nontrivial": most >= 20, "labels": ["changes %d+" % (most // 40 * 40)], "sample": sample}
