"""A small 6502 interpreter (documented instructions, binary mode), written from the data sheet."""
from . import isa


class Stop(Exception):
    pass


OPS = isa.by_opcode("6502")


class Cpu:
    def __init__(self, memory, pc):
        self.m = memory
        self.pc = pc
        self.a = self.x = self.y = 0
        self.sp = 0xFF
        self.n = self.z = self.c = self.v = False
        self.d = self.i = False
        self.log = []           # (address, value, x, y) of every store at or above $F000

    def nz(self, v):
        v &= 0xFF
        self.n, self.z = v >= 0x80, v == 0
        return v

    def store(self, addr, v):
        if addr >= 0xF000:
            self.log.append((addr, v, self.x, self.y))
        else:
            self.m[addr] = v

    def word(self, a):
        return self.m[a & 0xFFFF] | self.m[(a + 1) & 0xFFFF] << 8

    def step(self):
        op = self.m[self.pc]
        if op not in OPS:
            raise Stop("opcode %02x at %04x" % (op, self.pc))
        name, mode, size = OPS[op]
        arg = self.m[(self.pc + 1) & 0xFFFF] if size == 2 else self.word(self.pc + 1) if size == 3 else None
        self.pc = (self.pc + size) & 0xFFFF
        addr = None
        if mode in ("zp", "abs"):
            addr = arg
        elif mode == "zpx":
            addr = (arg + self.x) & 0xFF
        elif mode == "zpy":
            addr = (arg + self.y) & 0xFF
        elif mode == "abx":
            addr = (arg + self.x) & 0xFFFF
        elif mode == "aby":
            addr = (arg + self.y) & 0xFFFF
        elif mode == "izx":
            z = (arg + self.x) & 0xFF
            addr = self.m[z] | self.m[(z + 1) & 0xFF] << 8
        elif mode == "izy":
            addr = ((self.m[arg] | self.m[(arg + 1) & 0xFF] << 8) + self.y) & 0xFFFF
        elif mode == "ind":
            addr = self.word(arg)
        elif mode == "rel":
            addr = (self.pc + (arg - 256 if arg > 127 else arg)) & 0xFFFF

        def val():
            return arg if mode == "imm" else self.m[addr]

        if name in isa.BRANCH:
            if {"bpl": not self.n, "bmi": self.n, "bvc": not self.v, "bvs": self.v, "bcc": not self.c, "bcs": self.c,
                    "bne": not self.z, "beq": self.z}[name]:
                self.pc = addr
        elif name in ("lda", "ldx", "ldy"):
            setattr(self, name[2], self.nz(val()))
        elif name in ("sta", "stx", "sty"):
            self.store(addr, getattr(self, name[2]))
        elif name in ("cmp", "cpx", "cpy"):
            r = getattr(self, {"cmp": "a", "cpx": "x", "cpy": "y"}[name]) - val()
            self.c = r >= 0
            self.nz(r)
        elif name in ("inx", "iny", "dex", "dey"):
            setattr(self, name[2], self.nz(getattr(self, name[2]) + (1 if name[0] == "i" else -1)))
        elif name in ("inc", "dec"):
            v = self.nz(self.m[addr] + (1 if name == "inc" else -1))
            self.store(addr, v)
        elif name == "and":
            self.a = self.nz(self.a & val())
        elif name == "ora":
            self.a = self.nz(self.a | val())
        elif name == "eor":
            self.a = self.nz(self.a ^ val())
        elif name in ("adc", "sbc"):
            v = val() if name == "adc" else val() ^ 0xFF
            r = self.a + v + self.c
            self.v = bool(~(self.a ^ v) & (self.a ^ r) & 0x80)
            self.c = r > 0xFF
            self.a = self.nz(r)
        elif name in ("asl", "lsr", "rol", "ror"):
            v = self.a if mode == "imp" else self.m[addr]
            if name in ("asl", "rol"):
                r = v << 1 | (self.c if name == "rol" else 0)
                c = v >= 0x80
            else:
                r = v >> 1 | (self.c << 7 if name == "ror" else 0)
                c = bool(v & 1)
            r = self.nz(r)
            self.c = c
            if mode == "imp":
                self.a = r
            else:
                self.store(addr, r)
        elif name == "bit":
            v = self.m[addr]
            self.n, self.v, self.z = v >= 0x80, bool(v & 0x40), not v & self.a
        elif name == "jmp":
            self.pc = addr
        elif name == "jsr":
            r = (self.pc - 1) & 0xFFFF
            self.push(r >> 8)
            self.push(r & 0xFF)
            self.pc = addr
        elif name == "rts":
            lo = self.pull()
            self.pc = ((self.pull() << 8 | lo) + 1) & 0xFFFF
        elif name in ("pha", "pla"):
            if name == "pha":
                self.push(self.a)
            else:
                self.a = self.nz(self.pull())
        elif name in ("tax", "tay", "txa", "tya"):
            setattr(self, name[2], self.nz(getattr(self, name[1])))
        elif name in ("clc", "sec", "clv", "cld", "sed", "cli", "sei"):
            setattr(self, name[2], name[0] == "s")
        elif name == "nop":
            pass
        else:
            raise Stop("%s at %04x" % (name, self.pc - size))

    def push(self, v):
        self.m[0x100 + self.sp] = v & 0xFF
        self.sp = (self.sp - 1) & 0xFF

    def pull(self):
        self.sp = (self.sp + 1) & 0xFF
        return self.m[0x100 + self.sp]

    def run(self, stop, limit):
        while self.pc != stop:
            if limit <= 0:
                raise Stop("does not end")
            limit -= 1
            self.step()
