"""6502, undocumented 6502 and 65C02 opcodes, written down independently of the code under test
(structure of the opcode map aaabbbcc, and the NMOS/WDC data sheets)."""

# modes: imp imm zp zpx zpy izx izy abs abx aby ind aix(abs,x indirect) izp((zp)) rel


def _alu(base):
    return {"izx": base + 0x01, "zp": base + 0x05, "imm": base + 0x09, "abs": base + 0x0D,
            "izy": base + 0x11, "zpx": base + 0x15, "aby": base + 0x19, "abx": base + 0x1D}


NMOS = {}
for _n, _m in enumerate("ora and eor adc sta lda cmp sbc".split()):
    NMOS[_m] = _alu(_n * 0x20)
del NMOS["sta"]["imm"]
for _n, _m in enumerate("asl rol lsr ror".split()):
    _b = _n * 0x20
    NMOS[_m] = {"imp": _b + 0x0A, "zp": _b + 0x06, "zpx": _b + 0x16, "abs": _b + 0x0E, "abx": _b + 0x1E}
for _m, _b in (("dec", 0xC0), ("inc", 0xE0)):
    NMOS[_m] = {"zp": _b + 0x06, "zpx": _b + 0x16, "abs": _b + 0x0E, "abx": _b + 0x1E}
NMOS["ldx"] = {"imm": 0xA2, "zp": 0xA6, "zpy": 0xB6, "abs": 0xAE, "aby": 0xBE}
NMOS["ldy"] = {"imm": 0xA0, "zp": 0xA4, "zpx": 0xB4, "abs": 0xAC, "abx": 0xBC}
NMOS["stx"] = {"zp": 0x86, "zpy": 0x96, "abs": 0x8E}
NMOS["sty"] = {"zp": 0x84, "zpx": 0x94, "abs": 0x8C}
NMOS["cpx"] = {"imm": 0xE0, "zp": 0xE4, "abs": 0xEC}
NMOS["cpy"] = {"imm": 0xC0, "zp": 0xC4, "abs": 0xCC}
NMOS["bit"] = {"zp": 0x24, "abs": 0x2C}
NMOS["jmp"] = {"abs": 0x4C, "ind": 0x6C}
NMOS["jsr"] = {"abs": 0x20}
for _m, _c in (("php", 0x08), ("clc", 0x18), ("plp", 0x28), ("sec", 0x38), ("pha", 0x48), ("cli", 0x58),
               ("pla", 0x68), ("sei", 0x78), ("dey", 0x88), ("tya", 0x98), ("tay", 0xA8), ("clv", 0xB8),
               ("iny", 0xC8), ("cld", 0xD8), ("inx", 0xE8), ("sed", 0xF8), ("txa", 0x8A), ("txs", 0x9A),
               ("tax", 0xAA), ("tsx", 0xBA), ("dex", 0xCA), ("nop", 0xEA), ("brk", 0x00), ("rti", 0x40),
               ("rts", 0x60)):
    NMOS[_m] = {"imp": _c}
BRANCH = {"bpl": 0x10, "bmi": 0x30, "bvc": 0x50, "bvs": 0x70, "bcc": 0x90, "bcs": 0xB0, "bne": 0xD0, "beq": 0xF0}
for _m, _c in BRANCH.items():
    NMOS[_m] = {"rel": _c}

# undocumented NMOS instructions (names as in the oxyron table the repository cites)
ILLEGAL = {}
for _n, _m in enumerate("slo rla sre rra".split()):
    _b = _n * 0x20
    ILLEGAL[_m] = {"izx": _b + 3, "zp": _b + 7, "abs": _b + 0xF, "izy": _b + 0x13, "zpx": _b + 0x17,
                   "aby": _b + 0x1B, "abx": _b + 0x1F}
for _m, _b in (("dcp", 0xC0), ("isc", 0xE0)):
    ILLEGAL[_m] = {"izx": _b + 3, "zp": _b + 7, "abs": _b + 0xF, "izy": _b + 0x13, "zpx": _b + 0x17,
                   "aby": _b + 0x1B, "abx": _b + 0x1F}
ILLEGAL["sax"] = {"zp": 0x87, "zpy": 0x97, "izx": 0x83, "abs": 0x8F}
ILLEGAL["lax"] = {"imm": 0xAB, "zp": 0xA7, "zpy": 0xB7, "izx": 0xA3, "izy": 0xB3, "abs": 0xAF, "aby": 0xBF}
for _m, _c in (("anc", 0x0B), ("anc2", 0x2B), ("alr", 0x4B), ("arr", 0x6B), ("xaa", 0x8B), ("axs", 0xCB),
               ("usbc", 0xEB)):
    ILLEGAL[_m] = {"imm": _c}
ILLEGAL["ahx"] = {"izy": 0x93, "aby": 0x9F}
ILLEGAL["shy"] = {"abx": 0x9C}
ILLEGAL["shx"] = {"aby": 0x9E}
ILLEGAL["tas"] = {"aby": 0x9B}
ILLEGAL["las"] = {"aby": 0xBB}

# 65C02 (with the Rockwell/WDC bit instructions, stp and wai)
CMOS = {m: dict(t) for m, t in NMOS.items()}
for _n, _m in enumerate("ora and eor adc sta lda cmp sbc".split()):
    CMOS[_m]["izp"] = _n * 0x20 + 0x12
CMOS["bit"].update({"imm": 0x89, "zpx": 0x34, "abx": 0x3C})
CMOS["dec"]["imp"] = 0x3A
CMOS["inc"]["imp"] = 0x1A
CMOS["jmp"]["aix"] = 0x7C
CMOS["bra"] = {"rel": 0x80}
for _m, _c in (("phx", 0xDA), ("phy", 0x5A), ("plx", 0xFA), ("ply", 0x7A), ("stp", 0xDB), ("wai", 0xCB)):
    CMOS[_m] = {"imp": _c}
CMOS["stz"] = {"zp": 0x64, "zpx": 0x74, "abs": 0x9C, "abx": 0x9E}
CMOS["trb"] = {"zp": 0x14, "abs": 0x1C}
CMOS["tsb"] = {"zp": 0x04, "abs": 0x0C}
for _n in range(8):
    CMOS["rmb%d" % _n] = {"zp": 0x07 + 0x10 * _n}
    CMOS["smb%d" % _n] = {"zp": 0x87 + 0x10 * _n}
BITBRANCH = ["bb%s%d" % (k, n) for k in "rs" for n in range(8)]

ALL_MNEMONICS = sorted(set(NMOS) | set(ILLEGAL) | set(CMOS))
ONLY_CMOS = sorted(set(CMOS) - set(NMOS))

# written operand forms: "" , "#", "v", "v,x", "v,y", "(v)", "(v,x)", "(v),y"
FORMS = ["", "#", "v", "v,x", "v,y", "(v)", "(v,x)", "(v),y"]
FORM_TEXT = {"": "%s", "#": "%s #%s", "v": "%s %s", "v,x": "%s %s,x", "v,y": "%s %s,y", "(v)": "%s (%s)",
             "(v,x)": "%s (%s,x)", "(v),y": "%s (%s),y"}


def table(cpu, illegal):
    """Mnemonic table in force. Undocumented instructions in 65C02 mode are not specified here."""
    if cpu == "65c02":
        return CMOS
    if illegal:
        t = dict(NMOS)
        t.update(ILLEGAL)
        return t
    return NMOS


def encode(tab, mnem, form, value, pc):
    """Bytes of one instruction, or None when it must be rejected.

    value is None for the implied form. Relative targets out of range are the caller's business
    (None is returned)."""
    t = tab.get(mnem)
    if t is None:
        return None
    if form == "":
        return bytes([t["imp"]]) if "imp" in t else None
    if form == "#":
        if "imm" in t and -254 <= value <= 255:
            return bytes([t["imm"], value & 0xFF])
        return None
    if form == "v" and "rel" in t:
        d = value - (pc + 2)
        return bytes([t["rel"], d & 0xFF]) if -128 <= d <= 127 else None
    short, long_ = {"v": ("zp", "abs"), "v,x": ("zpx", "abx"), "v,y": ("zpy", "aby"), "(v)": ("izp", "ind"),
                    "(v,x)": ("izx", "aix"), "(v),y": ("izy", None)}[form]
    if short in t and 0 <= value <= 255:
        return bytes([t[short], value])
    if long_ is not None and long_ in t and 0 <= value <= 65535:
        return bytes([t[long_], value & 0xFF, value >> 8])
    return None


def mode_exists(tab, mnem, form):
    t = tab.get(mnem)
    if t is None:
        return False
    return any(m in t for m in {"": ("imp",), "#": ("imm",), "v": ("zp", "abs", "rel"), "v,x": ("zpx", "abx"),
                                "v,y": ("zpy", "aby"), "(v)": ("izp", "ind"), "(v,x)": ("izx", "aix"),
                                "(v),y": ("izy",)}[form])


def by_opcode(cpu="6502"):
    """opcode -> (mnemonic, mode, length) of the documented set."""
    res = {}
    ln = {"imp": 1, "imm": 2, "zp": 2, "zpx": 2, "zpy": 2, "izx": 2, "izy": 2, "izp": 2, "rel": 2,
          "abs": 3, "abx": 3, "aby": 3, "ind": 3, "aix": 3}
    for m, t in (CMOS if cpu == "65c02" else NMOS).items():
        for mode, code in t.items():
            assert code not in res, (m, mode, res[code])
            res[code] = (m, mode, ln[mode])
    return res
