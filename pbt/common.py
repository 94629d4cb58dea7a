"""Shared by the property modules."""
from . import model
from .asm import assemble, fail


def refer(prog, **kw):
    """(reference assembly or None, why): why is "invalid" or "ambiguous"."""
    try:
        return model.Ref(prog, **kw), ""
    except model.Ambiguous as e:
        return None, "ambiguous"
    except model.ModelError as e:
        return None, "invalid"


def judge(prog, env, args=(), files=None, inputs=("in.asm",), sym=False, lst=False, what="", extra=None, ref=None, **kw):
    """Assemble prog and compare with the reference; returns (ref, result) or (None, None) when undecided."""
    if ref is None:
        ref, why = refer(prog, **kw)
    else:
        why = ""
    if why == "ambiguous":
        return None, None
    if files is None:
        files = model.render(prog)
    if extra:
        files = dict(files, **extra)
    r = assemble(env, files, args, inputs, sym=sym, lst=lst)
    if why == "invalid":
        if r.rc == 0:
            fail("an invalid program was assembled%s" % what, files, r, args=args)
        return None, r
    if r.rc != 0:
        fail("a valid program was rejected%s" % what, files, r, args=args)
    if r.out != ref.out:
        fail("wrong output%s\nexpected %s" % (what, ref.out.hex(" ")), files, r, args=args)
    return ref, r


def same(env, files, r0, what, args=(), inputs=("in.asm",), clean=True, **kw):
    """Metamorphic comparison: this variant gives the output r0 did."""
    r = assemble(env, files, args, inputs, clean=clean, **kw)
    if r.rc != r0.rc:
        fail("%s: exit status %d, was %d for\n%s" % (what, r.rc, r0.rc, text(r0.source)), files, r, args=args)
    if r0.rc == 0 and r.out != r0.out:
        fail("%s: output differs from %s of\n%s" % (what, r0.out.hex(" "), text(r0.source)), files, r, args=args)
    return r


def text(files):
    return "\n".join("--- %s\n%s" % (k, v if isinstance(v, str) else v.decode("latin-1")) for k, v in files.items())


def parse_symbols(data):
    """The symbol file: a list of (name, value) in the order listed."""
    res = []
    toks = data.decode("latin-1").split()
    if len(toks) % 2:
        return None
    for a, b in zip(toks[::2], toks[1::2]):
        if not b.startswith("$"):
            return None
        res.append((a, int(b[1:], 16)))
    return res


def walk(prog):
    """All statements, bodies included."""
    for s in prog:
        yield s
        for x in s:
            if isinstance(x, list) and x and isinstance(x[0], list) and x[0] and isinstance(x[0][0], str) \
                    and x[0][0] in KINDS:
                yield from walk(x)
            elif isinstance(x, list) and x and isinstance(x[0], str) and x[0] in KINDS and s[0] in ("lst", "anon"):
                yield x


KINDS = frozenset("label lst anon ins data fill ds org pc equ var set if ifdef for while repeat do reg macro call "
                  "section print inc load end dir raw".split())


def kinds(prog):
    return {s[0] for s in walk(prog)}


def rename(prog, m):
    """Rename symbols; m maps lower-case name components."""
    def nm(x):
        if x.startswith("@"):
            return "@" + m.get(x[1:].lower(), x[1:])
        return ".".join(m.get(c.lower(), c) for c in x.split("."))

    def ex(e):
        if not isinstance(e, list):
            return e
        if e and e[0] == "s":
            return ["s", nm(e[1])]
        if e and e[0] in ("n", "pc", "anon", "arg", "str"):
            return e
        return [ex(x) for x in e]

    def stmt(s):
        k = s[0]
        if k in ("label", "macro", "section"):
            return [k, nm(s[1])] + [body(x) if isinstance(x, list) else x for x in s[2:]]
        if k == "lst":
            return [k, nm(s[1]), s[2], stmt(s[3])]
        if k == "anon":
            return [k, s[1]] + [stmt(x) if x else x for x in s[2:]]
        if k in ("equ", "set"):
            return [k, nm(s[1]), ex(s[2])] + s[3:]
        if k == "var":
            return [k, [[nm(a), ex(b)] for a, b in s[1]]]
        if k == "call":
            return [k, nm(s[1]), [ex(a) for a in s[2]]]
        if k == "for":
            return [k, nm(s[1]), ex(s[2]), ex(s[3]), ex(s[4]), body(s[5])]
        if k == "if":
            return [k, ex(s[1]), body(s[2]), body(s[3])]
        if k == "ifdef":
            return [k, s[1], nm(s[2]), body(s[3]), body(s[4])]
        if k == "while":
            return [k, ex(s[1]), body(s[2])]
        if k in ("repeat", "do"):
            return [k, body(s[1]), ex(s[2])]
        if k == "reg":
            return [k, s[1], ex(s[2]), ex(s[3]), s[4], body(s[5])]
        if k == "ins":
            return [k, s[1], s[2], ex(s[3])]
        if k in ("data", "print"):
            return [k, s[1], [[i[0], ex(i[1]) if i[0] == "e" else i[1]] for i in s[2]]]
        if k in ("fill", "ds", "org", "pc"):
            return [k] + [ex(x) for x in s[1:]]
        return s

    def body(b):
        return b if b is None else [stmt(s) for s in b]

    return body(prog)


def names(prog):
    """Every user-chosen name component."""
    res = set()

    def ex(e):
        if isinstance(e, list):
            if e and e[0] == "s":
                res.update(e[1].lower().lstrip("@").split("."))
            elif not e or e[0] not in ("n", "pc", "anon", "arg", "str"):
                for x in e:
                    ex(x)

    for s in walk(prog):
        if s[0] in ("label", "lst", "equ", "set", "macro", "call", "for", "section"):
            res.update(s[1].lower().lstrip("@").split("."))
        if s[0] == "var":
            res.update(x[0].lower() for x in s[1])
        if s[0] == "ifdef":
            res.add(s[2].lower())
        for x in s[1:]:
            ex(x)
    res.discard("")
    return res
