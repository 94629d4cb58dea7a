"""C15: includes, binary loads and multiple inputs equal the text they stand for."""
from hypothesis import strategies as st

from .. import common, gen, model
from ..asm import assemble, fail

RULE = ("a random program whose top-level, section and .ifdef statements are cut into included files (nested up to eight "
        "deep, some included twice, some empty or without statements) and one to four input files, with .load of random "
        "binary files (empty, odd, even, up to 40000 bytes; also inside loops, macros and conditionals). Files "
        "are in the current directory, in subdirectories named in .inc and in the directories of -dir (of all kinds of names, "
        "between others that do not exist, with or without the final separator, shadowed by files of the same name in later directories). Some cases have a missing "
        "file. Compared with the reference assembler and with the flat single-file program. Non-trivial: two or more "
        "files besides the first")
BUDGET = {"quick": 8000, "thorough": 140000}
ASSUMPTIONS = [".inc stands at the top level, in a section or in .ifdef; every line of a file is ended by a newline"]
DIRS = ["lib", "my lib/v2", ".hid", "a.b", "./rel", "d" * 150, "x/./y", "-o", "up/.sub/lib"]
FILL = ["nowhere", "no/such/one", ".none", "z" * 200, "in0.asm", "."]
WORDS = ["one", "two", "lib.inc", "A b.asm", "x-y", "z.bin", "macros.s", "deep_1", "TWO", "Lib.inc", "IN0.asm"]


class Prog(gen.Program):
    def k_load(self, depth, top, args):
        name = "data%d.bin" % self.i(0, 3)
        return [["load", name]]

    def kinds(self, top, depth, kinds):
        if not kinds:
            return gen.Program.kinds(self, top, depth, kinds)
        return gen.Program.kinds(self, top, depth, tuple(kinds) + ("load",))


@st.composite
def cases(draw):
    g = Prog(draw, size=12, depth=3, nmacros=2, nvars=2, load=4, section=2, label=3, equ=1, ins=4, data=3)
    prog = g.program()
    i = lambda a, b: draw(st.integers(a, b))
    i2 = st.integers(0, 2)
    bins = {}
    loops = common.kinds(prog) & {"while", "repeat", "do", "for", "macro"}
    for s in common.walk(prog):
        if s[0] == "load" and s[1] not in bins:
            size = draw(st.sampled_from([0, 1, 2, 3, 7, 40]) | st.integers(0, 300))
            if i(0, 30) == 0:
                size = draw(st.sampled_from([255, 256, 257, 511, 512, 1000] + [4095, 4096, 4097, 8192] * (not loops)))
                if not loops and i(0, 5) == 0:
                    size = draw(st.sampled_from([16384, 32767, 32768, 33000, 40000]))
            k = i(0, 2)
            bins[s[1]] = [size, k, i(0, 255)]
    # cuts: positions drawn as numbers, used modulo what there is
    cuts = [[i(0, 99), i(0, 99), i(0, 6)] for _ in range(i(0, 6))]
    return {"prog": prog, "bins": bins, "cuts": cuts, "deep": i(0, 8) if i(0, 5) == 0 else 0,
            "inputs": sorted(i(0, 99) for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3])))),
            "place": [i(0, 5) for _ in range(8)], "sep": i(0, 3), "names": draw(st.permutations(WORDS)),
            "twice": i(0, 3) == 0, "missing": i(0, 11) == 0 and [i(0, 9), i(0, 2)] or None, "shadow": i(0, 1),
            "dirs": draw(st.permutations(DIRS))[:2], "fill": draw(st.lists(st.tuples(i2, st.sampled_from(FILL)), max_size=4))}


def content(spec):
    size, k, seed = spec
    if k == 0:
        return bytes((seed + 7 * j) & 0xFF for j in range(size))
    if k == 1:
        return bytes([seed]) * size
    return bytes([(10, 13, 26, 0, 255, 59, 34)[(seed + j) % 7] for j in range(size)])


def check(case, env):
    prog = case["prog"]
    bins = {k: content(v) for k, v in case["bins"].items()}
    names = iter(case["names"])
    lists = []

    # where .inc may stand
    def find(body, top):
        lists.append(body)
        for s in body:
            if s[0] == "section":
                find(s[2], False)
            elif s[0] == "ifdef":
                find(s[3], False)
                if s[4] is not None:
                    find(s[4], False)

    import copy
    tree = copy.deepcopy(prog)
    nfiles = 0
    for a, b, c in case["cuts"]:
        lists.clear()
        find(tree, True)
        allb = list(lists)
        for s in common.walk(tree):
            if s[0] == "inc":
                allb.append(s[2])
        body = allb[a % len(allb)]
        try:
            name = next(names)
        except StopIteration:
            break
        at = b % (len(body) + 1)
        n = min(c, len(body) - at)
        part = body[at:at + n]
        body[at:at + n] = [["inc", name, part]]
        nfiles += 1
    for k in range(case["deep"]):
        tree = [["inc", "nest%d.inc" % k, tree]]
        nfiles += 1
    if case["twice"]:
        # a file of data, included several times
        part = [["data", ".byte", [["e", gen.n(7)], ["str", model.plain_string("xyz")]]], ["ins", "iny", "", None]]
        tree = tree + [["inc", "again.inc", part], ["inc", "again.inc", part]]
        prog = prog + part + part
        nfiles += 1
    try:
        ref = model.Ref(prog, binfiles=bins)
    except model.Ambiguous:
        return {"labels": ["discarded"]}
    except model.ModelError:
        return {"labels": ["invalid"]}
    if ref.nbytes > 45000:
        # assembling takes time quadratic in the bytes
        return {"labels": ["discarded"]}
    # input files: pieces of the outermost list
    cuts = [x % (len(tree) + 1) for x in case["inputs"]]
    pieces = []
    last = 0
    for x in sorted(cuts):
        pieces.append(tree[last:x])
        last = x
    pieces.append(tree[last:])
    files = {}
    inputs = []
    for k, p in enumerate(pieces):
        rr = model.Render()
        rr.files = files
        name = "in%d.asm" % k
        rr.program(p, name)
        inputs.append(name)
    flat = dict(model.render(prog))
    # places: 0-2 current directory, 3 a -dir directory, 4 the second one, 5 a subdirectory named in the text
    placed = {}
    dirs = {3: case["dirs"][0], 4: case["dirs"][1]}
    used = set()
    k = 0
    sub = {}
    for name, text in list(files.items()) + sorted(bins.items()):
        pl = case["place"][k % len(case["place"])]
        k += 1
        if pl == 5 and name not in inputs:
            sub[name] = "sub/" + name
            placed["sub/" + name] = text
        elif pl in dirs:
            placed[dirs[pl] + "/" + name] = text
            used.add(pl)
            if case["shadow"] and pl == 3:
                placed[dirs[4] + "/" + name] = " .wrong file\n"
                used.add(4)
        else:
            placed[name] = text
            if case["shadow"] and used:
                placed[dirs[3] + "/" + name] = " .wrong file\n"
    for n, t in list(placed.items()):
        if isinstance(t, str):
            for a, b in sub.items():
                t = t.replace('.inc "%s"' % a, '.inc "%s"' % b).replace('.load "%s"' % a, '.load "%s"' % b)
            placed[n] = t
    args = []
    if used or case["sep"] == 3:
        end = "/" if case["sep"] & 1 else ""
        path = [dirs[3] + end, dirs[4] + end]
        for at, d in case["fill"]:
            path.insert(at, d)
        args = ["-dir", (";" if case["sep"] < 2 else "; ").join(path)]
    if case["missing"]:
        x, how = case["missing"]
        gone = sorted(n for n in placed if not n.startswith("lib/") or True)
        name = gone[x % len(gone)]
        base = name.rsplit("/", 1)[-1]
        needed = base in inputs or (base in bins and any(s[0] == "load" and s[1] == base for s in executed(ref))) or \
            (base not in bins and ("inc", base) in includes(ref, tree))
        for n in [n for n in placed if n.rsplit("/", 1)[-1] == base]:
            del placed[n]
        r = assemble(env, placed, args, inputs)
        if needed and r.rc == 0:
            fail("%s is missing but the run succeeded" % base, placed, r, args=args + inputs)
        return {"labels": ["missing"]}
    r = assemble(env, placed, args, inputs)
    if r.rc != 0:
        fail("a valid program was rejected", placed, r, args=args + inputs)
    if r.out != ref.out:
        fail("wrong output; expected %s" % ref.out.hex(" "), placed, r, args=args + inputs)
    flat.update(bins)
    common.same(env, flat, r, "the text in one file")
    return {"nontrivial": nfiles + len(inputs) + len(bins) > 2, "sample": common.text(placed),
            "labels": ["inputs %d" % len(inputs), "files %d" % min(nfiles, 9)] + (["load"] if bins else []) + (["dir"] if used else [])}


def executed(ref):
    return [s for _, _, s in ref.chunks]


def includes(ref, tree):
    """The .inc statements certainly read: those outside .ifdef and macros."""
    res = set()

    def go(body):
        for s in body:
            if s[0] == "inc":
                res.add(("inc", s[1]))
                go(s[2])
            elif s[0] == "section":
                go(s[2])
            elif s[0] == "end":
                return
    go(tree)
    return res
