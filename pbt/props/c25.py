"""C25: the stack is last-in first-out for every element size."""
from hypothesis import strategies as st

from .c24 import run

RULE = ("histories of up to 150 operations on one to three stacks of elements of 1 to 1000 bytes: pushes, pops, tops, reads of items, "
        "index queries, clears and runs of up to 200 pushes or pops; every result is compared with a list, under "
        "AddressSanitizer. Non-trivial: a stack of more than 25 elements (the table grew) that was popped or cleared and pushed on again")
BUDGET = {"quick": 8000, "thorough": 150000}
FLAVOUR = "asan"
TARGETS = ("unitdrv",)
ASSUMPTIONS = ["pop, top and items are asked for only where there is an element"]


@st.composite
def cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    sizes = draw(st.lists(st.sampled_from([1, 2, 3, 4, 8, 12, 16, 40, 255, 1000]), min_size=1, max_size=3))
    ops = draw(st.lists(st.tuples(st.sampled_from("PPPPPPOOOOTIINCBQ"), st.integers(0, len(sizes) - 1), st.integers(0, 1000)), min_size=1, max_size=150))
    return {"sizes": sizes, "ops": [list(o) for o in ops]}


def check(case, env):
    sizes = case["sizes"]
    script = ["D %d %d" % (n, s) for n, s in enumerate(sizes)]
    expected = []
    stacks = [[] for _ in sizes]
    peak = [0] * len(sizes)
    shrunk = [False] * len(sizes)
    again = False
    serial = 0

    def step(line, want):
        script.append(line)
        if want is not None:
            expected.append((len(script) - 1, want))

    def push(s, v):
        nonlocal serial, again
        serial += 1
        val = bytes((v + k * 11 + serial * 5) & 0xff for k in range(sizes[s])).hex()
        stacks[s].append(val)
        step("P %d %s" % (s, val), str(len(stacks[s]) - 1))
        again = again or (shrunk[s] and peak[s] > 25)
        peak[s] = max(peak[s], len(stacks[s]))

    def pop(s):
        if stacks[s]:
            shrunk[s] = True
            step("O %d" % s, stacks[s].pop())

    for k, s, v in case["ops"]:
        if k == "P":
            push(s, v)
        elif k == "O":
            pop(s)
        elif k == "T" and stacks[s]:
            step("T %d" % s, stacks[s][-1])
        elif k == "I" and stacks[s]:
            step("I %d %d" % (s, v % len(stacks[s])), stacks[s][v % len(stacks[s])])
        elif k == "N":
            step("N %d" % s, str(len(stacks[s]) - 1))
        elif k == "C":
            step("C %d" % s, None)
            shrunk[s] = True
            stacks[s] = []
        elif k == "B":
            for n in range(v % 200):
                push(s, v + n)
        elif k == "Q":
            for n in range(v % 200):
                pop(s)
    for s in range(len(sizes)):
        step("N %d" % s, str(len(stacks[s]) - 1))
        for n in range(len(stacks[s])):
            step("I %d %d" % (s, n), stacks[s][n])
        while stacks[s]:
            pop(s)
        step("F %d" % s, None)
    run(env, script, expected, "stack")
    return {"nontrivial": again, "labels": ["grown"] * (max(peak) > 25), "sample": case["ops"][:40]}
