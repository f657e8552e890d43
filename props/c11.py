"""C11: shifting trails relabels sequences consistently and does not change the equilibrium."""
from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random structures and random histories of shift_trail() calls (any origin, any start 0-9, repeated, mixed with "
        "rebuilds): after each call all sequence queries, maps and the direct/indirect classification of deviation "
        "edges are compared with a model, and shifting a node that is not an origin must raise; at the end the form "
        "must be that of the unshifted structure, in both solvers. Non-trivial: at least one trail starts at another "
        "sequence than before and there is a deviation edge.")


def expect(t, case, start):
    k = {}
    for tr in case["trails"]:
        for i, n in enumerate(tr):
            k[n] = start[tr[0]] + i
    last = max(k.values())
    for n, s in k.items():
        if t.node_sequence(n) != s:
            forms.fail("node %s has sequence %s, expected %s", n, t.node_sequence(n), s)
    if t.sequence_last() != last or t.number_of_sequences() != last + 1:
        forms.fail("last sequence %s, number of sequences %s, expected %s", t.sequence_last(), t.number_of_sequences(), last)
    want = [sorted(n for n in k if k[n] == s) for s in range(last + 1)]
    if [sorted(s) for s in t.sequences()] != want:
        forms.fail("sequences %s, expected %s", list(t.sequences()), want)
    if [(s, sorted(ns)) for s, ns in t.sequences(keys=True)] != list(enumerate(want)):
        forms.fail("sequences with keys %s, expected %s", list(t.sequences(keys=True)), want)
    maps = {tr[0]: {k[n]: n for n in tr} for tr in case["trails"]}
    if {a: dict(b) for a, b in t.trails_sequences().items()} != maps:
        forms.fail("trails_sequences %s, expected %s", t.trails_sequences(), maps)
    for o, m in maps.items():
        if dict(t.trail_sequences(o)) != m:
            forms.fail("trail_sequences(%s) %s, expected %s", o, t.trail_sequences(o), m)
    # trails themselves are not affected
    if {a: list(b) for a, b in t.trails(keys=True)} != {tr[0]: tr for tr in case["trails"]}:
        forms.fail("trails %s", list(t.trails(keys=True)))
    direct, indirect = set(), set()
    for e in case["edges"]:
        key = tuple(e[1:3])
        if tuple(t.edge_sequence(key)) != (k[key[0]], k[key[1]]):
            forms.fail("edge_sequence(%s) is %s", key, t.edge_sequence(key))
        is_d = e[0] == "d" and k[key[0]] == k[key[1]]
        is_i = e[0] == "d" and k[key[0]] != k[key[1]]
        if bool(t.is_direct_deviation_edge(key)) != is_d or bool(t.is_indirect_deviation_edge(key)) != is_i:
            forms.fail("edge %s between sequences %s is misclassified", key, t.edge_sequence(key))
        if is_d:
            direct.add(key)
        if is_i:
            indirect.add(key)
    for got, want in ((t.direct_deviation_edges, direct), (t.indirect_deviation_edges, indirect)):
        if set(got()) != want or len(list(got())) != len(want):
            forms.fail("%s: %s, expected %s", got.__name__, list(got()), want)
        if {e for e, a in got(data=True)} != want or any(a["type"] != "deviation" for _, a in got(data=True)):
            forms.fail("%s(data=True): %s, expected %s", got.__name__, list(got(data=True)), want)
    if t.number_of_direct_deviation_edges() != len(direct) or t.number_of_indirect_deviation_edges() != len(indirect):
        forms.fail("wrong number of direct or indirect deviation edges")


def history(case, d):
    case = dict(case)
    case["shifts"] = []
    long = [t for t in case["trails"] if len(t) > 1]
    ops = []
    for _ in range(d.int(1, 6)):
        if d.flag(6):
            ops.append(["build"])
        elif d.flag(4):
            t = d.pick(long)
            ops.append(["bad", d.pick(t[1:]), d.int(0, 5)])
        else:
            ops.append(["shift", d.pick(long)[0], d.pick([d.int(0, 3), d.int(0, 3), d.int(0, 9), 40])])
    return {"a": case, "ops": ops}


def check(case, ctx):
    c = case["a"]
    t = build.topology(c, trails=False)
    n = c["nodes"][0][0]
    try:
        t.node_sequence(n)
    except ValueError:
        pass
    else:
        forms.fail("node %s has sequence %s before trails are built", n, t.node_sequence(n))
    try:
        t.shift_trail(n, 1)
    except Exception:
        pass
    else:
        forms.fail("the trail of node %s was shifted before trails were built", n)
    t.build_trails()
    start = {tr[0]: 0 for tr in c["trails"]}
    expect(t, c, start)
    base = {w: build.read(build.solve(t, w, c)) for w in ("pure", "numpy")}
    for op in case["ops"]:
        ctx.label(op[0])
        if op[0] == "build":
            t.build_trails()
            start = {o: 0 for o in start}
        elif op[0] == "shift":
            t.shift_trail(op[1], op[2])
            start[op[1]] = op[2]
        else:
            try:
                t.shift_trail(op[1], op[2])
            except Exception:
                pass
            else:
                forms.fail("node %s is not an origin, but its trail was shifted", op[1])
        expect(t, c, start)
    now = dict(c)
    now["shifts"] = [[o, s] for o, s in start.items() if s]
    s = ref.solve(now)
    # only where the shifted structure is as well-posed as the original one
    b = ref.solve(dict(c, shifts=[]))
    if s.converged and s.iters < 60 and not s.zero_res and not s.warn_ambiguous and s.min_res > 1e-3 \
            and all(ref.dist(s.pos[n], b.pos[n]) < 1e-9 * s.scale for n in s.pos):
        for w in ("pure", "numpy"):
            r = build.read(build.solve(t, w, c))
            forms.finite(r)
            forms.same(base[w], r)
        ctx.label("solved")
    gen.classify(now, ctx)
    ctx.nontrivial(bool(now["shifts"]) and any(e[0] == "d" for e in c["edges"]))


SUBS = [Sub("shift", gen.with_dice(history, extra=64, shifts=False, singles=True), check, quick=1600, thorough=40000)]
