"""C03: both solvers compute the equilibrium defined by the combinatorial method."""
from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random structures (as in C01), compared with an independent reference implementation of the method and "
        "with each other; plus structures with exactly degenerate parts (trails that carry no force, loads that "
        "cancel, coincident ends of deviation edges, planes on such edges), where results must be finite and agree; and "
        "structures with planes that are almost parallel to the trail (cosines down to 3e-5, where the intersection "
        "is used, and 1e-8, where the prescribed length is). Non-trivial: a deviation edge, a plane or a degenerate "
        "part.")
ASSUMPTIONS = ["the reference solver in lib/ref.py is right (it is independent of the code under test)"]


def check(case, ctx):
    labels = gen.classify(case, ctx)
    s = ref.solve(case)
    if not s.converged:
        forms.fail("harness: reference does not converge")
    t = build.topology(case)
    res = {}
    for which in ("pure", "numpy"):
        r = build.read(build.solve(t, which, case))
        forms.finite(r)
        forms.match_reference(r, s)
        for e in r.edges:
            ln, dist = r.length[frozenset(e)], ref.dist(r.pos[e[0]], r.pos[e[1]])
            if abs(abs(ln) - dist) > 1e-9 * s.scale:
                forms.fail("edge %s stores length %s but is %s long", e, ln, dist)
        res[which] = r
    forms.same(res["pure"], res["numpy"])
    if s.zero_res:
        ctx.label("zero residual")
    if s.fallbacks:
        ctx.label("plane fallback")
    if s.flips:
        ctx.label("state flip")
    ctx.nontrivial(bool(labels & {"plane", "direct deviation", "indirect deviation"}) or s.zero_res > 0)


def degenerate(case, d):
    """Append trails with exactly degenerate equilibrium to a well-posed case."""
    case = {k: (list(v) if isinstance(v, list) else v) for k, v in case.items()}
    used = {k for k, _ in case["nodes"]}
    xyz = dict((k, p) for k, p in case["nodes"])
    nxt = max(used) + 1
    trails = list(case["trails"])
    for _ in range(d.int(1, 2)):
        n = d.int(2, 5)
        keys = list(range(nxt, nxt + n))
        nxt += n
        o = d.vec(-4, 4)
        kind = d.int(0, 2)
        coincide = None
        if kind == 2 and d.flag():
            # the origin coincides with that of a trail of the structure, linked by a deviation edge
            coincide = d.pick(trails)[0]
            o = list(xyz[coincide])
        for i, k in enumerate(keys):
            case["nodes"].append([k, o if i == 0 else d.vec(-4, 4)])
        case["trails"].append(keys)
        case["supports"].append(keys[-1])
        for a, b in zip(keys, keys[1:]):
            pl = gen.plane(d) if d.flag(3) else None
            case["edges"].append(["t"] + ([a, b] if d.flag() else [b, a]) + [d.pick([-1.0, 1.0, 0.5, -2.0]), pl])
        q = [d._near_zero(-16, 16) / 8.0 for _ in range(3)]
        if kind == 1:
            i = d.int(0, n - 2)
            case["loads"].append([keys[i], q])
            case["loads"].append([keys[i + 1], [-x for x in q]])
        elif kind == 2:
            case["loads"].append([keys[d.int(0, n - 1)], q])
        if coincide is not None:
            case["edges"].append(["d", coincide, keys[0], d.pick([1.0, -0.75])])
            if any(o2 == coincide for o2, _ in case["shifts"]):
                case["shifts"].append([keys[0], dict(map(tuple, case["shifts"]))[coincide]])
    s = ref.solve(case)
    if not s.converged or s.warn_ambiguous or s.min_cos < 0.03:
        return None
    l0 = build.lscale(case)
    if s.min_plen < 0.02 * l0 or s.max_plen > 100 * l0:
        return None
    return case


def grazing(case, d):
    """A plane on the last edge of some trails that is almost parallel to the trail.

    The last edge, so that the ill-conditioned length does not spread through the structure.
    """
    case = gen.drop_planes(case)
    s = ref.solve(case)
    if not s.converged:
        return None
    ends = []
    edges = list(case["edges"])
    for t in case["trails"]:
        if len(t) < 2 or not (d.flag() or t is case["trails"][0]):
            continue
        a, b = t[-2], t[-1]
        if s.model.dev[b]:
            continue
        v = ref.unit(ref.sub(s.pos[b], s.pos[a]))
        w = ref.cross(v, d.pick(gen.AXES[:3]))
        if ref.norm(w) < 0.3:
            continue
        w = ref.unit(w)
        if d.flag():
            w = ref.unit(ref.cross(w, v))
        c = d.pick([1e-4, 1e-3, 0.01, 0.02, 3e-5, 1e-8]) * d.pick([1.0, -1.0])
        n = ref.add(w, ref.mul(v, c))
        n = ref.unit(n)
        length = [e[3] for e in edges if set(e[1:3]) == {a, b}][0]
        reach = abs(length) * d.pick([1.0, 2.5, 0.5, -1.0])
        o = ref.add(s.pos[a], ref.mul(v, reach if length > 0 else -reach))
        if abs(c) < 1e-7:
            o = ref.add(o, ref.mul(w, abs(length)))
        else:
            # anywhere in the plane
            x = ref.unit(ref.cross(n, v))
            o = ref.add(o, ref.mul(x, abs(length) * d.real(-2, 2)))
        ends.append([a, b, c])
        edges = [e if set(e[1:3]) != {a, b} else e[:4] + [[list(o), list(n)]] for e in edges]
    if not ends:
        return None
    return {"a": dict(case, edges=edges), "ends": ends}


def check_grazing(case, ctx):
    a = case["a"]
    s = ref.solve(a)
    if not s.converged:
        forms.fail("harness: reference does not converge")
    t = build.topology(a)
    cmin = min([abs(c) for _, _, c in case["ends"] if abs(c) > 1e-7] + [1.0])
    for _, _, c in case["ends"]:
        ctx.label("cosine %g" % abs(c))
    for which in ("pure", "numpy"):
        r = build.read(build.solve(t, which, a))
        forms.finite(r)
        forms.match_reference(r, s, tol=max(1e-6, 1e-9 / cmin))
    ctx.nontrivial(True)


SUBS = [Sub("random", gen.topology(singles=True, extreme=True), check, quick=4000, thorough=60000),
        Sub("degenerate", gen.with_dice(degenerate, extra=400, max_trails=3, max_len=4, max_dev=4, scales=False),
            check, quick=1200, thorough=20000),
        Sub("grazing", gen.with_dice(grazing, extra=200, max_trails=4, max_len=4, max_dev=5, indirect=False, planes=False),
            check_grazing, quick=600, thorough=20000)]
