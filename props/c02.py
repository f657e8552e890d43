"""C02: a form diagram honours everything the topology diagram prescribes."""
import math

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub
from props import c03

RULE = ("Random structures (as in C01) solved by both solvers. Checked on every form: trail edges without a plane "
        "have the prescribed length and force state, ends of trail edges with a plane lie on it (or the prescribed "
        "length is used where there is no intersection), deviation forces, loads, origins, nodes, edges and supports "
        "are those of the input, the stored length is the distance between the ends signed by the force, and only "
        "supports react. In structures with parts that carry no force (as in C03) what the form stores still fits together. Non-trivial: prescribed trail lengths of both signs, or a plane, or a deviation edge.")


def check(case, ctx):
    labels = gen.classify(case, ctx)
    s = ref.solve(case)
    t = build.topology(case)
    m = s.model
    tedges = {frozenset(e[1:3]): e for e in case["edges"] if e[0] == "t"}
    dedges = {frozenset(e[1:3]): e for e in case["edges"] if e[0] == "d"}
    for which in ("pure", "numpy"):
        r = build.read(build.solve(t, which, case))
        forms.finite(r)
        if r.nodes != sorted(k for k, _ in case["nodes"]):
            forms.fail("nodes differ")
        if sorted(r.edges) != sorted(tuple(e[1:3]) for e in case["edges"]):
            forms.fail("edges differ: %s", r.edges)
        if r.supports != sorted(case["supports"]):
            forms.fail("supports differ: %s", r.supports)
        fs = forms.force_scale(r)
        for tr in case["trails"]:
            if ref.dist(r.pos[tr[0]], m.xyz[tr[0]]) > 1e-12 * s.scale:
                forms.fail("origin %s moved to %s", tr[0], r.pos[tr[0]])
        for n, q in m.load.items():
            if ref.dist(q, r.load[n]) > 1e-12 * max(m.fscale, 1e-12):
                forms.fail("load at %s became %s", n, r.load[n])
        for n in r.pos:
            if n not in m.supports and any(r.react[n]):
                forms.fail("node %s reacts but is no support: %s", n, r.react[n])
        for e, dist in ((frozenset(x), ref.dist(r.pos[x[0]], r.pos[x[1]])) for x in r.edges):
            f, ln = r.force[e], r.length[e]
            if abs(abs(ln) - dist) > 1e-9 * max(dist, s.scale * 1e-3):
                forms.fail("edge %s stores length %s but is %s long", sorted(e), ln, dist)
            if abs(f) > 1e-9 * fs and math.copysign(1.0, ln) != math.copysign(1.0, f):
                forms.fail("edge %s: length %s and force %s differ in state", sorted(e), ln, f)
            if e in dedges:
                if abs(f - dedges[e][3]) > 1e-12 * abs(f):
                    forms.fail("deviation force %s became %s", dedges[e], f)
                continue
            _, a, b, length, plane = tedges[e]
            if plane is None or e in s.fb_edges:
                if abs(dist - abs(length)) > 1e-9 * max(abs(length), s.scale):
                    forms.fail("trail edge %s is %s long, prescribed %s", (a, b), dist, length)
                if abs(f) > 1e-9 * fs and math.copysign(1.0, length) != math.copysign(1.0, f):
                    forms.fail("trail edge %s prescribed %s carries %s", (a, b), length, f)
                if plane is not None:
                    ctx.label("plane fallback")
            else:
                end = a if m.k[a] > m.k[b] else b
                off = ref.dot(ref.unit(plane[1]), ref.sub(r.pos[end], tuple(plane[0])))
                if abs(off) > 1e-8 * max(s.scale, ref.norm(plane[0])):
                    forms.fail("node %s is %s off its plane %s", end, off, plane)
    ctx.nontrivial(bool(labels & {"mixed trails", "plane", "direct deviation", "indirect deviation"}))


def parallel_planes(case, d):
    """Vertical loads only and planes that are exactly parallel to some of the trails."""
    out = dict(case)
    out["loads"] = [[k, [0.0, 0.0, -float(d.int(1, 3))]] for k, _ in case["nodes"]]
    edges = []
    for e in case["edges"]:
        if e[0] == "d":
            continue
        pl = None
        w = d.int(0, 3)
        if w == 0:
            pl = [d.vec(-5, 5), [1.0, 0.0, 0.0]]
        elif w == 1:
            pl = [d.vec(-5, 5), [0.0, -2.0, 0.0]]
        elif w == 2:
            pl = [[d.real(-5, 5), d.real(-5, 5), float(d.int(-90, 90))], [0.0, 0.0, d.pick([1.0, -1.0, 2.0])]]
        edges.append(e[:4] + [pl])
    # planes through the origin of a trail give no length either
    if d.flag(3):
        for i, e in enumerate(edges):
            for tr in case["trails"]:
                if len(tr) > 1 and set(e[1:3]) == {tr[0], tr[1]} and d.flag():
                    xyz = dict((k, p) for k, p in case["nodes"])
                    edges[i] = e[:4] + [[list(xyz[tr[0]]), [0.0, 0.0, 1.0]]]
    out["edges"] = edges
    s = ref.solve(out)
    if not s.converged or s.warn_ambiguous or s.min_plen < 0.02 * build.lscale(out):
        return None
    return out


def check_degenerate(case, ctx):
    """Where parts carry no force, lengths cannot be met, but what a form stores still fits together."""
    gen.classify(case, ctx)
    t = build.topology(case)
    m = ref.prepare(case)
    for which in ("pure", "numpy"):
        r = build.read(build.solve(t, which, case))
        forms.finite(r)
        sc = max([ref.norm(p) for p in r.pos.values()] + [1e-12])
        for tr in case["trails"]:
            if ref.dist(r.pos[tr[0]], m.xyz[tr[0]]) > 1e-12 * sc:
                forms.fail("origin %s moved to %s", tr[0], r.pos[tr[0]])
        for n in r.pos:
            if ref.dist(m.load[n], r.load[n]) > 1e-12 * max(m.fscale, 1e-12):
                forms.fail("load at %s became %s", n, r.load[n])
            if n not in m.supports and any(r.react[n]):
                forms.fail("node %s reacts but is no support: %s", n, r.react[n])
        fs = forms.force_scale(r)
        for e in r.edges:
            f, ln, dist = r.force[frozenset(e)], r.length[frozenset(e)], ref.dist(r.pos[e[0]], r.pos[e[1]])
            if abs(abs(ln) - dist) > 1e-9 * sc:
                forms.fail("edge %s stores length %s but is %s long", e, ln, dist)
            if abs(f) > 1e-9 * fs and math.copysign(1.0, ln) != math.copysign(1.0, f):
                forms.fail("edge %s: length %s and force %s differ in state", e, ln, f)
    ctx.nontrivial()


SUBS = [Sub("random", gen.topology(singles=True, extreme=True), check, quick=4000, thorough=60000),
        Sub("planes", gen.with_dice(parallel_planes, extra=500, posed=False, scales=False, shifts=False),
            check, quick=1200, thorough=20000),
        Sub("degenerate", gen.with_dice(c03.degenerate, extra=400, max_trails=3, max_len=4, max_dev=4, scales=False),
            check_degenerate, quick=400, thorough=10000)]
