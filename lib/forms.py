"""Oracles on form diagrams."""
import math

from lib import ref


class Violation(AssertionError):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def finite(r):
    for d in (r.pos, r.react, r.load):
        for k, v in d.items():
            if not all(math.isfinite(x) for x in v):
                fail("not finite at node %s: %s", k, v)
    for d in (r.force, r.length):
        for k, v in d.items():
            if not math.isfinite(v):
                fail("not finite at edge %s: %s", sorted(k), v)


def edge_vectors(r):
    """Unit vectors and lengths of the edges of a result, from the node coordinates."""
    out = {}
    for e in r.edges:
        u, v = e
        d = ref.sub(r.pos[v], r.pos[u])
        out[e] = (ref.unit(d), ref.norm(d))
    return out


def force_scale(r):
    return max([abs(f) for f in r.force.values()] + [ref.norm(q) for q in r.load.values()] + [1e-12])


def equilibrium(r, case, eta):
    """Every node of a form diagram is in static equilibrium, and so is the structure as a whole.

    The tolerance is rigorous: the solver accepts positions that moved less than eta in the last
    iteration, which rotates an edge of length l by at most 2 eta / l.
    """
    supports = set(case["supports"])
    vecs = edge_vectors(r)
    dev = {frozenset(e[1:3]): e[3] for e in case["edges"] if e[0] == "d"}
    fs = force_scale(r)
    total = {n: list(q) for n, q in r.load.items()}
    tol = {n: 1e-9 * fs for n in r.pos}
    for e, (u, ln) in vecs.items():
        a, b = e
        f = r.force[frozenset(e)]
        total[a] = [x + f * y for x, y in zip(total[a], u)]
        total[b] = [x - f * y for x, y in zip(total[b], u)]
        slack = 1e-12 * fs * max(1.0, max(ref.norm(r.pos[a]), ref.norm(r.pos[b])) / max(ln, 1e-12))
        if frozenset(e) in dev:
            slack += 8.0 * abs(f) * eta / max(ln - 4 * eta, 1e-12)
        tol[a] += slack
        tol[b] += slack
    for n in r.pos:
        if n in supports:
            total[n] = [x + y for x, y in zip(total[n], r.react[n])]
        if ref.norm(total[n]) > tol[n] * len(r.pos):
            fail("node %s is out of balance by %s (tolerance %s)", n, total[n], tol[n])
    # as a whole
    sumf = [0.0, 0.0, 0.0]
    summ = [0.0, 0.0, 0.0]
    reach = max(ref.norm(p) for p in r.pos.values())
    for n, p in r.pos.items():
        f = list(r.load[n])
        if n in supports:
            f = [x + y for x, y in zip(f, r.react[n])]
        sumf = [x + y for x, y in zip(sumf, f)]
        summ = [x + y for x, y in zip(summ, ref.cross(p, f))]
    t = sum(tol.values())
    if ref.norm(sumf) > t * len(r.pos):
        fail("loads and reactions do not add up to zero: %s", sumf)
    if ref.norm(summ) > t * len(r.pos) * max(reach, 1e-9):
        fail("moments of loads and reactions do not add up to zero: %s", summ)


def match_reference(r, s, tol=1e-6, skip_nodes=()):
    """A form agrees with the state computed by the reference solver."""
    fs = max(s.model.fscale, max([abs(f) for f in s.tforce.values()] + [0.0]), 1e-12)
    for n, p in s.pos.items():
        if n in skip_nodes:
            continue
        if not ref.dist(p, r.pos[n]) <= tol * s.scale:
            fail("node %s is at %s, expected %s", n, r.pos[n], p)
    for e, f in s.tforce.items():
        if not abs(f - r.force[e]) <= tol * fs:
            fail("trail edge %s carries %s, expected %s", sorted(e), r.force[e], f)
    for u, v, f in s.model.devs:
        if not abs(f - r.force[frozenset((u, v))]) <= tol * fs:
            fail("deviation edge %s carries %s, expected %s", (u, v), r.force[frozenset((u, v))], f)
    for n in s.pos:
        want = s.react.get(n, (0.0, 0.0, 0.0))
        if not ref.dist(want, r.react[n]) <= tol * fs:
            fail("reaction at node %s is %s, expected %s", n, r.react[n], want)


def same(a, b, tol=1e-6, key=lambda k: k):
    """Two results agree; ``key`` maps the node keys of a to those of b."""
    fs = max(force_scale(a), force_scale(b))
    sc = max([ref.norm(p) for p in a.pos.values()] + [abs(x) for x in a.length.values()] + [1e-12])
    if sorted(key(n) for n in a.pos) != sorted(b.pos):
        fail("different nodes")
    for n, p in a.pos.items():
        m = key(n)
        if not ref.dist(p, b.pos[m]) <= tol * sc:
            fail("node %s: %s vs %s", n, p, b.pos[m])
        if not ref.dist(a.react[n], b.react[m]) <= tol * fs:
            fail("reaction at %s: %s vs %s", n, a.react[n], b.react[m])
        if not ref.dist(a.load[n], b.load[m]) <= tol * fs:
            fail("load at %s: %s vs %s", n, a.load[n], b.load[m])
    if {frozenset(map(key, e)) for e in a.force} != set(b.force):
        fail("different edges")
    for e, f in a.force.items():
        g = frozenset(map(key, e))
        if not abs(f - b.force[g]) <= tol * fs:
            fail("force in %s: %s vs %s", sorted(e), f, b.force[g])
        la, lb = a.length[e], b.length[g]
        if abs(f) <= 1e-9 * fs:
            la, lb = abs(la), abs(lb)   # the sign follows the sign of a force of zero
        if not abs(la - lb) <= tol * sc:
            fail("length of %s: %s vs %s", sorted(e), la, lb)
    if sorted(map(key, a.supports)) != sorted(b.supports):
        fail("different supports")
