"""An independent reference implementation of combinatorial form finding.

It works on the plain *topology case* made by lib.gen (never on the objects of the code under
test), in plain floats.  The unknowns are the node positions.  Per trail, walking from the origin:

    outgoing force(node) = incoming force(node) - load(node) - sum of deviation forces(node)
    next position        = position + length * outgoing / |outgoing|

with a deviation force at a node pulling (force > 0) towards the other end of the edge.
"""
import math


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def mul(a, s):
    return (a[0] * s, a[1] * s, a[2] * s)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def dist(a, b):
    return norm(sub(a, b))


def unit(a):
    n = norm(a)
    if n == 0.0:
        return (0.0, 0.0, 0.0)
    return (a[0] / n, a[1] / n, a[2] / n)


class State(object):
    pass


def prepare(case):
    """Index a topology case."""
    m = State()
    m.trails = [list(t) for t in case["trails"]]
    m.start = {t[0]: 0 for t in m.trails}
    for origin, k in case.get("shifts", []):
        m.start[origin] = k
    m.k = {}
    for t in m.trails:
        for i, n in enumerate(t):
            m.k[n] = m.start[t[0]] + i
    m.xyz = {n: tuple(p) for n, p in case["nodes"]}
    m.load = {n: (0.0, 0.0, 0.0) for n in m.xyz}
    for n, q in case["loads"]:
        m.load[n] = tuple(q)
    m.tedge = {}
    m.dev = {n: [] for n in m.xyz}
    m.devs = []
    for e in case["edges"]:
        if e[0] == "t":
            m.tedge[frozenset(e[1:3])] = (e[3], e[4])
        else:
            u, v, f = e[1:4]
            m.dev[u].append((v, f))
            m.dev[v].append((u, f))
            m.devs.append((u, v, f))
    m.supports = set(case["supports"])
    m.fscale = max([abs(f) for _, _, f in m.devs] + [norm(q) for q in m.load.values()] + [0.0])
    m.kmax = max(m.k.values())
    return m


def solve(case, kmax=None, tol=1e-13, tmax=300, reverse=False, indirect=True, model=None, fixed=None):
    """Returns a State with the positions, forces and reactions, and diagnostics.

    fixed : run exactly this number of iterations.
    """
    m = model or prepare(case)
    pos = dict(m.xyz)
    trails = m.trails[::-1] if reverse is True else m.trails
    if reverse == "nodes":       # by the order of insertion of the supports
        rank = {k: i for i, (k, _) in enumerate(case["nodes"])}
        trails = sorted(m.trails, key=lambda t: rank[t[-1]])
    elif reverse == "nodes reversed":
        rank = {k: i for i, (k, _) in enumerate(case["nodes"])}
        trails = sorted(m.trails, key=lambda t: -rank[t[-1]])
    elif reverse == "keys":
        trails = sorted(m.trails)
    elif reverse == "keys reversed":
        trails = sorted(m.trails, reverse=True)
    last = m.kmax if kmax is None else min(kmax, m.kmax)
    by_k = [[] for _ in range(last + 1)]
    for t in trails:
        for i, n in enumerate(t):
            if m.k[n] <= last:
                by_k[m.k[n]].append((t, i, n))
    s = State()
    s.model = m
    s.warn_ambiguous = False
    s.min_res = float("inf")     # smallest |outgoing force| at nodes where it sets a direction
    s.min_dev = float("inf")     # shortest deviation edge
    s.min_cos = float("inf")
    s.min_plen = float("inf")
    s.max_plen = 0.0
    s.zero_res = 0
    s.moves = []                 # sum, and root of the sum of squares, of the displacements in each iteration
    s.bad_planes = set()         # edges whose plane is (almost) parallel, or too close or far
    s.fallbacks = 0
    s.flips = 0
    s.converged = False
    scale = max([norm(p) for p in pos.values()] + [abs(l) for l, _ in m.tedge.values()] + [1e-12])
    lref = max([abs(l) for l, _ in m.tedge.values()] + [1e-12])
    s.iters = 0
    for it in range(fixed or tmax):
        s.iters = it + 1
        old = dict(pos)
        out = {}
        react = {}
        tforce = {}
        tdir = {}
        fell = flips = 0
        s.fb_edges = set()
        for row in by_k:
            for t, i, n in row:
                inc = out[t[i - 1]] if i > 0 else (0.0, 0.0, 0.0)
                q = m.load[n]
                vx, vy, vz = inc[0] - q[0], inc[1] - q[1], inc[2] - q[2]
                p = pos[n]
                big = max(abs(inc[0]), abs(inc[1]), abs(inc[2]), abs(q[0]), abs(q[1]), abs(q[2]))
                for o, f in m.dev[n]:
                    if it == 0 and m.k[o] != m.k[n]:
                        continue
                    if not indirect and m.k[o] != m.k[n]:
                        continue
                    d = sub(pos[o], p)
                    ln = norm(d)
                    if ln > 0.0:
                        vx -= f * d[0] / ln
                        vy -= f * d[1] / ln
                        vz -= f * d[2] / ln
                    if f != 0.0:
                        s.min_dev = min(s.min_dev, ln)
                        big = max(big, abs(f))
                v = (vx, vy, vz)
                out[n] = v
                if i == len(t) - 1 or m.k[n] == last:
                    react[n] = v
                    continue
                nxt = t[i + 1]
                length, plane = m.tedge[frozenset((n, nxt))]
                r = norm(v)
                if r == 0.0:
                    s.zero_res += 1
                else:
                    s.min_res = min(s.min_res, r / big if big else 1.0)
                u = unit(v)
                if plane is not None and r > 0.0:
                    po, pn = plane
                    c = dot(pn, u)
                    num = dot(pn, sub(po, p))
                    nn = norm(pn)
                    ca = abs(c) / nn
                    if ca < 1e-6:
                        fell += 1
                        s.fb_edges.add(frozenset((n, nxt)))
                        if ca > 1e-12:
                            s.warn_ambiguous = True
                            s.bad_planes.add(frozenset((n, nxt)))
                    else:
                        s.min_cos = min(s.min_cos, ca)
                        if ca < 0.03:
                            s.bad_planes.add(frozenset((n, nxt)))
                        pl = num / c
                        if pl == 0.0:
                            fell += 1
                            s.fb_edges.add(frozenset((n, nxt)))
                            if i > 0:
                                s.warn_ambiguous = True
                                s.bad_planes.add(frozenset((n, nxt)))
                        else:
                            if not 0.05 * lref <= abs(pl) <= 60.0 * lref:
                                s.bad_planes.add(frozenset((n, nxt)))
                            s.min_plen = min(s.min_plen, abs(pl))
                            s.max_plen = max(s.max_plen, abs(pl))
                            if pl * length < 0.0:
                                flips += 1
                            length = pl
                elif plane is not None:
                    fell += 1
                    s.fb_edges.add(frozenset((n, nxt)))
                pos[nxt] = (p[0] + length * u[0], p[1] + length * u[1], p[2] + length * u[2])
                key = frozenset((n, nxt))
                tforce[key] = math.copysign(r, length)
                tdir[key] = length
        s.fallbacks, s.flips = fell, flips
        move = square = 0.0
        bad = False
        for n, p in pos.items():
            d = dist(p, old[n])
            if not math.isfinite(d) or d > 1e9 * scale:
                bad = True
            move += d
            square += d * d
        s.moves.append((move, math.sqrt(square)))
        if bad:
            break
        if fixed:
            s.converged = True
        elif it > 0 and move <= tol * max(scale, max(norm(p) for p in pos.values())):
            s.converged = True
            break
    s.pos, s.tforce, s.react, s.tlen = pos, tforce, react, tdir
    s.scale = max([norm(p) for p in pos.values()] + [scale])
    s.lmin = min([abs(l) for l in tdir.values()] + [float("inf")])
    return s


def perturbed(case, eps, phase):
    """The same case with loads, forces, lengths and origins perturbed relatively by ~eps."""
    out = dict(case)
    c = [phase]

    def w():
        c[0] = (c[0] * 16807 + 12345) % 2147483647
        return 1.0 + eps * (2.0 * (c[0] / 2147483647.0) - 1.0)
    big = max([norm(q) for _, q in case["loads"]] + [abs(e[3]) for e in case["edges"] if e[0] == "d"] + [0.0])
    far = max([norm(p) for _, p in case["nodes"]] + [1e-12])
    out["nodes"] = [[n, [x + far * (w() - 1.0) for x in p]] for n, p in case["nodes"]]
    out["loads"] = [[n, [x + big * (w() - 1.0) for x in q]] for n, q in case["loads"]]
    out["edges"] = [[e[0], e[1], e[2], e[3] * w()] + list(e[4:]) for e in case["edges"]]
    return out


def amplification(case, base, eps=1e-7):
    """How strongly the positions react to relative perturbations of the input."""
    worst = 0.0
    for phase in (11, 2027):
        s = solve(perturbed(case, eps, phase), tol=1e-13)
        if not s.converged:
            return float("inf")
        for n in base.pos:
            worst = max(worst, dist(base.pos[n], s.pos[n]) / (eps * base.scale))
        f = max(base.model.fscale, 1e-300)
        for n in base.react:
            worst = max(worst, dist(base.react[n], s.react[n]) / (eps * f))
    return worst
