"""Hypothesis strategies for topology cases.

A topology case is plain JSON:

  nodes    [[key, [x, y, z]], ...]              in order of insertion
  trails   [[origin, ..., support], ...]        what build_trails() has to find
  edges    [["t", u, v, length, plane|None], ["d", u, v, force], ...]   in order of insertion
  supports [key, ...]                            in order of insertion
  loads    [[key, [qx, qy, qz]], ...]            in order of insertion
  shifts   [[origin key, sequence], ...]
  style    how the objects are handed to the API (see lib.build)
"""
from hypothesis import strategies as st

from lib import ref
from lib.core import Discard  # noqa: F401

class Dice(object):
    """Decodes a byte string drawn by Hypothesis into structured choices.

    All randomness is in the bytes, so that Hypothesis replays and shrinks a case by shrinking
    them; zero bytes (and the end of the string) decode to the simplest choice.
    """
    def __init__(self, data):
        self.data = data
        self.i = 0

    def byte(self):
        i = self.i
        self.i = i + 1
        return self.data[i] if i < len(self.data) else 0

    def int(self, lo, hi):
        n = hi - lo + 1
        if n <= 64:
            return lo + self.byte() % n
        v = 0
        span = n
        while span > 0:
            v = (v << 8) | self.byte()
            span >>= 8
        return lo + v % n

    def flag(self, one_in=2):
        """True once in ``one_in`` times; the simplest choice is False."""
        return self.byte() % one_in == one_in - 1

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def unit(self):
        v = 0
        for _ in range(5):
            v = (v << 8) | self.byte()
        return v / float(1 << 40)

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def real(self, lo, hi):
        """Numbers in [lo, hi]: small integers, eighths and arbitrary floats; 0 is the simplest."""
        c = self.byte() % 4
        if c == 0:
            return float(self._near_zero(lo, hi))
        if c == 1:
            return self._near_zero(lo * 8, hi * 8) / 8.0
        x = self.uniform(lo, hi)
        return 0.0 if abs(x) < 1e-6 else x

    def _near_zero(self, lo, hi):
        """Integers in [lo, hi], 0 first."""
        v = self.int(0, hi - lo)
        return v if v <= hi else hi - v

    def vec(self, lo, hi):
        return [self.real(lo, hi) for _ in range(3)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.int(0, i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def distinct(self, n, lo, hi):
        out, seen = [], set()
        for _ in range(n):
            v = self.int(lo, hi)
            while v in seen:
                v = v + 1 if v < hi else lo
            seen.add(v)
            out.append(v)
        return out


def node_keys(d, n):
    mode = d.int(0, 3)
    if mode == 0:
        return list(range(n))
    if mode == 1:
        return d.shuffle(range(n))
    if mode == 2:
        return d.distinct(n, 0, max(60, 2 * n))
    return d.distinct(n, 0, 100000)


AXES = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [-1.0, 0.0, 0.0],
        [0.6, 0.8, 0.0], [0.0, -0.6, 0.8]]


def plane(d):
    o = d.vec(-6, 6) if not d.flag(6) else [0.0, 0.0, 0.0]
    n = d.pick(AXES) if not d.flag() else d.vec(-3, 3)
    if ref.norm(n) < 0.5:
        n = [0.0, 0.0, 1.0]
    return [o, list(n)]


def force(d, small=False):
    if small and d.flag(12):
        return d.pick([1e-4, -1e-4, 1e-3, -2e-3, 3e-5])
    if d.flag():
        x = d.uniform(-2.0, 2.0)
        return 0.0 if abs(x) < 1e-6 else x
    return d.pick([-1.0, 1.0, -0.5, 0.5, 2.0, -2.0, 0.0])


def raw_case(blobs, max_trails=5, max_len=6, max_dev=8, indirect=True, planes=True, shifts=True,
             style=True, singles=False, big=True, direct=True, scales=True, min_trails=1, extreme=False):
    """A topology case before it is made well-posed, decoded from byte strings."""
    d, dc, de, dl = [Dice(b) for b in blobs]
    if big and d.flag(24):
        max_trails, max_len, max_dev = max_trails + 5, max_len + 5, max_dev + 8
    elif big and extreme and d.flag(64):
        if max_trails > 2 and not d.flag():
            min_trails, max_trails, max_len = 11, 24, 4
        elif min_trails < 3:
            max_trails, max_len = 2, 28
    nt = d.int(min_trails, max_trails)
    lens = [d.int(2, max_len) for _ in range(nt)]
    if d.flag(4):
        lens = [lens[0]] * nt
    if singles and nt > 1 and d.flag(3):
        lens[d.int(1, nt - 1)] = 1
    n = sum(lens)
    keys = node_keys(d, n)
    trails, c = [], 0
    for ln in lens:
        trails.append(keys[c:c + ln])
        c += ln

    # geometry
    spread = dc.pick([2.0, 1.0, 4.0])
    layout = dc.int(0, 2)
    xyz = {}
    for i, t in enumerate(trails):
        j = dc.vec(-1, 1)
        if layout == 0:
            o = [i * spread + 0.25 * j[0], 0.25 * j[1], 0.25 * j[2]]
        elif layout == 1:
            o = [(i % 3) * spread + 0.3 * j[0], (i // 3) * spread + 0.3 * j[1], 0.3 * j[2]]
        else:
            o = dc.vec(-8, 8)
        xyz[t[0]] = o
        for idx, k in enumerate(t[1:]):
            xyz[k] = dc.vec(-8, 8) if layout == 2 else [o[0], o[1] + 0.5 * (idx + 1), o[2] + dc.real(-4, 4)]

    k_of = {}
    for t in trails:
        for i, k in enumerate(t):
            k_of[k] = i
    sh = []
    if shifts and d.flag(4):
        far = d.pick([31, 97]) if d.flag(5) else 0
        for t in trails:
            if len(t) > 1 and d.flag():
                s = d.int(0, 4) + far
                sh.append([t[0], s])
                for i, k in enumerate(t):
                    k_of[k] = s + i

    # edges
    edges = []
    per_edge_signs = de.flag(3)
    with_planes = planes and de.flag(3)
    for t in trails:
        tsign = de.pick([-1.0, 1.0])
        for a, b in zip(t, t[1:]):
            s = de.pick([-1.0, 1.0]) if per_edge_signs else tsign
            ln = s * (de.uniform(0.25, 4.0) if de.flag() else de.pick([1.0, 0.5, 2.0]))
            if extreme and de.flag(24):
                ln *= de.pick([0.02, 10.0, 0.003])
            if de.flag(3):
                a, b = b, a
            pl = plane(de) if with_planes and de.flag() else None
            edges.append(["t", a, b, ln, pl])

    taken = {frozenset(e[1:3]) for e in edges}
    pairs_direct, pairs_indirect = [], []
    for i in range(n):
        for j in range(i + 1, n):
            a, b = keys[i], keys[j]
            if frozenset((a, b)) in taken:
                continue
            (pairs_direct if k_of[a] == k_of[b] else pairs_indirect).append((a, b))
    pools = []
    if direct and pairs_direct:
        pools.append(pairs_direct)
    if indirect and pairs_indirect:
        pools.append(pairs_indirect)
    nd = de.int(0, max_dev) if pools else 0
    if nd and direct and de.flag(3):
        # connect neighbouring trails level by level, as most structures do
        for t1, t2 in zip(trails, trails[1:]):
            for a in t1:
                for b in t2:
                    if k_of[a] == k_of[b] and not de.flag(4) and frozenset((a, b)) not in taken:
                        taken.add(frozenset((a, b)))
                        edges.append(["d"] + ([b, a] if de.flag() else [a, b]) + [force(de, extreme)])
    if nd and extreme and de.flag(10):
        # one node that many others are connected to
        a = de.pick(keys)
        for b in keys:
            if a != b and frozenset((a, b)) not in taken and (direct if k_of[a] == k_of[b] else indirect) and not de.flag(4):
                taken.add(frozenset((a, b)))
                edges.append(["d"] + ([b, a] if de.flag() else [a, b]) + [0.5 * force(de, extreme)])
    for _ in range(nd):
        pool = pools[0] if len(pools) == 1 else de.pick(pools)
        a, b = de.pick(pool)
        if frozenset((a, b)) in taken:
            continue
        taken.add(frozenset((a, b)))
        f = force(de, extreme)
        if pool is pairs_indirect:
            f *= de.pick([1.0, 0.25, 0.5])
        if de.flag():
            a, b = b, a
        edges.append(["d", a, b, f])

    # loads
    loads = []
    lmode = dl.int(0, 3)
    for k in keys:
        if lmode == 0:
            loads.append([k, [0.0, 0.0, dl.pick([-1.0, -2.0, -0.5])]])
        elif dl.flag(5):
            continue
        elif lmode == 1:
            loads.append([k, [0.0, dl._near_zero(-24, 24) / 8.0, 0.0]])
        else:
            loads.append([k, dl.vec(-3, 3)])
        if extreme and loads and dl.flag(24):
            w = dl.pick([1e-3, 1e-4, 30.0])
            loads[-1][1] = [x * w for x in loads[-1][1]]

    if extreme and dl.flag(20):
        # far from the origin of the coordinates
        far = [dl.pick([300.0, -1000.0, 0.0]) for _ in range(3)]
        for k in xyz:
            xyz[k] = [x + y for x, y in zip(xyz[k], far)]
        for e in edges:
            if e[0] == "t" and e[4] is not None:
                e[4] = [[x + y for x, y in zip(e[4][0], far)], e[4][1]]

    nodes = [[k, xyz[k]] for k in keys]
    supports = [t[-1] for t in trails]
    if d.flag():
        nodes, edges, supports, loads = d.shuffle(nodes), d.shuffle(edges), d.shuffle(supports), d.shuffle(loads)

    case = {"nodes": [list(x) for x in nodes], "trails": [list(t) for t in trails],
            "edges": [list(e) for e in edges], "supports": list(supports),
            "loads": [list(x) for x in loads], "shifts": sh}
    if scales and d.flag():
        fs, ls = d.pick([1.0, 1000.0, 0.01]), d.pick([1.0, 100.0, 0.1])
        if extreme and d.flag(3):
            fs, ls = d.pick([1e-8, 1e7, 1e-5]), d.pick([1.0, 1e-4, 300.0])
        case = scale_case(case, fs, ls)
    case["style"] = [d.int(0, 3) for _ in range(6)] if style else [0] * 6
    return case


SIZES = (300, 1000, 1000, 700)


def split(data):
    out, c = [], 0
    for n in SIZES:
        out.append(data[c:c + n])
        c += n
    return out


def blobs():
    # one draw: Hypothesis tends to fill the later of several draws with the simplest value
    n = sum(SIZES)
    return st.binary(min_size=n, max_size=n).map(split)


def dice(size=64):
    """A Dice for the choices other than the topology."""
    return st.binary(min_size=size, max_size=size).map(Dice)


def raw_topology(**kw):
    return blobs().map(lambda b: raw_case(b, **kw))


def scale_case(case, fs, ls):
    out = dict(case)
    out["nodes"] = [[k, [x * ls for x in p]] for k, p in case["nodes"]]
    out["loads"] = [[k, [x * fs for x in q]] for k, q in case["loads"]]
    edges = []
    for e in case["edges"]:
        if e[0] == "t":
            pl = e[4]
            if pl is not None:
                pl = [[x * ls for x in pl[0]], pl[1]]
            edges.append(["t", e[1], e[2], e[3] * ls, pl])
        else:
            edges.append(["d", e[1], e[2], e[3] * fs])
    out["edges"] = edges
    return out


PUSH = [0.31, -0.23, -0.83]


def well_posed(case, max_amp=1e3, max_iters=60):
    """Repair a raw case until the reference solver says its equilibrium is well-defined:
    the iteration contracts, no trail direction is undefined or nearly so, no deviation edge
    degenerates, and plane intersections are not nearly parallel.  Returns None if that fails."""
    for attempt in range(9):
        m = ref.prepare(case)
        s = ref.solve(case, model=m)
        f = m.fscale or 1.0
        lref = max([abs(e[3]) for e in case["edges"] if e[0] == "t"] + [1e-12])
        has_plane = any(e[0] == "t" and e[4] is not None for e in case["edges"])
        if not s.converged or s.iters > max_iters:
            if has_plane and attempt in (2, 5):
                case = drop_planes(case)
            elif attempt < 5:
                case = damp_indirect(case, m, 0.3)
            else:
                case = damp_indirect(case, m, 0.0)
            continue
        if s.warn_ambiguous or s.min_cos < 0.03 or s.min_plen < 0.05 * lref or s.max_plen > 60 * lref:
            case = drop_planes(case, s.bad_planes if attempt < 5 else None)
            continue
        if s.min_dev < 0.02 * lref:
            case = drop_short(case, s, 0.05 * lref)
            continue
        if s.zero_res or s.min_res < 5e-3:
            case = push(case, m, s, f)
            continue
        amp = ref.amplification(case, s)
        if amp > max_amp:
            if attempt < 5:
                case = damp_indirect(case, m, 0.3) if attempt % 2 else push(case, m, s, f)
            else:
                case = damp_indirect(drop_planes(case), m, 0.0)
            continue
        orders = [ref.solve(case, model=m, reverse=r) for r in (True, "nodes")]
        if any(not r.converged or max(ref.dist(s.pos[n], r.pos[n]) for n in s.pos) > 1e-9 * s.scale for r in orders):
            case = damp_indirect(case, m, 0.3)
            continue
        return case
    return None


def weaker(case, f):
    """The same geometry with all forces scaled."""
    out = dict(case)
    out["loads"] = [[n, [f * x for x in q]] for n, q in case["loads"]]
    out["edges"] = [e if e[0] == "t" else e[:3] + [f * e[3]] for e in case["edges"]]
    return out


def drop_planes(case, of=None):
    """Without planes, or without those of some edges."""
    out = dict(case)
    out["edges"] = [e if e[0] == "d" or (of and frozenset(e[1:3]) not in of) else e[:4] + [None] for e in case["edges"]]
    return out


def drop_short(case, s, lmin):
    out = dict(case)
    out["edges"] = [e for e in case["edges"] if e[0] == "t" or e[3] == 0.0
                    or ref.dist(s.pos[e[1]], s.pos[e[2]]) > 2 * lmin]
    if len(out["edges"]) == len(case["edges"]):
        # it was short on the way to the solution only
        out["edges"] = [e for e in case["edges"] if e[0] == "t"]
    return out


def damp_indirect(case, m, factor):
    out = dict(case)
    edges = []
    for e in case["edges"]:
        if e[0] == "d" and m.k[e[1]] != m.k[e[2]]:
            if factor == 0.0:
                continue
            e = e[:3] + [e[3] * factor]
        edges.append(e)
    out["edges"] = edges
    return out


def push(case, m, s, f):
    """Add a load at the origins, so that no trail runs out of force."""
    loads = {k: list(q) for k, q in case["loads"]}
    order = [k for k, _ in case["loads"]]
    for i, t in enumerate(m.trails):
        if len(t) == 1:
            continue
        for j, n in enumerate(t[:-1]):
            if n not in loads:
                loads[n] = [0.0, 0.0, 0.0]
                order.append(n)
            w = f * (1.0 + 0.37 * i) if j == 0 else 0.1 * f
            loads[n] = [a + b * w for a, b in zip(loads[n], PUSH)]
    out = dict(case)
    out["loads"] = [[k, loads[k]] for k in order]
    return out


def topology(max_amp=1e3, **kw):
    """A well-posed topology case."""
    return blobs().map(lambda b: well_posed(raw_case(b, **kw), max_amp=max_amp)).filter(lambda c: c is not None)


def with_dice(fn, extra=128, max_amp=1e3, posed=True, **kw):
    """A case made by ``fn(topology case, dice)``, with all choices decoded from one byte string."""
    n = sum(SIZES)

    def make(data):
        case = raw_case(split(data[:n]), **kw)
        if posed:
            case = well_posed(case, max_amp=max_amp)
            if case is None:
                return None
        return fn(case, Dice(data[n:]))
    return st.binary(min_size=n + extra, max_size=n + extra).map(make).filter(lambda c: c is not None)


def from_dice(fn, size=256):
    """A case made by ``fn(dice)``."""
    return st.binary(min_size=size, max_size=size).map(lambda b: fn(Dice(b))).filter(lambda c: c is not None)


def classify(case, ctx):
    """Label a case; returns the set of labels."""
    m = ref.prepare(case)
    out = set()
    nd = [e for e in case["edges"] if e[0] == "d"]
    direct = [e for e in nd if m.k[e[1]] == m.k[e[2]]]
    if direct:
        out.add("direct deviation")
    if len(direct) < len(nd):
        out.add("indirect deviation")
    if any(e[0] == "t" and e[4] is not None for e in case["edges"]):
        out.add("plane")
    if case["shifts"]:
        out.add("shifted")
    if len(case["trails"]) > 1:
        out.add("multi-trail")
    if len({len(t) for t in case["trails"]}) > 1:
        out.add("unequal trails")
    if any(len(t) == 1 for t in case["trails"]):
        out.add("lone support")
    if max(len(t) for t in case["trails"]) > 6:
        out.add("long trail")
    if max([len(v) for v in m.dev.values()]) > 2:
        out.add("busy node")
    if max([len(v) for v in m.dev.values()]) > 7:
        out.add("hub")
    if len(case["trails"]) > 10:
        out.add("many trails")
    if max(len(t) for t in case["trails"]) > 11:
        out.add("very long trail")
    if ref.norm(case["nodes"][0][1]) > 100 * max(abs(e[3]) for e in case["edges"] if e[0] == "t"):
        out.add("far away")
    if not nd:
        out.add("no deviation")
    signs = {e[3] > 0 for e in case["edges"] if e[0] == "t"}
    out.add("mixed trails" if len(signs) > 1 else "pure trails")
    ctx.label(*sorted(out))
    return out
