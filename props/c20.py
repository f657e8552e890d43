"""C20: a topology diagram made from a quad mesh has trails that lead to the supports, and deviation edges elsewhere."""
from compas_cem.diagrams import TopologyDiagram
from compas_cem.loads import NodeLoad

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random quad meshes: grids of 2-7 x 2-8 vertices and rings (closed polyedges), arbitrary vertex keys, coordinates, order and "
        "orientation of polyedges, supports at one or both ends of all or of some columns, optional trail length, states and "
        "deviation force. Oracle: the plan (a column with one support is a trail to it, a column with two supports is two trails "
        "joined by a deviation edge at its middle, everything else is deviation edges except for edges between supports along a "
        "fully supported side), then build_trails() must find exactly these trails and form finding must reach equilibrium. "
        "Non-trivial: at least one column with two supports, or a closed polyedge.")


class QuadMesh(object):
    """The part of a compas_singular QuadMesh (not installed) that is read by the method."""
    def __init__(self, xyz, polyedges):
        self.xyz, self.lines, self.collected = xyz, polyedges, False

    def collect_polyedges(self):
        self.collected = True

    def polyedges(self, data=False):
        if not self.collected:
            return
        for i, p in enumerate(self.lines):
            yield (i, list(p)) if data else i

    def vertices(self, data=False):
        for k in self.xyz:
            yield (k, {}) if data else k

    def vertex_coordinates(self, key, axes="xyz"):
        return list(self.xyz[key])

    def number_of_vertices(self):
        return len(self.xyz)


def plan(d):
    nx, ny = d.int(2, 7), d.int(2, 8)
    ring = nx > 2 and d.flag(3)
    keys = gen.node_keys(d, nx * ny)
    at = {(i, j): keys[i * ny + j] for i in range(nx) for j in range(ny)}
    xyz = [[at[i, j], [i + 0.2 * d.real(-1, 1), 1.1 * j + 0.2 * d.real(-1, 1), 0.4 * d.real(-1, 1)]] for i in range(nx) for j in range(ny)]
    size = d.pick([1.0, 1.0, 1.0, 0.0007, 0.01, 90.0])
    xyz = [[k, [size * x for x in p]] for k, p in xyz]
    ends = []           # (bottom, top) per column
    mode = d.int(0, 3)
    for i in range(nx):
        corner = not ring and i in (0, nx - 1)
        if mode == 0:
            e = (True, False)
        elif mode == 1:
            e = (True, True)
        elif mode == 2:
            e = (False, True)
        else:           # some columns only; a corner would also be the end of a row
            e = (False, False) if corner else (d.flag(), d.flag())
        ends.append(e)
    return {"nx": nx, "ny": ny, "ring": ring, "xyz": d.shuffle(xyz), "at": [[i, j, k] for (i, j), k in at.items()], "ends": ends,
            "order": d.shuffle(range(nx + ny)), "flip": [d.flag() for _ in range(nx + ny)], "roll": d.int(0, nx - 1),
            "length": d.pick([None, 1.5, 0.25, 0.0005, 400.0]), "tstate": d.pick([None, -1, 1]), "force": d.pick([None, 0.5, 3.0, 0.001, 250.0]),
            "dstate": d.pick([None, -1, 1]), "loads": [[d.int(0, nx * ny - 1), d.vec(-2, 2)] for _ in range(d.int(0, 5))],
            "as": d.pick(["list", "tuple", "set"])}


def check(case, ctx):
    nx, ny, ring = case["nx"], case["ny"], case["ring"]
    at = {(i, j): k for i, j, k in case["at"]}
    xyz = {k: p for k, p in case["xyz"]}
    cols = [[at[i, j] for j in range(ny)] for i in range(nx)]
    rows = []
    for j in range(ny):
        row = [at[(i + case["roll"]) % nx if ring else i, j] for i in range(nx)]
        rows.append(row + [row[0]] if ring else row)
    lines = [list(p) for p in cols + rows]
    for p, f in zip(lines, case["flip"]):
        if f:
            p.reverse()
    supports = []
    for col, (a, b) in zip(cols, case["ends"]):
        supports += [col[0]] * bool(a) + [col[-1]] * bool(b)
    mesh = QuadMesh(xyz, [lines[i] for i in case["order"]])
    kw = {}
    for name, key in (("length", "trail_length"), ("tstate", "trail_state"), ("force", "deviation_force"), ("dstate", "deviation_state")):
        if case[name] is not None:
            kw[key] = case[name]
    t = TopologyDiagram.from_dualquadmesh(mesh, {"list": list, "tuple": tuple, "set": set}[case["as"]](supports), **kw)

    # the plan
    trails, devs, middles = [], set(), []
    for p, (a, b) in zip(lines[:nx], case["ends"]):
        s0, s1 = p[0] in supports, p[-1] in supports
        if s0 and s1:
            if ny > 2:
                middles.append(p)
        elif s0 or s1:
            trails.append(list(reversed(p)) if s0 else list(p))
        else:
            devs |= {frozenset(e) for e in zip(p, p[1:])}
    for p in lines[nx:]:
        if not ring and p[0] in supports and p[-1] in supports:
            if not all(v in supports for v in p):
                forms.fail("harness: a row with supported ends")
            continue
        devs |= {frozenset(e) for e in zip(p, p[1:])}
    got_t = {frozenset(e) for e in t.trail_edges()}
    got_d = {frozenset(e) for e in t.deviation_edges()}
    # a column between two supports: one deviation edge as close to the middle as can be
    for p in middles:
        es = [frozenset(e) for e in zip(p, p[1:])]
        here = [i for i, e in enumerate(es) if e in got_d]
        if len(here) != 1 or abs(here[0] - (len(es) - 1) / 2.0) > 0.5:
            forms.fail("column %s between two supports has deviation edges at %s", p, here)
        devs.add(es[here[0]])
        trails.append(list(reversed(p[:here[0] + 1])))
        trails.append(list(p[here[0] + 1:]))
    want_t = {frozenset(e) for tr in trails for e in zip(tr, tr[1:])}
    if got_t != want_t:
        forms.fail("trail edges are %s, expected %s", sorted(map(sorted, got_t)), sorted(map(sorted, want_t)))
    if got_d != devs:
        forms.fail("deviation edges are %s, expected %s", sorted(map(sorted, got_d)), sorted(map(sorted, devs)))
    if sorted(t.support_nodes()) != sorted(set(supports)):
        forms.fail("supports are %s, expected %s", sorted(t.support_nodes()), sorted(supports))
    if sorted(t.nodes()) != sorted(xyz):
        forms.fail("nodes are %s, expected %s", sorted(t.nodes()), sorted(xyz))
    for k, p in xyz.items():
        if ref.dist(t.node_coordinates(k), p) > 1e-12:
            forms.fail("node %s is at %s, expected %s", k, t.node_coordinates(k), p)
    sign = -1 if case["tstate"] is None else case["tstate"]
    for u, v in t.trail_edges():
        want = sign * (ref.dist(xyz[u], xyz[v]) if case["length"] is None else case["length"])
        if abs(t.edge_length_2((u, v)) - want) > 1e-12 * abs(want):
            forms.fail("length of trail edge %s is %s, expected %s", (u, v), t.edge_length_2((u, v)), want)
    want = (-1 if case["dstate"] is None else case["dstate"]) * (1.0 if case["force"] is None else case["force"])
    for e in t.deviation_edges():
        if t.edge_force(e) != want:
            forms.fail("force of deviation edge %s is %s, expected %s", e, t.edge_force(e), want)

    # the trails
    whole = [tr for tr in trails if len(tr) > 1]
    alone = {tr[0] for tr in trails if len(tr) == 1}
    covered = {n for tr in trails for n in tr}
    complete = covered | set(supports) == set(xyz) and whole
    for i, q in case["loads"]:
        k = case["xyz"][i][0]
        t.add_load(NodeLoad(k, q))
    if complete:
        t.build_trails()
        got = {k: list(v) for k, v in t.trails(keys=True) if len(v) > 1}
        if got != {tr[0]: tr for tr in whole}:
            forms.fail("trails are %s, expected %s", got, whole)
        c = {"nodes": case["xyz"], "trails": whole + [[k] for k in sorted(set(supports) - {n for tr in whole for n in tr})],
             "supports": sorted(set(supports)), "shifts": [],
             "loads": [[k, list(map(float, t.node_load(k)))] for k in sorted(xyz)],
             "edges": [["t", u, v, float(t.edge_length_2((u, v))), None] for u, v in t.trail_edges()] +
                      [["d", u, v, float(t.edge_force((u, v)))] for u, v in t.deviation_edges()]}
        if not alone:
            for which in ("pure", "numpy"):
                try:
                    form = build.SOLVERS[which](t, eta=1e-9, tmax=300)
                except ValueError:
                    ctx.label("no equilibrium found")
                    continue
                forms.equilibrium(build.read(form), c, 1e-9)
                ctx.label("solved")
    else:
        try:
            t.build_trails()
        except Exception:
            ctx.label("incomplete")
        else:
            forms.fail("build_trails() accepted a diagram with nodes outside of trails")
    ctx.label("ring" if ring else "grid", "two supports" if middles else "one support")
    ctx.nontrivial(bool(middles) or ring)


SUBS = [Sub("mesh", gen.from_dice(plan, size=1400), check, quick=2400, thorough=40000)]
