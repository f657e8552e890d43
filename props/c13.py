"""C13: nodes are found by their coordinates, and diagrams can be built from geometry alone."""
from compas.geometry import Line
from compas.geometry import Point
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("(a) Random histories of additions from geometry (nodes from points, edges from lines, supports and loads at "
        "points, nodes moved) with coordinates jittered within the tolerance of the diagram, against a dictionary model; "
        "after each step every occupied, abandoned and empty location is looked up. (b) Random structures built from "
        "lines, points and vectors only, compared with the same structure built from node keys, before and after form "
        "finding, and looked up in the form diagram. Locations shared by two nodes are excluded. Non-trivial: (a) an edge "
        "that connects to a node found by its location, or a move; (b) a node shared by two edges.")

# number of decimals of the diagram tolerance, and the grid on which nodes are unambiguous
TOLS = {"3f": 0.01, "1f": 1.0, "5f": 0.0001}


def jitter(d, tol):
    return [d.pick([0.0, 0.04, -0.04, 0.03]) * TOLS[tol] for _ in range(3)]


def history(d):
    tol = d.pick(["3f", "3f", "1f", "5f"])
    cells = []
    for _ in range(d.int(4, 9)):
        c = [d.int(0, 400) - 200 if d.flag() else d.int(0, 4) - 2 for _ in range(3)]
        if c not in cells:
            cells.append(c)
    n = len(cells)
    ops = []
    for _ in range(d.int(1, 16)):
        op = d.int(0, 8)
        i, j = d.int(0, n - 1), d.int(0, n - 1)
        ji, jj = jitter(d, tol), jitter(d, tol)
        how = d.int(0, 3)
        if op == 0:
            ops.append(["node", i, ji, d.pick([None, None, d.int(0, 300)]), how])
        elif op in (1, 2, 3):
            ops.append(["edge", i, ji, j, jj, d.flag(), how])
        elif op == 4:
            ops.append(["support", i, ji, how])
        elif op == 5:
            ops.append(["load", i, ji, d.vec(-3, 3), how])
        elif op in (6, 7):
            ops.append(["move", i, j, jj, how])
        else:
            ops.append(["mixed", i, j, jj, d.flag(), how])
    return {"tol": tol, "cells": cells, "ops": ops}


def check_history(case, ctx):
    tol, h = case["tol"], TOLS[case["tol"]]
    t = TopologyDiagram()
    if tol != "3f":
        t.tol = tol
    if t.tol != tol:
        forms.fail("tolerance is %s", t.tol)
    at = {}          # cell -> node
    xyz, edges, supports, loads = {}, {}, set(), {}

    def place(i, j):
        return [c * h + x for c, x in zip(case["cells"][i], j)]

    def occupied(i, key, p):
        at[i] = key
        xyz[key] = p

    def verify():
        if sorted(t.nodes()) != sorted(xyz):
            forms.fail("nodes %s, expected %s", sorted(t.nodes()), sorted(xyz))
        for k, p in xyz.items():
            if [float(x) for x in t.node_coordinates(k)] != p:
                forms.fail("node %s is at %s, expected %s", k, t.node_coordinates(k), p)
        for i in range(len(case["cells"])):
            want = at.get(i)
            for s in (0.0, 0.04, -0.04):
                p = place(i, [s * h, -s * h, s * h])
                for how in range(3):
                    got = t.node_key(build.as_point(p, how))
                    if got != want:
                        forms.fail("node_key(%s) is %s, expected %s", p, got, want)
                if bool(t.node_exists(p)) != (want is not None):
                    forms.fail("node_exists(%s) is %s", p, t.node_exists(p))
        for k in list(xyz) + [max(list(xyz) + [0]) + 1, max(list(xyz) + [0]) + 77]:
            if bool(t.node_exists(k)) != (k in xyz):
                forms.fail("node_exists(%s) is %s", k, t.node_exists(k))
        if {tuple(e): t.edge_attribute(e, "type") for e in t.edges()} != edges:
            forms.fail("edges %s, expected %s", sorted(t.edges()), sorted(edges))
        if sorted(t.support_nodes()) != sorted(supports):
            forms.fail("supports %s, expected %s", sorted(t.support_nodes()), sorted(supports))
        for k in xyz:
            if [float(x) for x in t.node_load(k)] != loads.get(k, [0.0, 0.0, 0.0]):
                forms.fail("load at %s is %s, expected %s", k, t.node_load(k), loads.get(k))

    for op in case["ops"]:
        name, how = op[0], op[-1]
        if name == "node":
            if op[1] in at or op[3] in xyz:
                continue
            p = place(op[1], op[2])
            node = Node.from_point(build.as_point(p, how)) if op[3] is None else Node(op[3], build.as_point(p, how))
            k = t.add_node(node)
            if k in xyz or (op[3] is not None and k != op[3]):
                forms.fail("the key of the new node is %s", k)
            occupied(op[1], k, p)
        elif name in ("edge", "mixed"):
            if name == "mixed":
                i, j, jj, is_trail = op[1], op[2], op[3], op[4]
                if i not in at:
                    continue
                a = at[i]
            else:
                i, j, jj, is_trail = op[1], op[3], op[4], op[5]
                a = place(i, op[2])
            b = place(j, jj)
            if i == j:
                continue
            if i in at and j in at and ((at[i], at[j]) in edges or (at[j], at[i]) in edges):
                continue
            if name == "mixed":
                key = t.add_edge(TrailEdge(a, build.as_point(b, how), length=1.0) if is_trail
                                 else DeviationEdge(a, build.as_point(b, how), force=1.0))
            else:
                line = [[a, b], (tuple(a), tuple(b)), Line(a, b), [Point(*a), Point(*b)]][how]
                key = t.add_edge(TrailEdge.from_line(line, length=1.0) if is_trail
                                 else DeviationEdge.from_line(line, force=1.0))
            if i in at or j in at:
                ctx.nontrivial()
                ctx.label("connects")
            for c, k, p in ((i, key[0], a), (j, key[1], b)):
                if c in at:
                    if at[c] != k:
                        forms.fail("the edge connects to node %s, expected %s", k, at[c])
                elif k in xyz:
                    forms.fail("the edge connects to node %s, which is elsewhere", k)
                else:
                    occupied(c, k, p)
            edges[tuple(key)] = "trail" if is_trail else "deviation"
        elif name in ("support", "load"):
            p = place(op[1], op[2])
            try:
                if name == "support":
                    t.add_support(NodeSupport.from_point(build.as_point(p, how)))
                else:
                    t.add_load(NodeLoad.from_point_and_vector(build.as_point(p, how), build.as_vector(op[3], how)))
            except ValueError:
                if op[1] in at:
                    raise
                ctx.label(name + " refused")
            else:
                if op[1] not in at:
                    forms.fail("a %s was accepted at %s, where there is no node", name, p)
                if name == "support":
                    supports.add(at[op[1]])
                else:
                    loads[at[op[1]]] = [float(x) for x in op[3]]
        elif name == "move":
            if op[1] not in at or (op[2] in at and op[2] != op[1]):
                continue
            k = at.pop(op[1])
            p = place(op[2], op[3])
            t.node_xyz(k, build.as_point(p, how))
            occupied(op[2], k, p)
            ctx.nontrivial()
        ctx.label(name)
        verify()


def distinct(points, d=0.01):
    pts = sorted(points)
    for i, p in enumerate(pts):
        for q in pts[i + 1:]:
            if q[0] - p[0] > d:
                break
            if ref.dist(p, q) < d:
                return False
    return True


def geometric(case, d):
    case = dict(case)
    case["shifts"] = []
    if not distinct([p for _, p in case["nodes"]]):
        # spread the nodes that are not origins, whose initial position is irrelevant
        origins = {t[0] for t in case["trails"]}
        case["nodes"] = [[k, p if k in origins else [p[0] + 0.37 * i, p[1] - 0.11 * i, p[2] + 0.23 * i]]
                         for i, (k, p) in enumerate(case["nodes"])]
        if not distinct([p for _, p in case["nodes"]]):
            return None
    return {"a": case, "how": [d.int(0, 3) for _ in range(4)], "solver": d.pick(["pure", "numpy"])}


def check_geometry(case, ctx):
    c, how = case["a"], case["how"]
    gen.classify(c, ctx)
    xyz = {k: p for k, p in c["nodes"]}
    t = TopologyDiagram()

    def line(a, b):
        a, b = xyz[a], xyz[b]
        return [[a, b], (tuple(a), tuple(b)), Line(a, b), [Point(*a), Point(*b)]][how[0]]

    for e in c["edges"]:
        if e[0] == "t":
            t.add_edge(TrailEdge.from_line(line(e[1], e[2]), length=e[3], plane=build.as_plane(e[4], how[1])))
        else:
            t.add_edge(DeviationEdge.from_line(line(e[1], e[2]), force=e[3]))
    alone = set(xyz) - {n for e in c["edges"] for n in e[1:3]}
    for k in sorted(alone):
        t.add_node(Node.from_point(build.as_point(xyz[k], how[2])))
    for k in c["supports"]:
        t.add_support(NodeSupport.from_point(build.as_point(xyz[k], how[2])))
    for k, q in c["loads"]:
        t.add_load(NodeLoad.from_point_and_vector(build.as_point(xyz[k], how[2]), build.as_vector(q, how[3])))
    if t.number_of_nodes() != len(xyz) or t.number_of_edges() != len(c["edges"]):
        forms.fail("%s nodes and %s edges, expected %s and %s", t.number_of_nodes(), t.number_of_edges(), len(xyz), len(c["edges"]))
    key = {k: t.node_key(p) for k, p in xyz.items()}
    if sorted(key.values()) != sorted(t.nodes()):
        forms.fail("nodes found at the given points: %s; nodes: %s", sorted(key.values()), sorted(t.nodes()))
    t.build_trails()
    got = sorted(list(tr) for tr in t.trails())
    if got != sorted([key[n] for n in tr] for tr in c["trails"]):
        forms.fail("trails %s", got)
    f = build.solve(t, case["solver"], c)
    g = build.solve(build.topology(c), case["solver"], c)
    r = build.read(g)
    forms.finite(r)
    forms.same(r, build.read(f), key=lambda n: key[n])
    for form in (f, g):
        pts = {n: [float(x) for x in form.node_coordinates(n)] for n in form.nodes()}
        if distinct(list(pts.values())):
            ctx.label("form lookup")
            for n, p in pts.items():
                for hw in range(3):
                    if form.node_key(build.as_point(p, hw)) != n:
                        forms.fail("in the form diagram, node_key(%s) is %s, expected %s", p, form.node_key(p), n)
                if not form.node_exists(p):
                    forms.fail("in the form diagram, there is no node at %s", p)
            far = [max(x[0] for x in pts.values()) + 1.0, 0.0, 0.0]
            if form.node_key(far) is not None or form.node_exists(far):
                forms.fail("in the form diagram, there is a node at %s", far)
            for n in xyz:
                old = xyz[n]
                if all(ref.dist(old, p) > 0.01 for p in pts.values()) and form.node_exists(old):
                    forms.fail("in the form diagram, there is a node at the previous location %s of node %s", old, n)
    ctx.nontrivial(max(len([e for e in c["edges"] if n in e[1:3]]) for n in xyz) > 1)


SUBS = [Sub("history", gen.from_dice(history, size=700), check_history, quick=2000, thorough=60000),
        Sub("geometry", gen.with_dice(geometric, extra=16, singles=True), check_geometry, quick=1000, thorough=30000)]
