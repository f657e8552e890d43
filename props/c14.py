"""C14: copies and serialized diagrams are complete, usable and independent."""
import copy
import os
import pickle
import shutil
import tempfile

from compas.data import json_dumps
from compas.data import json_loads
from compas_cem.diagrams import FormDiagram
from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random topology diagrams (before or after building and shifting trails, with and without auxiliary trails, custom "
        "tolerance and auxiliary settings) and the form diagrams found from them, sent through 1-3 random round trips out "
        "of JSON file, JSON string, data dictionary, copy, deepcopy and pickle. Oracle: every query answers as before, "
        "form finding gives the same form, edits of the result work as on the original (moves, new nodes and trails, shifts, "
        "rebuilds, auxiliary trails), and edits never reach the other object. Non-trivial: trails were built and there is a "
        "deviation edge.")

WAYS = ["json file", "json string", "data", "copy", "deepcopy", "pickle"]


def send(x, way):
    if way == "json file":
        folder = tempfile.mkdtemp(prefix="verif-c14-")
        try:
            path = os.path.join(folder, "diagram.json")
            x.to_json(path)
            return type(x).from_json(path)
        finally:
            shutil.rmtree(folder)
    if way == "json string":
        return json_loads(json_dumps(x))
    if way == "data":
        return type(x).from_data(copy.deepcopy(x.data))
    if way == "copy":
        return x.copy()
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x))


def plane(pl):
    if pl is None:
        return None
    return [[float(x) for x in pl[0]], [float(x) for x in ref.unit([float(x) for x in pl[1]])]]


def picture(x):
    """Everything a diagram answers, as plain data."""
    out = {"class": type(x).__name__, "tol": x.tol, "nodes": {}, "edges": {}, "repr": repr(x)}
    where = {}
    for n in x.nodes():
        where.setdefault(tuple(round(float(v), 2) for v in x.node_coordinates(n)), []).append(n)
    for n in x.nodes():
        # which of the nodes at one location is found there is not specified
        alone = len(where[tuple(round(float(v), 2) for v in x.node_coordinates(n))]) == 1
        out["nodes"][n] = [[float(v) for v in x.node_coordinates(n)], [float(v) for v in x.node_load(n)],
                           [float(v) for v in x.reaction_force(n)], x.is_node_support(n), x.node_attribute(n, "type"),
                           x.node_attribute(n, "_k"), x.node_key(x.node_coordinates(n)) if alone else None]
    for e in x.edges():
        out["edges"][tuple(e)] = [x.edge_attribute(e, "type"), float(x.edge_force(e)), float(x.edge_length_2(e)),
                                  plane(x.edge_plane(e))]
    if isinstance(x, TopologyDiagram):
        out["trails"] = {k: list(v) for k, v in x.trails(keys=True)}
        out["aux"] = {k: list(v) for k, v in x.auxiliary_trails(keys=True)}
        out["aux edges"] = sorted(tuple(e) for e in x.auxiliary_trail_edges())
        out["aux settings"] = [float(x.auxiliary_trail_length), [float(v) for v in x.auxiliary_trail_vector]]
        out["origins"] = sorted(x.origin_nodes())
        if out["trails"]:
            out["sequences"] = [sorted(s) for s in x.sequences()]
            out["maps"] = {k: dict(v) for k, v in x.trails_sequences().items()}
            out["direct"] = sorted(x.direct_deviation_edges())
            out["indirect"] = sorted(x.indirect_deviation_edges())
    return out


def compare(a, b, what):
    if a.keys() != b.keys():
        forms.fail("%s: answers differ", what)
    for k in a:
        if k == "edges":
            if a[k].keys() != b[k].keys():
                forms.fail("%s: edges are %s, expected %s", what, sorted(b[k]), sorted(a[k]))
            for e, va in a[k].items():
                vb = b[k][e]
                if va[:3] != vb[:3]:
                    forms.fail("%s: edge %s is %s, expected %s", what, e, vb, va)
                pa, pb = va[3], vb[3]
                if (pa is None) != (pb is None):
                    forms.fail("%s: plane of edge %s is %s, expected %s", what, e, pb, pa)
                if pa is not None and (ref.dist(pa[0], pb[0]) > 1e-12 * (1 + ref.norm(pa[0])) or ref.dist(pa[1], pb[1]) > 1e-12):
                    forms.fail("%s: plane of edge %s is %s, expected %s", what, e, pb, pa)
        elif a[k] != b[k]:
            forms.fail("%s: %s is %s, expected %s", what, k, b[k], a[k])


def edit(x, ops, points):
    """Apply edits; works on any diagram equal to the original."""
    for op in ops:
        keys = sorted(x.nodes())
        if op[0] == "move":
            x.node_xyz(keys[op[1] % len(keys)], op[2])
        elif op[0] == "load":
            x.add_load(NodeLoad(keys[op[1] % len(keys)], op[2]))
        elif op[0] == "force":
            es = sorted(x.deviation_edges())
            if es:
                x.edge_attribute(es[op[1] % len(es)], "force", op[2])
        elif op[0] == "length":
            es = sorted(x.trail_edges())
            if es:
                x.edge_attribute(es[op[1] % len(es)], "length", op[2])
        elif op[0] == "node":
            k = x.add_node(Node(xyz=op[2]))
            x.add_edge(DeviationEdge(keys[op[1] % len(keys)], k, force=0.5))
            if op[3]:
                x.auxiliary_trail_length = op[3]
            x.build_trails(auxiliary_trails=True)
        elif op[0] == "trail":
            k = x.add_node(Node(xyz=op[2]))
            s = x.add_node(Node(xyz=[op[2][0] + 1.5, op[2][1], op[2][2]]))
            x.add_edge(TrailEdge(s, k, length=-1.5))
            x.add_edge(DeviationEdge(k, keys[op[1] % len(keys)], force=-0.5))
            x.add_support(NodeSupport.from_point([op[2][0] + 1.5, op[2][1], op[2][2]]))
            x.build_trails()
        elif op[0] == "shift":
            os_ = sorted(x.origin_nodes())
            x.shift_trail(os_[op[1] % len(os_)], op[2])
        elif op[0] == "rebuild":
            x.build_trails()
        points.append(1)


def plan(case, d):
    ops = []
    for _ in range(d.int(1, 5)):
        op = d.pick(["move", "load", "force", "length", "node", "trail", "shift", "rebuild"])
        if op in ("move", "load"):
            ops.append([op, d.int(0, 63), [x + 0.017 for x in d.vec(-9, 9)]])
        elif op in ("force", "length"):
            ops.append([op, d.int(0, 63), d.pick([-1.25, 0.75, 2.0])])
        elif op == "node":
            ops.append([op, d.int(0, 63), [x + 0.017 for x in d.vec(-9, 9)], d.pick([None, 2.0, -0.5])])
        elif op == "trail":
            ops.append([op, d.int(0, 63), [20.0 + d.int(0, 9), d.real(-9, 9), d.real(-9, 9)]])
        elif op == "shift":
            ops.append([op, d.int(0, 63), d.int(0, 4)])
        else:
            ops.append([op])
    return {"a": case, "ways": [d.pick(WAYS) for _ in range(d.int(1, 3))], "stage": d.pick(["trails", "bare", "aux", "trails"]),
            "tol": d.pick(["3f", "2f"]), "aux": [d.pick([-1.0, 2.5]), d.pick([[1.0, 1.0, 1.0], [0.0, 2.0, 0.0]])],
            "solver": d.pick(["pure", "numpy"]), "ops": ops}


def make(case):
    c = case["a"]
    t = build.topology(c, trails=False)
    t.auxiliary_trail_length, t.auxiliary_trail_vector = case["aux"][0], list(case["aux"][1])
    if case["stage"] == "aux":
        k = t.add_node(Node(xyz=[40.0, 1.0, 2.0]))
        t.add_edge(DeviationEdge(c["nodes"][0][0], k, force=0.1))
        t.add_load(NodeLoad(k, [0.0, 1.0, 1.0]))
        t.build_trails(auxiliary_trails=True)
    elif case["stage"] == "trails":
        t.build_trails()
        for o, s in c["shifts"]:
            t.shift_trail(o, s)
    return t


def check_topology(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    t = make(case)
    if case["tol"] != "3f":
        t = TopologyDiagram.from_data(t.data)
        t.tol = case["tol"]
        for k, p in c["nodes"]:
            t.node_xyz(k, p)
    first = picture(t)
    x = t
    for way in case["ways"]:
        ctx.label(way)
        x = send(x, way)
        if not isinstance(x, TopologyDiagram):
            forms.fail("%s: the class is %s", way, type(x))
        compare(first, picture(x), way)
        compare(first, picture(t), way + " (original)")
    ctx.label("stage " + case["stage"])
    if case["stage"] == "trails":
        r = build.read(build.solve(t, case["solver"], c))
        s = build.read(build.solve(x, case["solver"], c))
        forms.finite(r)
        forms.same(r, s, tol=1e-12)
    # edit the result: the original does not change
    ops = [op for op in case["ops"] if case["stage"] != "bare" or op[0] != "shift"]
    done = []
    edit(x, ops, done)
    compare(first, picture(t), "the original after edits of the result")
    # edit the original in the same way: both are the same again
    after = picture(x)
    edit(t, ops, done)
    compare(after, picture(x), "the result after edits of the original")
    compare(picture(t), after, "edits of the result")
    ctx.nontrivial(case["stage"] != "bare" and "no deviation" not in labels)


def check_form(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    t = build.topology(c)
    f = build.solve(t, case["solver"], c)
    first = picture(f)
    x = f
    for way in case["ways"]:
        ctx.label(way)
        x = send(x, way)
        if not isinstance(x, FormDiagram):
            forms.fail("%s: the class is %s", way, type(x))
        compare(first, picture(x), way)
    for n in list(x.nodes()):
        p = [float(v) + 3.0 for v in x.node_coordinates(n)]
        x.node_xyz(n, p)
        x.node_attribute(n, "qx", 9.0)
    for e in list(x.edges()):
        x.edge_attribute(e, "force", 9.0)
    compare(first, picture(f), "the original after edits of the result")
    ctx.nontrivial("no deviation" not in labels)


SUBS = [Sub("topology", gen.with_dice(plan, extra=200, singles=True), check_topology, quick=1200, thorough=30000),
        Sub("form", gen.with_dice(plan, extra=200, singles=True), check_form, quick=600, thorough=15000)]
