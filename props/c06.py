"""C06: form finding is a pure function of the prescribed input."""
import copy
import json

from compas.geometry import Plane
from compas.geometry import Point
from compas_cem.elements import DeviationEdge
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("(a) Random structures solved twice, with verbose output and a callback, and after moving all the nodes that are "
        "not origins (at random, and to where the first iteration or the form has them): same form; the topology diagram is left as it was and shares no state with the form. "
        "(b) Random histories of edits of a topology diagram (loads, deviation edges and forces, trail lengths and planes, "
        "origin positions, trail shifts) interleaved with runs of both solvers, also such that fail: each run yields the form of a freshly "
        "built diagram. Non-trivial: (a) a deviation edge or a plane, (b) at least two edits and a deviation edge.")


def snapshot(t):
    """Everything the diagram holds."""
    data = {"nodes": {str(n): {a: t.node_attribute(n, a) for a in ("x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz", "type")}
                      for n in t.nodes()},
            "seq": {str(n): t.node_sequence(n) for n in t.nodes()},
            "edges": [[list(e), t.edge_attribute(e, "type"), float(t.edge_attribute(e, "force")),
                       float(t.edge_attribute(e, "length")), repr(t.edge_plane(e))] for e in t.edges()],
            "trails": sorted([k, list(v)] for k, v in t.trails(keys=True)),
            "origins": sorted(t.origin_nodes()), "supports": sorted(t.support_nodes()),
            "lookup": [t.node_key(t.node_coordinates(n)) for n in t.nodes()]}
    return json.dumps(data, sort_keys=True, default=repr)


def planes(t):
    return {tuple(e): repr(t.edge_plane(e)) for e in t.edges()}


def found(form):
    """Nodes are still found where they are (unless others are close)."""
    where = {n: [float(x) for x in form.node_coordinates(n)] for n in form.nodes()}
    for n, p in where.items():
        if all(m == n or ref.dist(p, q) > 0.01 for m, q in where.items()) and form.node_key(p) != n:
            return False
    return True


def spoil(d):
    """Change everything in a diagram."""
    d.attributes["name"] = "spoiled"
    for n in d.nodes():
        d.node_attribute(n, "x", 123.0)
        d.node_attributes(n, ["y", "qy", "rx"], [7.0, 8.0, 9.0])
        d.node_attribute(n, "qx", 77.0)
        d.node_attribute(n, "type", "spoiled")
        d.node_xyz(n, [1000.0 + n, 2.0, 3.0])
    for e in d.edges():
        d.edge_attribute(e, "force", 55.0)
        d.edge_attributes(e, ["length", "type"], [66.0, "spoiled"])
        plane = d.edge_plane(e)
        if isinstance(plane, Plane):
            plane.point = Point(5.0, 6.0, 7.0)
        elif isinstance(plane, list):
            plane[0] = [5.0, 6.0, 7.0]
        elif isinstance(plane, tuple):
            plane[0][0] = 5.0
        d.edge_attribute(e, "plane", ([9.0, 9.0, 9.0], [1.0, 0.0, 0.0]))


def interrupted(t, which):
    """Runs that end early, or fail because the threshold cannot be met."""
    if which == "pure":
        build.SOLVERS[which](t, kmax=0)
    try:
        build.SOLVERS[which](t, tmax=2, eta=-1.0)
    except ValueError:
        return
    forms.fail("%s solver met a threshold that cannot be met", which)


def check_pure(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    t = build.topology(c)
    before = snapshot(t)
    for which in ("pure", "numpy"):
        calls = []
        first = build.solve(t, which, c)
        r1 = build.read(first)
        forms.finite(r1)
        if snapshot(t) != before:
            forms.fail("%s solver modified the topology diagram", which)
        r2 = build.read(build.solve(t, which, c))
        if r1.__dict__ != r2.__dict__:
            forms.fail("%s solver is not deterministic", which)
        answer = case["answer"]

        def callback():
            calls.append(1)
            return answer
        r3 = build.read(build.solve(t, which, c, verbose=True, callback=callback))
        if r1.__dict__ != r3.__dict__:
            forms.fail("%s solver: verbose or callback changed the result", which)
        if len(calls) < 2 and any(len(tr) > 1 for tr in c["trails"]):
            forms.fail("%s solver: the callback ran %s times", which, len(calls))
        quiet = build.read(build.solve(t, which, c, tmax=1))
        if quiet.__dict__ != build.read(build.solve(t, which, c, tmax=1, verbose=True)).__dict__:
            forms.fail("%s solver: verbose changed the result of a single iteration", which)
        # runs that stop early or fail
        interrupted(t, which)
        if snapshot(t) != before:
            forms.fail("%s solver modified the topology diagram in a run that ended early", which)
        # no shared state
        second = build.solve(t, which, c)
        spoil(first)
        if snapshot(t) != before or t.attributes.get("name") == "spoiled":
            forms.fail("the form diagram shares state with the topology diagram")
        if build.read(second).__dict__ != r1.__dict__:
            forms.fail("two form diagrams share state")
        mine = build.topology(c)
        third = build.solve(mine, which, c)
        spoil(mine)
        if build.read(third).__dict__ != r1.__dict__ or planes(third) != planes(second) or not found(third):
            forms.fail("the topology diagram shares state with the form diagram")
        # initial positions of the other nodes are irrelevant
        other = copy.deepcopy(c)
        other["nodes"] = [[k, p] for k, p in case["nodes"]]
        r4 = build.read(build.solve(build.topology(other), which, c))
        forms.same(r1, r4)
        # also if they are where the first iteration or the form has them
        for r in (quiet, r1):
            other["nodes"] = [[k, list(r.pos[k])] for k, _ in c["nodes"]]
            forms.same(r1, build.read(build.solve(build.topology(other), which, c)))
    ctx.nontrivial(bool(labels & {"plane", "direct deviation", "indirect deviation"}))


def moved(case, d):
    origins = {t[0] for t in case["trails"]}
    nodes = [[k, p if k in origins else d.vec(-9, 9)] for k, p in case["nodes"]]
    return {"a": case, "nodes": nodes, "answer": d.pick([None, False, True, 0, 1])}


def history(case, d):
    ops = []
    tedges = [e for e in case["edges"] if e[0] == "t"]
    dedges = [e for e in case["edges"] if e[0] == "d"]
    keys = [k for k, _ in case["nodes"]]
    long_trails = [t for t in case["trails"] if len(t) > 1]
    cur = copy.deepcopy(case)
    states = [cur]
    for _ in range(d.int(2, 8)):
        op = d.int(0, 7)
        nxt = copy.deepcopy(cur)
        if op == 0:
            k, q = d.pick(keys), d.vec(-2, 2)
            nxt["loads"] = [x for x in nxt["loads"] if x[0] != k] + [[k, q]]
            step = ["load", k, q]
        elif op == 1 and dedges:
            e = d.pick(dedges)
            f = gen.force(d) * 0.5
            for x in nxt["edges"]:
                if x[1:3] == e[1:3]:
                    x[3] = f
            step = ["force", e[1:3], f]
        elif op == 2:
            e = d.pick(tedges)
            ln = d.pick([-1.0, 1.0, 0.5, -2.0, 1.7])
            for x in nxt["edges"]:
                if x[1:3] == e[1:3]:
                    x[3] = ln
            step = ["length", e[1:3], ln]
        elif op == 3:
            o = d.pick(case["trails"])[0]
            p = d.vec(-6, 6)
            for x in nxt["nodes"]:
                if x[0] == o:
                    x[1] = p
            step = ["origin", o, p]
        elif op == 4:
            o, s = d.pick(long_trails)[0], d.int(0, 3)
            nxt["shifts"] = [x for x in nxt["shifts"] if x[0] != o] + [[o, s]]
            step = ["shift", o, s]
        elif op == 5:
            e = d.pick(tedges)
            pl = gen.plane(d) if d.flag() else None
            for x in nxt["edges"]:
                if x[1:3] == e[1:3]:
                    x[4] = pl
            step = ["plane", e[1:3], pl, [x[3] for x in nxt["edges"] if x[1:3] == e[1:3]][0]]
        elif op == 7:
            u, v = d.pick(keys), d.pick(keys)
            if u == v or any({u, v} == set(x[1:3]) for x in nxt["edges"]):
                continue
            f = gen.force(d) * 0.5
            nxt["edges"].append(["d", u, v, f])
            step = ["deviation", [u, v], f]
        else:
            nxt["shifts"] = []
            step = ["rebuild"]
        if gen.well_posed(nxt) != nxt:
            continue      # the edited structure is not well-posed as it is
        cur = nxt
        ops.append([step, d.pick(["pure", "numpy", "none", "fail"]), copy.deepcopy(cur)])
        states.append(cur)
    if not ops:
        return None
    ops[-1][1] = "pure" if ops[-1][1] in ("none", "fail") else ops[-1][1]
    return {"a": case, "ops": ops}


def check_history(case, ctx):
    labels = gen.classify(case["a"], ctx)
    t = build.topology(case["a"])
    style = case["a"]["style"]
    for step, which, now in case["ops"]:
        name = step[0]
        ctx.label("edit " + name)
        if name == "load":
            if style[0] % 2:
                t.node_attributes(step[1], ["qx", "qy", "qz"], list(step[2]))
            else:
                t.add_load(NodeLoad(step[1], build.as_vector(step[2], style[2])))
        elif name == "force":
            if style[0] % 2:
                t.add_edge(DeviationEdge(*step[1], force=step[2]))
            else:
                t.edge_attribute(tuple(step[1]), "force", step[2])
        elif name == "length":
            t.edge_attribute(tuple(step[1]), "length", step[2])
        elif name == "origin":
            if style[0] % 2:
                t.node_attributes(step[1], "xyz", list(step[2]))
            else:
                t.node_xyz(step[1], step[2])
        elif name == "shift":
            t.shift_trail(step[1], step[2])
        elif name == "deviation":
            t.add_edge(DeviationEdge(*step[1], force=step[2]))
        elif name == "plane":
            # adding an edge that exists overrides its attributes
            u, v = step[1]
            t.add_edge(TrailEdge(u, v, length=step[3], plane=build.as_plane(step[2], style[1])))
        else:
            t.build_trails()
        if which == "fail":
            interrupted(t, "pure")
            interrupted(t, "numpy")
        elif which != "none":
            r = build.read(build.solve(t, which, now))
            f = build.read(build.solve(build.topology(now), which, now))
            forms.finite(r)
            forms.same(f, r)
    ctx.nontrivial(len(case["ops"]) > 1 and bool(labels & {"direct deviation", "indirect deviation"}))


SUBS = [Sub("pure", gen.with_dice(moved, extra=900, singles=True), check_pure, quick=1200, thorough=30000),
        Sub("history", gen.with_dice(history, extra=400, max_trails=3, max_len=4, max_dev=5, big=False, scales=False),
            check_history, quick=800, thorough=20000)]
