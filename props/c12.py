"""C12: the queries of a diagram agree with what was put into it."""
import re

from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("(a) Random histories of 1-30 additions and overrides (nodes with given and automatic keys, moves, trail and "
        "deviation edges, supports, loads) run on a diagram and on a dictionary model (also starting from diagrams whose trails are built), all queries, counters, filters and "
        "the summary compared after every step. (b) The same queries on the form diagrams of random structures, which "
        "must keep loads, supports, planes and deviation forces and hold no trails of their own. Non-trivial: edges of "
        "both types and a support or a load (a), a deviation edge (b).")


def eq(name, got, want):
    if got != want:
        forms.fail("%s is %s, expected %s", name, got, want)


def eq_plane(e, got, want):
    """Planes are compared geometrically: a Plane object normalizes its normal."""
    if got is None or want is None:
        eq("plane of %s" % (e,), got, want)
        return
    if ref.dist(got[0], want[0]) > 1e-12 * (1 + ref.norm(want[0])) or ref.dist(ref.unit(got[1]), ref.unit(want[1])) > 1e-12:
        forms.fail("the plane of edge %s is %s, expected %s", e, got, want)


def summary(diagram):
    """The counts printed by repr(), by lower-case name."""
    out = {}
    for name, num in re.findall(r"([A-Za-z][A-Za-z ]*?):\s*(-?\d+)", repr(diagram)):
        out[name.strip().lower()] = int(num)
    return out


class Model(object):
    def __init__(self):
        self.xyz = {}
        self.edges = {}
        self.supports = set()
        self.loads = {}

    def fill(self, case):
        self.xyz = {k: [float(x) for x in p] for k, p in case["nodes"]}
        self.edges = {tuple(e[1:3]): [e[0], e[3], e[4] if e[0] == "t" else None] for e in case["edges"]}
        self.supports = set(case["supports"])
        self.loads = {k: [float(x) for x in q] for k, q in case["loads"]}

    def load(self, n):
        return list(self.loads.get(n, [0.0, 0.0, 0.0]))


def compare_common(t, m, form=False):
    eq("nodes", sorted(t.nodes()), sorted(m.xyz))
    eq("number_of_nodes", t.number_of_nodes(), len(m.xyz))
    eq("edges", {frozenset(e) for e in t.edges()}, {frozenset(e) for e in m.edges})
    eq("number_of_edges", t.number_of_edges(), len(m.edges))
    eq("support_nodes", sorted(t.support_nodes()), sorted(m.supports))
    eq("number_of_support_nodes", t.number_of_support_nodes(), len(m.supports))
    if any(abs(ref.norm(q) - x) < 1e-9 for q in m.loads.values() for x in (1e-6, 1.4321)):
        return      # on the border
    loaded = sorted(n for n in m.loads if ref.norm(m.loads[n]) > 1e-6)
    eq("loaded_nodes", sorted(t.loaded_nodes()), loaded)
    eq("loaded_nodes(1.4321)", sorted(t.loaded_nodes(min_force=1.4321)), sorted(n for n in loaded if ref.norm(m.loads[n]) > 1.4321))
    eq("number_of_loaded_nodes", t.number_of_loaded_nodes(), len(loaded))
    for n in m.xyz:
        eq("node_load(%s)" % n, [float(x) for x in t.node_load(n)], m.load(n))
        eq("is_node_support(%s)" % n, t.is_node_support(n), n in m.supports)
        eq("is_node_loaded(%s)" % n, bool(t.is_node_loaded(n)), n in loaded)
        eq("is_node_loaded(%s, 1.4321)" % n, bool(t.is_node_loaded(n, min_force=1.4321)),
           n in loaded and ref.norm(m.loads[n]) > 1.4321)
    for e in m.edges:
        eq("is_edge_supported", t.is_edge_supported(e), bool(set(e) & m.supports))
        eq("is_edge_supported, reversed", t.is_edge_supported(e[::-1]), bool(set(e) & m.supports))
        eq("has_edge", t.has_edge(*e), True)
    s = summary(t)
    eq("summary", [s.get("edges"), s.get("nodes"), s.get("support nodes"), s.get("loaded nodes")],
       [len(m.edges), len(m.xyz), len(m.supports), len(loaded)])
    eq("str", str(t), repr(t))


def compare(t, m):
    compare_common(t, m)
    for n, p in m.xyz.items():
        eq("node_xyz(%s)" % n, [float(x) for x in t.node_xyz(n)], p)
        eq("node_coordinates(%s)" % n, [float(x) for x in t.node_coordinates(n)], p)
    trail = {e for e, a in m.edges.items() if a[0] == "t"}
    dev = {e for e, a in m.edges.items() if a[0] == "d"}
    for got, want in ((t.trail_edges, trail), (t.deviation_edges, dev)):
        eq(got.__name__, sorted(got()), sorted(want))
        data = list(got(data=True))
        eq(got.__name__ + " with data", sorted(e for e, _ in data), sorted(want))
        for e, a in data:
            eq("attributes of %s" % (e,), a["force" if got == t.deviation_edges else "length"], m.edges[e][1])
    eq("number_of_trail_edges", t.number_of_trail_edges(), len(trail))
    eq("number_of_deviation_edges", t.number_of_deviation_edges(), len(dev))
    for e, a in m.edges.items():
        is_t = a[0] == "t"
        eq("is_trail_edge(%s)" % (e,), t.is_trail_edge(e), is_t)
        eq("is_deviation_edge(%s)" % (e,), t.is_deviation_edge(e), not is_t)
        retyped = len(a) > 3        # what a retyped edge keeps of its former type is left open
        if not (is_t and retyped):
            eq("edge_force(%s)" % (e,), t.edge_force(e), 0.0 if is_t else a[1])
        if is_t or not retyped:
            eq("edge_length_2(%s)" % (e,), t.edge_length_2(e), a[1] if is_t else 0.0)
            eq_plane(e, t.edge_plane(e), a[2])
    for n in m.xyz:
        eq("connected_trail_edges(%s)" % n, sorted(t.connected_trail_edges(n)), sorted(e for e in trail if n in e))
        eq("connected_deviation_edges(%s)" % n, sorted(t.connected_deviation_edges(n)), sorted(e for e in dev if n in e))
    s = summary(t)
    eq("summary", [s.get("trail edges"), s.get("deviation edges"), s.get("trails"), s.get("auxiliary trails")],
       [len(trail), len(dev), t.number_of_trails(), t.number_of_auxiliary_trails()])


def history(d):
    ops = []
    for _ in range(d.int(1, 30)):
        op = d.int(0, 11)
        if op in (0, 1):
            # a node, or a load, for which nothing is given has the defaults
            ops.append(["node", d.pick([None, None, d.int(0, 20), d.int(0, 5000)]), d.vec(-9, 9) if not d.flag(8) else None])
        elif op in (2, 3):
            ops.append(["trail", d.int(0, 63), d.int(0, 63), d.pick([-1.0, 1.0, 2.5, -0.25]), gen.plane(d) if d.flag(3) else None])
        elif op in (4, 5):
            ops.append(["dev", d.int(0, 63), d.int(0, 63), gen.force(d)])
        elif op == 11:
            ops.append(["hub", d.int(0, 63), d.int(1, 63), d.pick([1.0, -0.5])])
        elif op == 6:
            ops.append(["support", d.int(0, 63)])
        elif op == 7:
            ops.append(["load", d.int(0, 63), d.vec(-3, 3), d.pick([1.0, 1.0, 1.0, 1e-7, 2e-6, 0.0])])
        elif op == 8:
            ops.append(["move", d.int(0, 63), d.vec(-9, 9), d.flag(4)])
        elif op == 10:
            ops.append(["retype", d.int(0, 63), d.pick([-1.5, 3.0, 0.5]), gen.plane(d) if d.flag() else None])
        else:
            ops.append(["override", d.int(0, 63), d.pick([-1.5, 3.0, 0.5]), gen.plane(d) if d.flag() else None])
    return {"ops": ops, "style": [d.int(0, 3) for _ in range(3)]}


def built(case, d):
    """A history that continues a diagram whose trails are built."""
    return dict(history(d), a=case)


def check_history(case, ctx):
    t = TopologyDiagram()
    m = Model()
    if "a" in case:
        t = build.topology(case["a"])
        m.fill(case["a"])
        compare(t, m)
    style = case["style"]
    for op in case["ops"]:
        keys = sorted(m.xyz)
        if op[0] == "node":
            if op[1] in m.xyz:
                continue
            k = t.add_node(Node(op[1], build.as_point(op[2], style[0])) if op[2] else Node(op[1]))
            if op[1] is not None:
                eq("the key of a new node", k, op[1])
            elif k in m.xyz:
                forms.fail("a new node got the key %s of another node", k)
            m.xyz[k] = [float(x) for x in op[2] or [0.0, 0.0, 0.0]]
        elif not keys:
            continue
        elif op[0] in ("trail", "dev"):
            u, v = keys[op[1] % len(keys)], keys[op[2] % len(keys)]
            if u == v or (u, v) in m.edges or (v, u) in m.edges:
                continue
            if op[0] == "trail":
                key = t.add_edge(TrailEdge(u, v, length=op[3], plane=build.as_plane(op[4], style[1])))
                m.edges[(u, v)] = ["t", op[3], op[4]]
            else:
                key = t.add_edge(DeviationEdge(u, v, force=op[3]))
                m.edges[(u, v)] = ["d", op[3], None]
            eq("the key of a new edge", tuple(key), (u, v))
        elif op[0] == "hub":        # a node with edges to many others
            u = keys[op[1] % len(keys)]
            for i, v in enumerate(keys):
                if u != v and (u, v) not in m.edges and (v, u) not in m.edges:
                    e = (u, v) if op[2] >> (i % 6) & 1 else (v, u)
                    t.add_edge(DeviationEdge(e[0], e[1], force=op[3]))
                    m.edges[e] = ["d", op[3], None]
        elif op[0] == "support":
            k = keys[op[1] % len(keys)]
            t.add_support(NodeSupport(k))
            m.supports.add(k)
        elif op[0] == "load":
            k = keys[op[1] % len(keys)]
            if op[3]:
                q = [op[3] * float(x) for x in op[2]]
                t.add_load(NodeLoad(k, build.as_vector(q, style[2])))
            else:
                q = [0.0, 0.0, -1.0]
                t.add_load(NodeLoad(k))
            m.loads[k] = q
        elif op[0] == "move":
            k = keys[op[1] % len(keys)]
            if op[3]:
                eq("the key of an overridden node", t.add_node(Node(k, build.as_point(op[2], style[0]))), k)
            else:
                t.node_xyz(k, build.as_point(op[2], style[0]))
            m.xyz[k] = [float(x) for x in op[2]]
        elif op[0] == "override":
            es = sorted(m.edges)
            if not es:
                continue
            e = es[op[1] % len(es)]
            m.edges[e][1] = op[2]
            if m.edges[e][0] == "t":
                m.edges[e][2] = op[3]
                if op[3] is None:
                    t.add_edge(TrailEdge(e[0], e[1], length=op[2]))
                else:
                    t.add_edge(TrailEdge(e[0], e[1], length=op[2], plane=build.as_plane(op[3], style[1])))
            else:
                t.add_edge(DeviationEdge(e[0], e[1], force=op[2]))
        elif op[0] == "retype":
            es = sorted(m.edges)
            if not es:
                continue
            e = es[op[1] % len(es)]
            if m.edges[e][0] == "t":
                t.add_edge(DeviationEdge(e[0], e[1], force=op[2]))
                m.edges[e] = ["d", op[2], None, True]
            else:
                t.add_edge(TrailEdge(e[0], e[1], length=op[2], plane=build.as_plane(op[3], style[1])))
                m.edges[e] = ["t", op[2], op[3], True]
        ctx.label(op[0])
        compare(t, m)
    ctx.nontrivial(len({a[0] for a in m.edges.values()}) == 2 and bool(m.supports or m.loads))


def check_form(case, ctx):
    labels = gen.classify(case, ctx)
    t = build.topology(case)
    m = Model()
    m.fill(case)
    compare(t, m)
    for w in ("pure", "numpy"):
        f = build.solve(t, w, case)
        compare_common(f, m, form=True)
        for e, a in m.edges.items():
            if a[0] == "d":
                got = f.edge_force(e)
                if abs(got - a[1]) > 1e-12 * abs(a[1]):
                    forms.fail("the force of deviation edge %s became %s, prescribed %s", e, got, a[1])
            eq_plane(e, f.edge_plane(e), a[2])
            eq("type", f.edge_attribute(e, "type"), "trail" if a[0] == "t" else "deviation")
    compare(t, m)
    ctx.nontrivial("no deviation" not in labels)


SUBS = [Sub("history", gen.from_dice(history, size=900), check_history, quick=1200, thorough=30000),
        Sub("built", gen.with_dice(built, extra=900, max_trails=4, max_len=4, max_dev=5, scales=False), check_history,
            quick=300, thorough=8000),
        Sub("form", gen.topology(singles=True), check_form, quick=800, thorough=20000)]
