"""Turns a topology case into real objects through the public API, and reads results back."""
from compas.geometry import Plane
from compas.geometry import Point
from compas.geometry import Vector

from compas_cem.diagrams import TopologyDiagram
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.equilibrium import static_equilibrium
from compas_cem.equilibrium import static_equilibrium_numpy
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport

SOLVERS = {"pure": static_equilibrium, "numpy": static_equilibrium_numpy}


def whole(x):
    """Whole numbers as integers, as users type them."""
    return int(x) if x == int(x) else x


def as_point(p, how):
    return [list(p), tuple(p), Point(*p), [whole(x) for x in p]][how % 4]


def as_vector(p, how):
    return [list(p), tuple(p), Vector(*p), [whole(x) for x in p]][how % 4]


def as_number(x, how):
    return whole(x) if how % 4 == 3 else x


def as_plane(pl, how):
    if pl is None:
        return None
    o, n = pl
    if how % 4 in (0, 3):
        return Plane(o, n)
    if how % 4 == 1:
        return (list(o), list(n))
    return (Point(*o), Vector(*n))


def topology(case, trails=True, shifts=True):
    """Build the topology diagram of a case."""
    style = case.get("style", [0] * 6)
    t = TopologyDiagram()
    add_nodes(t, case, style)
    parts = [add_edges, add_supports, add_loads]
    # the order in which edges, supports and loads are added does not matter
    turn = style[4] % 3
    for f in parts[turn:] + parts[:turn]:
        f(t, case, style)
    if trails:
        t.build_trails()
        if shifts:
            for origin, k in case.get("shifts", []):
                t.shift_trail(origin, k)
    return t


def add_nodes(t, case, style):
    for k, p in case["nodes"]:
        t.add_node(Node(k, as_point(p, style[0])))


def add_edges(t, case, style):
    for e in case["edges"]:
        if e[0] == "t":
            pl = as_plane(e[4], style[1])
            if pl is None:
                t.add_edge(TrailEdge(e[1], e[2], length=as_number(e[3], style[5])))
            else:
                t.add_edge(TrailEdge(e[1], e[2], length=as_number(e[3], style[5]), plane=pl))
        else:
            t.add_edge(DeviationEdge(e[1], e[2], force=as_number(e[3], style[5])))


def add_supports(t, case, style):
    for k in case["supports"]:
        t.add_support(NodeSupport(k))


def add_loads(t, case, style):
    for k, q in case["loads"]:
        t.add_load(NodeLoad(k, as_vector(q, style[2])))


def lscale(case):
    return max([abs(e[3]) for e in case["edges"] if e[0] == "t"] + [1e-9])


def fine(case):
    """A threshold that is small, but not too small for the precision of the coordinates."""
    return max(1e-9 * lscale(case), 1e-12 * max(abs(x) for _, p in case["nodes"] for x in p))


def solve(t, which, case=None, eta=None, tmax=400, **kw):
    if eta is None:
        eta = fine(case)
    return SOLVERS[which](t, tmax=tmax, eta=eta, **kw)


class Result(object):
    pass


def read(diagram):
    """Read a diagram back through its public queries, as plain floats."""
    r = Result()
    r.nodes = sorted(diagram.nodes())
    r.pos = {n: tuple(float(x) for x in diagram.node_coordinates(n)) for n in r.nodes}
    r.load = {n: tuple(float(x) for x in diagram.node_load(n)) for n in r.nodes}
    r.react = {n: tuple(float(x) for x in diagram.reaction_force(n)) for n in r.nodes}
    r.edges = [tuple(e) for e in diagram.edges()]
    r.force = {frozenset(e): float(diagram.edge_force(e)) for e in r.edges}
    r.length = {frozenset(e): float(diagram.edge_length_2(e)) for e in r.edges}
    r.supports = sorted(diagram.support_nodes())
    return r
