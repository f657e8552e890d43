"""C10: auxiliary trails complete any diagram with nodes outside of trails."""
import copy

from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.loads import NodeLoad

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random diagrams where some or all nodes belong to no trail, random auxiliary length and vector, completed with "
        "build_trails(auxiliary_trails=True), then completed again, extended with further free nodes and completed "
        "again, and solved. Oracle: the plan (one support node at node + length * unit(vector) and one trail edge of that "
        "length per free node, everything else untouched) and the reference solver. Non-trivial: at least one free node "
        "connected by a deviation edge.")


def prepare(blob_case, d):
    c = copy.deepcopy(blob_case)
    c["shifts"] = []
    free = []
    if d.flag(3):
        chosen = list(range(len(c["trails"])))
    else:
        chosen = [i for i in range(len(c["trails"])) if not d.flag()]
    drop = set()
    for i in chosen:
        t = c["trails"][i]
        drop.update(t[1:])
        free.append(t[0])
        c["trails"][i] = t[:1]
    length = d.pick([-1.0, 1.0, 0.5, -2.0]) if d.flag() else d.uniform(0.3, 3.0) * d.pick([1.0, -1.0])
    vector = d.pick([[1.0, 1.0, 1.0], [0.0, 0.0, -1.0], [0.0, 3.0, 4.0]]) if d.flag() else d.vec(-3, 3)
    if ref.norm(vector) < 0.2:
        vector = [0.0, 0.0, 2.0]
    c["nodes"] = [x for x in c["nodes"] if x[0] not in drop]
    c["edges"] = [e for e in c["edges"] if not (set(e[1:3]) & drop)]
    c["loads"] = [x for x in c["loads"] if x[0] not in drop]
    c["supports"] = [s for s in c["supports"] if s not in drop]
    for n in free:
        if n in c["supports"]:
            c["supports"].remove(n)
    # a node where an auxiliary support will be
    if free and d.flag(4):
        spot = d.pick(free)
        others = [x for x in c["nodes"] if x[0] != spot and not any(x[0] in t[1:] for t in c["trails"])]
        if others:
            p = [x for x in c["nodes"] if x[0] == spot][0][1]
            d.pick(others)[1] = [x + length * y for x, y in zip(p, ref.unit(vector))]
    # deviation edges of the free nodes
    keys = [k for k, _ in c["nodes"]]
    have = {frozenset(e[1:3]) for e in c["edges"]}
    for n in free:
        m = d.pick(keys)
        if m != n and frozenset((m, n)) not in have:
            have.add(frozenset((m, n)))
            c["edges"].append(["d", m, n, gen.force(d)])
    # the completed diagram, with placeholder keys
    new = max(keys) + 1
    aux = {n: new + i for i, n in enumerate(free)}
    full = complete(c, aux, {n: (length, vector) for n in free})
    full = gen.well_posed(full)
    if full is None:
        return None
    back = set(aux.values())
    c["edges"] = [e for e in full["edges"] if not (set(e[1:3]) & back)]
    c["loads"] = [x for x in full["loads"] if x[0] not in back]
    late = []
    for _ in range(d.int(0, 2)):
        late.append([d.vec(-9, 9), d.pick(keys), gen.force(d) * 0.1, d.flag(),
                     [d.pick([0.75, -3.0]), d.pick([[1.0, -2.0, 0.5], [0.0, 0.0, 0.3]])] if d.flag(4) else None])
    return {"a": c, "free": free, "length": length, "vector": vector, "late": late, "defaults": d.flag(4),
            "solver": d.pick(["pure", "numpy"]), "style": d.int(0, 3)}


def complete(c, aux, conf):
    full = copy.deepcopy(c)
    xyz = {k: p for k, p in c["nodes"]}
    full["trails"] = [t for t in c["trails"] if t[0] not in aux]
    for n, a in aux.items():
        length, vector = conf[n]
        u = ref.unit(vector)
        full["nodes"].append([a, [x + length * y for x, y in zip(xyz[n], u)]])
        full["edges"].append(["t", n, a, length, None])
        full["supports"].append(a)
        full["trails"].append([n, a])
    return full


def expect(t, c, conf):
    """The diagram is the case c plus one auxiliary trail per free node; returns the completed case.

    conf : the length and the vector in force when the node was completed
    """
    aux = {}
    free = list(conf)
    known = {k for k, _ in c["nodes"]}
    pairs = {k: tuple(e) for k, e in t.auxiliary_trails(keys=True)}
    if sorted(pairs) != sorted(free):
        forms.fail("auxiliary trails at nodes %s, expected %s", sorted(pairs), sorted(free))
    for n, e in pairs.items():
        other = [k for k in e if k != n]
        if len(e) != 2 or len(other) != 1 or other[0] in known:
            forms.fail("auxiliary trail of node %s is %s", n, e)
        aux[n] = other[0]
    full = complete(c, aux, conf)
    if sorted(t.nodes()) != sorted(k for k, _ in full["nodes"]):
        forms.fail("nodes %s, expected %s", sorted(t.nodes()), sorted(k for k, _ in full["nodes"]))
    if {frozenset(e) for e in t.edges()} != {frozenset(e[1:3]) for e in full["edges"]}:
        forms.fail("unexpected edges")
    if t.number_of_edges() != len(full["edges"]):
        forms.fail("unexpected number of edges")
    for k, p in full["nodes"]:
        if ref.dist(t.node_coordinates(k), p) > 1e-9 * (1 + ref.norm(p)):
            forms.fail("node %s is at %s, expected %s", k, t.node_coordinates(k), p)
    for e in full["edges"]:
        key = tuple(e[1:3]) if t.has_edge(*e[1:3], directed=True) else (e[2], e[1])
        name, want = ("length", e[3]) if e[0] == "t" else ("force", e[3])
        if t.is_trail_edge(key) != (e[0] == "t") or t.edge_attribute(key, name) != want:
            forms.fail("edge %s has %s %s, expected %s", key, name, t.edge_attribute(key, name), want)
        is_aux = any(set(key) == {n, a} for n, a in aux.items())
        if bool(t.is_auxiliary_trail_edge(key)) != is_aux:
            forms.fail("is_auxiliary_trail_edge(%s) is %s", key, not is_aux)
        if e[0] == "t":
            got, plane = t.edge_plane(key), e[4]
            if (got is None) != (plane is None) or got is not None and (
                    ref.dist(got[0], plane[0]) > 1e-12 * (1 + ref.norm(plane[0]))
                    or ref.dist(ref.unit(got[1]), ref.unit(plane[1])) > 1e-12):
                forms.fail("the plane of edge %s is %s, expected %s", key, got, plane)
    loads = dict((k, list(q)) for k, q in full["loads"])
    for k, _ in full["nodes"]:
        if ref.dist(t.node_load(k), loads.get(k, [0.0, 0.0, 0.0])) > 0.0:
            forms.fail("the load at node %s is %s, expected %s", k, t.node_load(k), loads.get(k))
    got = {k: list(v) for k, v in t.trails(keys=True)}
    plan = {tr[0]: tr for tr in full["trails"]}
    if got != plan:
        forms.fail("trails %s, expected %s", got, plan)
    if sorted(t.support_nodes()) != sorted(full["supports"]):
        forms.fail("supports %s, expected %s", sorted(t.support_nodes()), sorted(full["supports"]))
    origins = sorted(tr[0] for tr in plan.values() if len(tr) > 1)
    if sorted(t.origin_nodes()) != origins:
        forms.fail("origins %s, expected %s", sorted(t.origin_nodes()), origins)
    for tr in plan.values():
        for i, n in enumerate(tr):
            if t.node_sequence(n) != i:
                forms.fail("node %s has sequence %s", n, t.node_sequence(n))
    if t.number_of_auxiliary_trails() != len(free) or len(list(t.auxiliary_trails())) != len(free):
        forms.fail("number of auxiliary trails %s", t.number_of_auxiliary_trails())
    if {frozenset(e) for e in t.auxiliary_trail_edges()} != {frozenset((n, a)) for n, a in aux.items()}:
        forms.fail("auxiliary trail edges %s", list(t.auxiliary_trail_edges()))
    return full


def check(case, ctx):
    c, free = case["a"], list(case["free"])
    length, vector = case["length"], case["vector"]
    t = build.topology(c, trails=False)
    if case["defaults"]:
        length, vector = t.auxiliary_trail_length, list(t.auxiliary_trail_vector)
        if length != -1.0 or list(vector) != [1.0, 1.0, 1.0]:
            forms.fail("defaults are %s, %s", length, vector)
    else:
        t.auxiliary_trail_length = length
        t.auxiliary_trail_vector = build.as_vector(vector, case["style"])
        if t.auxiliary_trail_length != length or list(t.auxiliary_trail_vector) != list(vector):
            forms.fail("the auxiliary trail settings are not kept")
    if free:
        try:
            t.build_trails()
        except Exception:
            pass
        else:
            forms.fail("nodes %s are in no trail, but the diagram was accepted", free)
    t.build_trails(auxiliary_trails=True)
    conf = {n: (length, vector) for n in free}
    full = expect(t, c, conf)
    ctx.label("%d free" % min(len(free), 3), "all free" if len(free) == len(c["trails"]) else "some trails")
    if not case["defaults"]:
        s = ref.solve(full)
        if s.converged:
            r = build.read(build.solve(t, case["solver"], full))
            forms.finite(r)
            forms.match_reference(r, s)
            forms.equilibrium(r, full, 1e-9 * build.lscale(full))
            ctx.label("solved")
    t.build_trails(auxiliary_trails=True)
    again = expect(t, c, conf)
    if sorted(map(str, again["nodes"])) != sorted(map(str, full["nodes"])):
        forms.fail("building the trails again changed the auxiliary trails")
    t.build_trails()
    expect(t, c, conf)
    # more free nodes, later
    c = copy.deepcopy(c)
    pending = []
    for p, k, f, rebuild, settings in case["late"]:
        if settings and rebuild:
            length, vector = settings
            t.auxiliary_trail_length = length
            t.auxiliary_trail_vector = build.as_vector(vector, case["style"])
            ctx.label("other settings")
        n = t.add_node(Node(xyz=p))
        if n in {x[0] for x in c["nodes"]}:
            forms.fail("a new node got the key of another node")
        t.add_edge(DeviationEdge(k, n, force=f))
        t.add_load(NodeLoad(n, [1.0, 0.0, -1.0]))
        c["nodes"].append([n, p])
        c["edges"].append(["d", k, n, f])
        c["loads"].append([n, [1.0, 0.0, -1.0]])
        pending.append(n)
        if rebuild:
            t.build_trails(auxiliary_trails=True)
            conf.update((x, (length, vector)) for x in pending)
            pending = []
            expect(t, c, conf)
    t.build_trails(auxiliary_trails=True)
    conf.update((x, (length, vector)) for x in pending)
    expect(t, c, conf)
    if case["late"]:
        ctx.label("extended")
    f = set(conf)
    ctx.nontrivial(any(e[0] == "d" and set(e[1:3]) & f for e in c["edges"]))


SUBS = [Sub("complete", gen.with_dice(prepare, extra=200, posed=False, scales=False), check,
            quick=2000, thorough=60000)]
