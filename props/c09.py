"""C09: build_trails() finds exactly the trails of a diagram, or rejects it."""
import copy

from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node
from compas_cem.elements import TrailEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport

from lib import build
from lib import forms
from lib import gen
from lib.core import Sub

RULE = ("(a) Random diagrams whose trail edges form disjoint paths with one supported end (plus lone supports), with "
        "arbitrary keys, insertion orders and edge orientations and any deviation edges: trails, origins, sequences and "
        "node classes must be those of the generated plan. (b) Histories of extensions at the origin, new trails, new "
        "deviation edges, shifts and rebuilds: after each rebuild the diagram equals the plan, whatever was built "
        "before. (c) Diagrams with a node that no supported trail reaches, without supports or without trail edges: "
        "rejected with an error. Non-trivial: two or more trails of different lengths, or an extension, or a rejection.")


def expect(t, case):
    """The trails of the diagram are those of the case, unshifted."""
    plan = {tr[0]: list(tr) for tr in case["trails"]}
    got = {k: list(v) for k, v in t.trails(keys=True)}
    if got != plan:
        forms.fail("trails are %s, expected %s", got, plan)
    if sorted(map(list, t.trails())) != sorted(plan.values()):
        forms.fail("trails() and trails(keys=True) disagree")
    if t.number_of_trails() != len(plan) or not t.has_trails():
        forms.fail("number of trails %s, expected %s", t.number_of_trails(), len(plan))
    for k, tr in plan.items():
        if list(t.trail(k)) != tr:
            forms.fail("trail(%s) is %s, expected %s", k, t.trail(k), tr)
    origins = sorted(tr[0] for tr in plan.values() if len(tr) > 1)
    if sorted(t.origin_nodes()) != origins:
        forms.fail("origin nodes are %s, expected %s", sorted(t.origin_nodes()), origins)
    supports = sorted(case["supports"])
    if sorted(t.support_nodes()) != supports:
        forms.fail("support nodes are %s, expected %s", sorted(t.support_nodes()), supports)
    for tr in plan.values():
        for i, n in enumerate(tr):
            if t.node_sequence(n) != i:
                forms.fail("node %s has sequence %s, expected %s", n, t.node_sequence(n), i)
            if t.is_node_origin(n) != (n in origins) or t.is_node_support(n) != (n in supports):
                forms.fail("node %s is misclassified", n)
    if t.number_of_sequences() != max(len(tr) for tr in plan.values()):
        forms.fail("number of sequences %s", t.number_of_sequences())
    if sorted(t.nodes()) != sorted(k for k, _ in case["nodes"]):
        forms.fail("build_trails changed the nodes of the diagram")
    if {frozenset(e) for e in t.edges()} != {frozenset(e[1:3]) for e in case["edges"]}:
        forms.fail("build_trails changed the edges of the diagram")


def check_plan(case, ctx):
    labels = gen.classify(case, ctx)
    t = build.topology(case, shifts=False)
    expect(t, case)
    t.build_trails()
    expect(t, case)
    ctx.nontrivial("unequal trails" in labels)


def extend(case, d):
    """A history of additions to the plan, with the plan after each of them."""
    ops = []
    cur = copy.deepcopy(case)
    for _ in range(d.int(1, 7)):
        op = d.int(0, 5)
        keys = [k for k, _ in cur["nodes"]]
        k = max(keys) + d.int(1, 3)
        if op == 0:       # extend a trail beyond its origin
            tr = d.pick(cur["trails"])
            tail = [tr[0], k] if d.flag() else [k, tr[0]]
            ln = d.pick([-1.0, 1.0, 2.5])
            cur["nodes"].append([k, d.vec(-9, 9)])
            cur["edges"].append(["t"] + tail + [ln, None])
            tr.insert(0, k)
            ops.append(["extend", k, cur["nodes"][-1][1], tail, ln])
        elif op == 1:     # a new trail
            a, b = k, k + 1
            pair = [a, b] if d.flag() else [b, a]
            cur["nodes"] += [[a, d.vec(-9, 9)], [b, d.vec(-9, 9)]]
            cur["edges"].append(["t"] + pair + [1.0, None])
            cur["trails"].append([a, b])
            cur["supports"].append(b)
            ops.append(["trail", [list(x) for x in cur["nodes"][-2:]], pair, b])
        elif op == 2:     # a deviation edge
            have = {frozenset(e[1:3]) for e in cur["edges"]}
            a, b = d.pick(keys), d.pick(keys)
            if a == b or frozenset((a, b)) in have:
                continue
            cur["edges"].append(["d", a, b, 1.0])
            ops.append(["dev", a, b])
        elif op == 3:
            long = [tr for tr in cur["trails"] if len(tr) > 1]
            ops.append(["shift", d.int(0, len(long) - 1), d.int(0, 4)])
            continue
        elif op == 4:     # a lone support
            cur["nodes"].append([k, d.vec(-9, 9)])
            cur["trails"].append([k])
            cur["supports"].append(k)
            ops.append(["lone", k, cur["nodes"][-1][1]])
        else:
            n = d.pick(keys)
            ops.append(["load", n, d.vec(-2, 2)])
        if d.flag():
            ops.append(["build", copy.deepcopy(cur)])
    ops.append(["build", copy.deepcopy(cur)])
    return {"a": case, "ops": ops}


def check_history(case, ctx):
    gen.classify(case["a"], ctx)
    t = build.topology(case["a"], shifts=False)
    for op in case["ops"]:
        ctx.label("op " + op[0])
        if op[0] == "extend":
            t.add_node(Node(op[1], op[2]))
            t.add_edge(TrailEdge(op[3][0], op[3][1], length=op[4]))
            ctx.nontrivial()
        elif op[0] == "trail":
            for k, p in op[1]:
                t.add_node(Node(k, p))
            t.add_edge(TrailEdge(op[2][0], op[2][1], length=1.0))
            t.add_support(NodeSupport(op[3]))
        elif op[0] == "dev":
            t.add_edge(DeviationEdge(op[1], op[2], force=1.0))
        elif op[0] == "shift":
            origins = sorted(t.origin_nodes())
            t.shift_trail(origins[op[1] % len(origins)], op[2])
        elif op[0] == "lone":
            t.add_node(Node(op[1], op[2]))
            t.add_support(NodeSupport(op[1]))
        elif op[0] == "load":
            t.add_load(NodeLoad(op[1], op[2]))
        else:
            t.build_trails()
            expect(t, op[1])


def broken(case, d):
    kind = d.pick(["free node", "unsupported trail", "no supports", "no trail edges", "free pair"])
    c = copy.deepcopy(case)
    c["shifts"] = []
    keys = [k for k, _ in c["nodes"]]
    new = max(keys) + d.int(1, 5)
    if kind == "free node":
        c["nodes"].insert(d.int(0, len(keys)), [new, d.vec(-9, 9)])
    elif kind == "unsupported trail":
        tr = d.pick([x for x in c["trails"] if len(x) > 1])
        c["supports"] = [s for s in c["supports"] if s != tr[-1]]
    elif kind == "no supports":
        c["supports"] = []
    elif kind == "no trail edges":
        c["edges"] = [e for e in c["edges"] if e[0] == "d"]
        if d.flag():
            c["supports"] = list(keys)
    else:
        c["nodes"].insert(d.int(0, len(keys)), [new, d.vec(-9, 9)])
        c["edges"].append(["d", d.pick(keys), new, 1.0])
    return {"kind": kind, "case": c}


def check_rejected(case, ctx):
    ctx.label(case["kind"])
    ctx.nontrivial()
    t = build.topology(case["case"], trails=False)
    try:
        t.build_trails()
    except Exception:
        if t.number_of_trails():
            forms.fail("trails were stored although the diagram was rejected")
        return
    forms.fail("a diagram with %s was accepted; trails %s", case["kind"], list(t.trails()))


SUBS = [Sub("plan", gen.raw_topology(singles=True, scales=False), check_plan, quick=1500, thorough=40000),
        Sub("history", gen.with_dice(extend, extra=300, posed=False, singles=True, scales=False),
            check_history, quick=1500, thorough=40000),
        Sub("rejected", gen.with_dice(broken, extra=64, posed=False, singles=True, scales=False),
            check_rejected, quick=1000, thorough=20000)]
