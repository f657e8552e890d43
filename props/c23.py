"""C23: the three-dimensional viewer shows what is in the diagrams."""
import math

from compas.colors import Color
from compas.utilities import geometric_key
from compas_cem import COLORS
from compas_cem.elements import DeviationEdge
from compas_cem.elements import Node

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib import view2
from lib.core import Sub

viewers = view2.install()

RULE = ("Random topology diagrams (before and after building trails, with auxiliary trails) and form diagrams, added to the viewer with "
        "random sizes, widths, scales, tolerances, labels and selections. What arrives in the viewer (cylinders, arrows, texts, points) "
        "is compared with the diagram: position, size, direction, colour by type and force state, widths by force, texts, and visibility, "
        "also when that is changed later. compas_view2 is a stand-in. Non-trivial: a deviation edge and a load.")
ASSUMPTIONS = ["compas_view2 is replaced by a stand-in that records what is added (lib/view2.py)."]


def rgb(name):
    return tuple(Color.from_rgb255(*COLORS[name]).rgb)


def near(a, b, tol=1e-7):
    if isinstance(a, str) or a is None:
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * (1.0 + abs(a))


def match(got, want, what):
    rest = list(got)
    for w in want:
        for i, g in enumerate(rest):
            if near(w, g):
                del rest[i]
                break
        else:
            forms.fail("%s: %s is missing; there are %s", what, w, rest[:6])
    if rest:
        forms.fail("%s: %s should not be there", what, rest[:6])


def plan(case, d):
    if d.flag(4):
        case = gen.weaker(case, d.pick([1e-3, 2e-2]))
    return {"a": case, "stage": d.pick(["trails", "bare", "aux"]), "size": d.pick([None, 5.0, 20]), "width": d.pick([None, 0.1, 3]),
            "widths": None if d.flag() else sorted([d.pick([0.1, 1.0]), d.pick([2.0, 5.0])]),
            "nodetext": d.pick([None, "key", "xyz", "keyxyz", "type", "own"]),
            "edgetext": d.pick([None, "key", "force", "length", "forcelength", "state", "forcelengthstate", "type", "own"]),
            "show": [None if d.flag(3) else not d.flag(3) for _ in range(6)], "scales": [d.pick([None, 0.5, 3.0]), d.pick([None, 0.25, 2])],
            "tols": [d.pick([None, 0.5, 2.0, 1e-5]), d.pick([None, 0.5, 2.0, 6.0, 1e-5])], "how": d.int(0, 1), "some": d.flag(4), "pick": [d.flag() for _ in range(80)],
            "solver": d.pick(["pure", "numpy"]), "later": [d.flag(), d.flag()],
            "text": [d.pick([None, 12, 45.5]), d.pick([None, [1.0, 0.0, 0.5], [0.25, 0.5, 0.0]])], "each": d.flag(4), "other": d.flag(6)}


def choose(case, seq):
    seq = list(seq)
    if not case["some"]:
        return None, seq
    some = [x for x, f in zip(seq, case["pick"]) if f] or seq[:1]
    return some, some


def vec(p):
    return tuple(float(x) for x in p)


def parallel(u, v):
    return ref.norm(ref.cross(ref.unit(u), ref.unit(v))) < 1e-6


def check(form, case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    stage = "trails" if form else case["stage"]
    t = build.topology(c, trails=False)
    if stage == "aux":
        k = t.add_node(Node(xyz=[3.0, 1.0, 2.0]))
        t.add_edge(DeviationEdge(c["nodes"][0][0], k, force=0.5))
        t.build_trails(auxiliary_trails=True)
    elif stage == "trails":
        t.build_trails()
        for o, s in c["shifts"]:
            t.shift_trail(o, s)
    g = build.solve(t, case["solver"], c) if form else t
    r = build.read(g)
    nsel, nodes = choose(case, g.nodes())
    esel, edges = choose(case, g.edges())
    nodetext, edgetext = case["nodetext"], case["edgetext"]
    if form and edgetext in ("state", "forcelengthstate"):
        edgetext = "forcelength"
    if case["other"]:       # a tag that is not known stands for the key
        nodetext, edgetext = "colour" if nodetext == "key" else nodetext, "colour" if edgetext == "key" else edgetext
    each = {e: 0.25 + 0.5 * (i % 5) for i, e in enumerate(edges)} if case["each"] else None
    kw = dict(nodes=nsel, edges=esel, nodesize=case["size"], 
              edgewidth=dict(each) if each else (tuple, list)[case.get("how", 0)](case["widths"]) if case["widths"] else case["width"],
              text_size=case["text"][0], text_color=tuple(case["text"][1]) if case["text"][1] else None,
              nodetext={n: "<%s>" % n for n in nodes} if nodetext == "own" else nodetext,
              edgetext={e: "<%s %s>" % e for e in edges} if edgetext == "own" else edgetext,
              loadscale=case["scales"][0], loadtol=case["tols"][0], residualscale=case["scales"][1], residualtol=case["tols"][1])
    names = ["show_nodes", "show_edges", "show_loads", "show_residuals", "show_nodetext", "show_edgetext"]
    show = dict(zip(names, [False, True, True, True, False, False]))
    for name, v in zip(names, case["show"]):
        if v is not None:
            kw[name] = show[name] = v
    kw = {k: v for k, v in kw.items() if v is not None}
    viewer = viewers.Viewer()
    obj = viewer.add(g, **kw)

    # cylinders
    got, arrows, texts = [], [], []
    for data, opts in viewer.added:
        if isinstance(data, view2.Text):
            texts.append((vec(data.position), data.text, float(data.height), vec(opts["color"])))
            continue
        for x in data.items:
            if isinstance(x, view2.Arrow):
                arrows.append((vec(x.position), vec(x.direction), vec(opts["facecolor"])))
            else:
                normal = x.circle.plane.normal
                got.append((vec(x.circle.plane.point), vec(normal), float(x.circle.radius), float(x.height), vec(opts["facecolor"]),
                            vec(opts["linecolor"])))
    forces = [abs(r.force[frozenset(e)]) for e in edges]
    lo, hi = min(forces), max(forces)
    aux = {frozenset(e) for e in t.auxiliary_trail_edges()} if stage == "aux" else set()
    want = []
    for e in edges:
        f = frozenset(e)
        w = case["width"] or 0.015
        if case["widths"]:
            w = case["widths"][1] if hi == lo else case["widths"][0] + (case["widths"][1] - case["widths"][0]) * (abs(r.force[f]) - lo) / (hi - lo)
        if each:
            w = each[e]
        if form:
            color = rgb("compression" if r.force[f] < 0.0 else "tension")
        elif f in aux:
            color = rgb("auxiliary_trail")
        elif g.is_trail_edge(e):
            color = rgb("edge_trail")
        elif stage == "bare" or g.node_sequence(e[0]) == g.node_sequence(e[1]):
            color = rgb("edge_deviation")
        else:
            color = rgb("edge_deviation_indirect")
        a, b = r.pos[e[0]], r.pos[e[1]]
        want.append((ref.mul(ref.add(a, b), 0.5), ref.sub(b, a), w / 2.0, ref.dist(a, b), color, color))
    if not show["show_edges"]:
        want = []
    rest = list(got)
    for w in want:
        for i, x in enumerate(rest):
            if near(w[0], x[0]) and near(w[2:], x[2:]) and (w[3] < 1e-6 or parallel(w[1], x[1])):
                del rest[i]
                break
        else:
            forms.fail("edges: %s is missing; there are %s", w, rest[:4])
    if rest:
        forms.fail("edges: %s should not be there", rest[:4])

    # arrows
    want, border = [], False
    for n in nodes:
        p = r.pos[n]
        for kind, q, i, name in (("load", r.load[n], 0, "show_loads"), ("support_force", r.react[n], 1, "show_residuals")):
            if not show[name] or (kind != "load" and not form):
                continue
            tol = case["tols"][i] or 1e-3
            border |= abs(ref.norm(q) - tol) < 1e-9
            if ref.norm(q) < tol:
                continue
            v = ref.mul(q, case["scales"][i] or 1.0)
            if kind == "support_force":
                here = [r.force[frozenset(e)] for e in r.edges if n in e]
                top = [x for x in here if abs(x) > (1.0 - 1e-9) * max(map(abs, here)) - 1e-12]
                border |= min(top) < 0.0 < max(top)
                if min(top) < 0.0:
                    p = ref.sub(p, v)
            want.append((vec(p), vec(v), rgb(kind)))
    if not border:
        match(arrows, want, "arrows")

    # labels
    want = []
    if show["show_nodetext"]:
        for n in nodes:
            k = geometric_key(g.node_coordinates(n), "2f")
            want.append((r.pos[n], {None: "%s" % n, "key": "%s" % n, "xyz": k, "keyxyz": "%s\n%s" % (n, k),
                                    "colour": "%s" % n, "type": "%s" % g.node_attribute(n, "type"), "own": "<%s>" % n}[nodetext]))
    if show["show_edgetext"]:
        for e in edges:
            f, ln = "%.2f" % abs(r.force[frozenset(e)]), "%.2f" % abs(r.length[frozenset(e)])
            s = None
            if not form:
                s = "%.2f" % math.copysign(1.0, g.edge_length_2(e) if g.is_trail_edge(e) else g.edge_force(e))
            text = {None: "%s-%s" % e, "key": "%s-%s" % e, "force": f, "length": ln, "forcelength": "f: %s\nl: %s" % (f, ln),
                    "state": s, "forcelengthstate": "f: %s\nl: %s\ns: %s" % (f, ln, s),
                    "colour": "%s-%s" % e, "type": "%s" % g.edge_attribute(e, "type"), "own": "<%s %s>" % e}[edgetext]
            want.append((ref.mul(ref.add(r.pos[e[0]], r.pos[e[1]]), 0.5), text))
    style = (float(case["text"][0] or 30), vec(case["text"][1] or (0.0, 0.0, 0.0)))
    match(texts, [w + style for w in want], "labels")

    # points
    positions, colors, elements = obj._points_data()
    origins = {tr[0] for tr in t.trails()} if stage != "bare" and not form else set()
    want = [(r.pos[n], rgb("node_support" if n in r.supports else "node_origin" if n in origins else "node_black")) for n in nodes]
    match([(vec(p), vec(q)) for p, q in zip(positions, colors)], want, "nodes")
    if sorted(i for e in elements for i in e) != list(range(len(nodes))):
        forms.fail("elements %s", elements)
    if float(obj.node_size) != float(case["size"] or 10.0):
        forms.fail("size of nodes %s", obj.node_size)
    if case["size"] and float(obj.pointsize) != float(case["size"]):
        forms.fail("size of points %s", obj.pointsize)
    flags = (show["show_nodes"], show["show_edges"])
    for _ in range(2):
        if (bool(obj.show_nodes), bool(obj.show_edges)) != flags or bool(obj.show_points) != flags[0] or bool(obj.show_lines) != flags[1]:
            forms.fail("nodes and edges are shown: %s %s %s %s, expected %s", obj.show_nodes, obj.show_edges, obj.show_points,
                       obj.show_lines, flags)
        flags = tuple(case["later"])
        obj.show_edges = flags[1]
        obj.show_nodes = flags[0]
    if vars(r) != vars(build.read(g)):
        forms.fail("showing a diagram changed it")
    ctx.label("stage " + stage)
    ctx.nontrivial("no deviation" not in labels and bool(c["loads"]))


SUBS = [Sub("topology", gen.with_dice(plan, extra=260, max_trails=4, max_len=5, big=False, scales=False), lambda c, x: check(False, c, x),
            quick=640, thorough=20000),
        Sub("form", gen.with_dice(plan, extra=260, max_trails=4, max_len=5, big=False, scales=False), lambda c, x: check(True, c, x),
            quick=640, thorough=20000)]
