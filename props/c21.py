"""C21: plots show what is in the diagrams."""
import math

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from compas.artists import Artist  # noqa: E402
from compas.colors import Color  # noqa: E402
from compas.utilities import geometric_key  # noqa: E402
from compas_cem import COLORS  # noqa: E402
from compas_cem.diagrams import FormDiagram  # noqa: E402
from compas_cem.diagrams import TopologyDiagram  # noqa: E402
from compas_cem.elements import DeviationEdge  # noqa: E402
from compas_cem.elements import Node  # noqa: E402
from compas_cem.plotters import FormArtist  # noqa: E402
from compas_cem.plotters import Plotter  # noqa: E402
from compas_cem.plotters import TopologyArtist  # noqa: E402
from matplotlib.collections import LineCollection  # noqa: E402
from matplotlib.collections import PatchCollection  # noqa: E402

from lib import build  # noqa: E402
from lib import forms  # noqa: E402
from lib import gen  # noqa: E402
from lib import ref  # noqa: E402
from lib.core import Sub  # noqa: E402

RULE = ("Random topology diagrams (before and after building trails, with auxiliary trails) and form diagrams, plotted with random "
        "sizes, widths, scales, tolerances, colour modes, labels and selections of nodes and edges on a canvas without a screen. "
        "The circles, lines, arrows and texts on the canvas are compared with the diagram: positions, sizes, colours by type, "
        "sequence and force state, line styles, widths proportional to forces, load and reaction vectors, and label texts. "
        "Non-trivial: a deviation edge and a load.")


def rgb(name):
    return tuple(Color.from_rgb255(*COLORS[name]).rgb)


def near(a, b, tol=1e-7):
    if isinstance(a, str) or a is None:
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * (1.0 + abs(a))


def match(got, want, what):
    """Two collections of plain tuples are the same, in any order."""
    rest = list(got)
    for w in want:
        for i, g in enumerate(rest):
            if near(w, g):
                del rest[i]
                break
        else:
            forms.fail("%s: %s is missing; there are %s", what, w, rest[:6])
    if rest:
        forms.fail("%s: %s should not be there", what, rest[:6])


def circles(axes):
    out = []
    for col in axes.collections:
        if isinstance(col, PatchCollection):
            faces = col.get_facecolor()
            for i, path in enumerate(col.get_paths()):
                v = path.vertices
                (x0, y0), (x1, y1) = v.min(axis=0), v.max(axis=0)
                out.append(((x0 + x1) / 2, (y0 + y1) / 2, (x1 - x0) / 2, tuple(faces[i % len(faces)][:3])))
    return out


def segments(axes):
    out = []
    for col in axes.collections:
        if isinstance(col, LineCollection):
            colors, widths, styles = col.get_colors(), col.get_linewidths(), col.get_linestyles()
            for i, s in enumerate(col.get_segments()):
                a, b = sorted([tuple(map(float, s[0])), tuple(map(float, s[-1]))])
                dashed = styles[i % len(styles)][1] is not None
                out.append((a, b, tuple(colors[i % len(colors)][:3]), float(widths[i % len(widths)]), "dashed" if dashed else "solid"))
    return out


def texts(axes):
    return [(float(t.get_position()[0]), float(t.get_position()[1]), t.get_text()) for t in axes.texts]


def xy(t, n):
    return tuple(float(v) for v in t.node_coordinates(n)[:2])


def mid(t, e):
    a, b = xy(t, e[0]), xy(t, e[1])
    return (0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1]))


def ends(t, e):
    return tuple(sorted([xy(t, e[0]), xy(t, e[1])]))


def plan(case, d):
    if d.flag(4):
        case = gen.weaker(case, d.pick([1e-3, 2e-2]))
    return {"a": case, "stage": d.pick(["trails", "bare", "aux"]), "size": d.pick([0.1, 0.3, 2.0]), "width": d.pick([1.0, 0.5, 3]),
            "widths": None if d.flag() else sorted([d.pick([0.1, 1.0]), d.pick([2.0, 5.0])]),
            "nodecolor": d.pick([None, "type", "sequence"]), "edgecolor": d.pick([None, "state", "type"]),
            "nodetext": d.pick([None, "key", "xyz", "keyxyz", "type", "sequence", "keysequence"]),
            "edgetext": d.pick([None, "key", "force", "length", "forcelength", "state", "forcelengthstate", "type"]),
            "show": [not d.flag(4) for _ in range(6)], "scales": [d.pick([1.0, 0.5, 3.0]), d.pick([1.0, 0.25, 2.0])],
            "tols": [d.pick([1e-3, 0.5, 2.0, 1e-5]), d.pick([1e-3, 0.5, 1e-5])], "how": d.int(0, 1), "solver": d.pick(["pure", "numpy"]),
            "some": d.flag(4), "pick": [d.flag() for _ in range(80)], "registered": d.flag(), "omit": d.flag(), "again": d.flag(4)}


def choose(case, seq):
    seq = list(seq)
    if not case["some"]:
        return None, seq
    some = [x for x, f in zip(seq, case["pick"]) if f] or seq[:1]
    return some, some


DEFAULTS = dict(nodesize=0.1, edgewidth=1.0, nodetext=None, edgetext=None, nodecolor=None, edgecolor=None, show_loads=True,
                show_reactions=True, show_nodetext=False, show_edgetext=False, show_nodes=True, show_edges=True, loadtol=1e-3,
                reactiontol=1e-3, loadscale=1.0, reactionscale=1.0)


def add(diagram, artist, case, kw):
    if case["omit"]:        # what is left out has the value it has by default
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v != DEFAULTS[k]}
    plotter = Plotter(figsize=(4, 3))
    if case["registered"]:
        a = plotter.add(diagram, **kw)
    else:
        a = artist(diagram, plotter=plotter, context="Plotter", **kw)
        plotter.add(diagram, artist=a)
    if case["again"]:       # drawing again shows the same nodes, edges and labels once
        a.draw()
    return plotter


def check_topology(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    t = build.topology(c, trails=False)
    sign_t = {frozenset(e[1:3]): e[3] for e in c["edges"]}
    if case["stage"] == "aux":
        k = t.add_node(Node(xyz=[3.0, 1.0, 2.0]))
        t.add_edge(DeviationEdge(c["nodes"][0][0], k, force=0.5))
        sign_t[frozenset((c["nodes"][0][0], k))] = 0.5
        t.build_trails(auxiliary_trails=True)
    elif case["stage"] == "trails":
        t.build_trails()
        for o, s in c["shifts"]:
            t.shift_trail(o, s)
    nodecolor, nodetext = case["nodecolor"], case["nodetext"]
    if case["stage"] == "bare":
        nodecolor = None if nodecolor == "sequence" else nodecolor
        nodetext = "keyxyz" if nodetext in ("sequence", "keysequence") else nodetext
    edgecolor, edgetext = case["edgecolor"], case["edgetext"]
    show_nodes, show_edges, show_loads, show_nt, show_et, _ = case["show"]
    nsel, nodes = choose(case, t.nodes())
    esel, edges = choose(case, t.edges())
    kw = dict(nodesize=case["size"], edgewidth=case["width"], nodetext=nodetext, edgetext=edgetext, nodecolor=nodecolor,
              edgecolor=edgecolor, show_loads=show_loads, show_nodetext=show_nt, show_edgetext=show_et, show_nodes=show_nodes,
              show_edges=show_edges)
    if nsel is not None:
        kw.update(nodes=nsel, edges=esel)
    before = build.read(t)
    plotter = add(t, TopologyArtist, case, kw)
    try:
        axes = plotter.axes
        total = len(list(t.nodes()))
        radius = case["size"] / total
        origins = {tr[0] for tr in t.trails()} if case["stage"] != "bare" else set()
        # nodes
        got = circles(axes)
        if nodecolor == "sequence":
            shades = {}
            for n in nodes if show_nodes else []:
                near_n = [g for g in got if near(g[:3], xy(t, n) + (radius,))]
                if len(near_n) != 1:
                    break       # nodes on top of each other in plan
                shades.setdefault(t.node_sequence(n), set()).add(near_n[0][3])
            if any(len(v) > 1 for v in shades.values()) or len({next(iter(v)) for v in shades.values()}) != len(shades):
                forms.fail("colours by sequence: %s", shades)
            if nsel is not None and shades:
                # a node has the same colour if others are left out
                whole = add(t, TopologyArtist, case, dict(kw, nodes=None, edges=None, show_loads=False, show_nodetext=False, show_edgetext=False))
                try:
                    every = circles(whole.axes)
                    for n in nodes:
                        near_n = [g for g in every if near(g[:2], xy(t, n))]
                        if len(near_n) == 1 and near_n[0][3] not in shades.get(t.node_sequence(n), {near_n[0][3]}):
                            forms.fail("the colour of sequence %s depends on the selection", t.node_sequence(n))
                finally:
                    plt.close(whole.figure)
            match([g[:3] for g in got], [xy(t, n) + (radius,) for n in nodes] if show_nodes else [], "nodes")
        else:
            want = []
            for n in nodes:
                name = "node_support" if t.is_node_support(n) else "node_origin" if n in origins else "node"
                want.append(xy(t, n) + (radius, rgb(name)))
            match(got, want if show_nodes else [], "nodes")
        # edges
        aux = {frozenset(e) for e in t.auxiliary_trail_edges()} if case["stage"] != "bare" else set()
        want = []
        for e in edges:
            f = frozenset(e)
            trail = t.is_trail_edge(e)
            if f in aux:
                name = "auxiliary_trail"
            elif edgecolor == "type":
                name = "edge_trail" if trail else "edge_deviation"
                if not trail and case["stage"] != "bare" and t.node_sequence(e[0]) != t.node_sequence(e[1]):
                    name = "edge_deviation_indirect"
            else:
                v = sign_t[f]
                name = "any" if v == 0.0 else "compression" if v < 0 else "tension"
            want.append(ends(t, e) + (None if name == "any" else rgb(name), float(case["width"]), "solid" if trail else "dashed"))
        got = segments(axes)
        if any(w[2] is None for w in want):     # the state of a force of zero is not specified
            drop = [(w[0], w[1]) for w in want if w[2] is None]
            want = [w for w in want if (w[0], w[1]) not in drop]
            got = [g for g in got if not any(near(g[:2], x) for x in drop)] if show_edges else got
        match(got, want if show_edges else [], "edges")
        # loads: two strokes across each loaded node
        want = []
        for n in nodes:
            if ref.norm(t.node_load(n)) > 1e-6:
                x, y = xy(t, n)
                h = radius * math.sqrt(0.5)
                want.append(tuple(sorted([(x - h, y - h), (x + h, y + h)])))
                want.append(tuple(sorted([(x - h, y + h), (x + h, y - h)])))
        lines = []
        for ln in axes.lines:
            xs, ys = ln.get_xdata(), ln.get_ydata()
            lines.append(tuple(sorted([(float(xs[0]), float(ys[0])), (float(xs[-1]), float(ys[-1]))])))
        match(once(loose(lines), want if show_loads else [], case), loose(want) if show_loads else [], "loads")
        # labels
        want = []
        if show_nt:
            for n in nodes:
                g = geometric_key(t.node_coordinates(n), "2f")
                k = t.node_sequence(n) if case["stage"] != "bare" else None
                kind = t.node_attribute(n, "type")
                text = {None: "%s" % n, "key": "%s" % n, "xyz": g, "keyxyz": "%s\n%s" % (n, g), "type": "%s" % kind,
                        "sequence": "%s" % k, "keysequence": "%s\n%s" % (n, k)}[nodetext]
                want.append(xy(t, n) + (text,))
        if show_et:
            for e in edges:
                f, ln = "%.2f" % abs(t.edge_force(e)), "%.2f" % abs(t.edge_length_2(e))
                s = "%.2f" % math.copysign(1.0, t.edge_length_2(e) if t.is_trail_edge(e) else t.edge_force(e))
                text = {None: "%s-%s" % e, "key": "%s-%s" % e, "force": f, "length": ln, "forcelength": "f: %s\nl: %s" % (f, ln),
                        "state": s, "forcelengthstate": "f: %s\nl: %s\ns: %s" % (f, ln, s),
                        "type": "trail" if t.is_trail_edge(e) else "deviation"}[edgetext]
                want.append(mid(t, e) + (text,))
        match(texts(axes), want, "labels")
    finally:
        plt.close("all")
    if vars(before) != vars(build.read(t)):
        forms.fail("plotting changed the diagram")
    ctx.label("stage " + case["stage"], "nodes by %s" % nodecolor, "edges by %s" % edgecolor)
    ctx.nontrivial("no deviation" not in labels and bool(c["loads"]))


def once(items, want, case):
    """Loads and reactions that were drawn again may lie on top of each other."""
    if case["again"] and len(items) == 2 * len(want) and near(items[:len(want)], items[len(want):]):
        return items[:len(want)]
    return items


def loose(segs):
    """Segments with their ends ordered robustly."""
    return [tuple(sorted(s, key=lambda p: (round(p[0], 7), round(p[1], 7)))) for s in segs]


def check_form(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    t = build.topology(c)
    f = build.solve(t, case["solver"], c)
    nodetext = case["nodetext"] if case["nodetext"] in (None, "key", "xyz", "keyxyz") else "xyz"
    edgetext = case["edgetext"] if case["edgetext"] in (None, "key", "force", "length", "forcelength") else "forcelength"
    show_nodes, show_edges, show_loads, show_nt, show_et, show_reactions = case["show"]
    nsel, nodes = choose(case, f.nodes())
    esel, edges = choose(case, f.edges())
    kw = dict(nodesize=case["size"], edgewidth=(tuple, list)[case.get("how", 0)](case["widths"]) if case["widths"] else case["width"], nodetext=nodetext,
              edgetext=edgetext, loadtol=case["tols"][0], loadscale=case["scales"][0], reactiontol=case["tols"][1],
              reactionscale=case["scales"][1], show_loads=show_loads, show_reactions=show_reactions, show_nodetext=show_nt,
              show_edgetext=show_et, show_nodes=show_nodes, show_edges=show_edges)
    if nsel is not None:
        kw.update(nodes=nsel, edges=esel)
    r = build.read(f)
    plotter = add(f, FormArtist, case, kw)
    try:
        axes = plotter.axes
        radius = case["size"] / len(r.nodes)
        want = [xy(f, n) + (radius, rgb("node_support" if n in r.supports else "node")) for n in nodes]
        match(circles(axes), want if show_nodes else [], "nodes")
        # edges
        forces = [abs(r.force[frozenset(e)]) for e in edges]
        lo, hi = min(forces), max(forces)
        want = []
        for e in edges:
            v = r.force[frozenset(e)]
            w = float(case["width"])
            if case["widths"]:
                w = case["widths"][1] if hi == lo else case["widths"][0] + (case["widths"][1] - case["widths"][0]) * (abs(v) - lo) / (hi - lo)
            want.append(ends(f, e) + (rgb("edge" if v == 0.0 else "compression" if v < 0 else "tension"), w, "solid"))
        match(segments(axes), want if show_edges else [], "edges")
        # arrows
        arrows = []
        for a in plotter.artists:
            if hasattr(a, "vector"):
                p, v = list(a.point), list(a.vector)
                arrows.append((tuple(map(float, p)), tuple(map(float, v)), tuple(Color.from_rgb255(*a.color).rgb) if max(a.color) > 1 else tuple(a.color)))
        if len(arrows) != len([p for p in axes.patches if type(p).__name__ == "FancyArrowPatch"]):
            forms.fail("arrows on the canvas: %s, expected %s", len(axes.patches), len(arrows))
        want = []
        border = False
        for n in nodes:
            p = [float(x) for x in r.pos[n]]
            if show_loads:
                q = r.load[n]
                border |= abs(ref.norm(q) - case["tols"][0]) < 1e-9
                if ref.norm(q) >= case["tols"][0]:
                    u = ref.unit(q)
                    want.append((tuple(x + radius * y for x, y in zip(p, u)), tuple(case["scales"][0] * x for x in q), rgb("load")))
            if show_reactions:
                q = r.react[n]
                border |= abs(ref.norm(q) - case["tols"][1]) < 1e-9
                if ref.norm(q) >= case["tols"][1]:
                    u = ref.unit(q)
                    here = sorted([r.force[frozenset(e)] for e in r.edges if n in e], key=abs)
                    top = [x for x in here if abs(x) > (1.0 - 1e-9) * abs(here[-1]) - 1e-12]
                    if min(top) < 0.0 < max(top):
                        border = True   # a tie between a tie and a strut
                    gap = radius
                    if here[-1] < 0.0:
                        gap = -(radius + case["scales"][1] * ref.norm(q))
                    want.append((tuple(x + gap * y for x, y in zip(p, u)), tuple(case["scales"][1] * x for x in q), rgb("support_force")))
        if not border:
            match(once(arrows, want, case), want, "arrows")
        # labels
        want = []
        if show_nt:
            for n in nodes:
                g = geometric_key(f.node_coordinates(n), "2f")
                want.append(xy(f, n) + ({None: "%s" % n, "key": "%s" % n, "xyz": g, "keyxyz": "%s\n%s" % (n, g)}[nodetext],))
        if show_et:
            for e in edges:
                a, b = "%.2f" % r.force[frozenset(e)], "%.2f" % ref.dist(r.pos[e[0]], r.pos[e[1]])
                text = {None: "%s-%s" % e, "key": "%s-%s" % e, "force": a, "length": b, "forcelength": "f: %s\nl: %s" % (a, b)}[edgetext]
                want.append(mid(f, e) + (text,))
        match(texts(axes), want, "labels")
    finally:
        plt.close("all")
    if vars(r) != vars(build.read(f)):
        forms.fail("plotting changed the diagram")
    ctx.nontrivial("no deviation" not in labels and bool(c["loads"]))


def _register():
    """As the plugin manager of compas does when the package is installed."""
    from compas_cem.plotters import register
    if Artist.ITEM_ARTIST.get("Plotter", {}).get(TopologyDiagram) is None:
        import compas_plotters.artists as ca
        for name in dir(ca):
            if name.startswith("register"):
                getattr(ca, name)()
        register.register_artists()


_register()
assert FormDiagram

SUBS = [Sub("topology", gen.with_dice(plan, extra=260, max_trails=4, max_len=5, big=False, scales=False), check_topology, quick=480, thorough=6000),
        Sub("form", gen.with_dice(plan, extra=260, max_trails=4, max_len=5, big=False, scales=False), check_form, quick=480, thorough=6000)]
