"""C22: the Grasshopper components do what the library does, and leave their inputs alone."""
import os
import tempfile

from compas_cem import COLORS
from compas_cem import __version__
from compas_cem.equilibrium import static_equilibrium

from lib import build
from lib import forms
from lib import gen
from lib import opt
from lib import ref
from lib import rhino
from lib.core import Sub
from lib.rhino import Line3d
from lib.rhino import Plane3d
from lib.rhino import Point3d
from lib.rhino import Polyline3d
from lib.rhino import Vector3d
from lib.rhino import run

rhino.install()

RULE = ("Random structures are assembled with the Grasshopper components from Rhino lines, points and vectors (with gaps: None), then "
        "trails are shifted, origins moved, keys searched, forms found (also with constraints, through the proxy), drawn with random "
        "selections, taken apart, exported and imported. Each output is compared with the generated structure or with the same call of the "
        "library, and all diagrams that are handed to a component must come out untouched. Rhino and Grasshopper are stand-ins; the proxy "
        "passes data through JSON. Non-trivial: a deviation edge, a load and two trails.")
ASSUMPTIONS = ["Rhino, Grasshopper, compas_rhino and compas_ghpython are replaced by stand-ins (lib/rhino.py)."]


def distinct(points, d=0.01):
    pts = sorted(points)
    for i, p in enumerate(pts):
        for q in pts[i + 1:]:
            if q[0] - p[0] > d:
                break
            if ref.dist(p, q) < d:
                return False
    return True


def plan(case, d):
    if not distinct([p for _, p in case["nodes"]]):
        origins = {t[0] for t in case["trails"]}
        case = dict(case)
        case["nodes"] = [[k, p if k in origins else [p[0] + 0.37 * i, p[1] - 0.11 * i, p[2] + 0.23 * i]]
                         for i, (k, p) in enumerate(case["nodes"])]
        if not distinct([p for _, p in case["nodes"]]):
            return None
    prob = opt.problem(case, d, max_params=3, max_constraints=3)
    if prob is None:
        return None
    for c in prob["constraints"]:
        c[3] = c[3] or 1.0      # a weight of zero counts as not given
    out = {"a": case, "gaps": [d.flag(6) for _ in range(12)], "shift": [d.int(0, 3) for _ in range(d.int(1, 6))],
           "targets": [d.int(0, 9) for _ in range(d.int(1, 4))],
           "points": [[200.0 + 3 * i + d.int(0, 2), d.int(-9, 9) + 0.5, d.real(-5, 5)] for i in range(d.int(1, 6))],
           "kmax": d.pick([None, None, 0, 1, 2, 9]), "eta": d.pick([None, 1e-9, 1e-3]), "tmax": d.pick([None, 100, 300, 1, 2, 4]),
           "some": [None if d.flag() else [d.int(0, 40) for _ in range(d.int(1, 5))] for _ in range(2)],
           "scale": d.pick([None, 1.0, 2.5]), "min": d.pick([None, 0.5, 1e-3]), "running": d.flag(), "solve": not d.flag(6),
           "aux": [d.flag(), d.int(0, 40), d.flag()], "iters": d.pick([1, 2, 4]), "algorithm": d.pick(["SLSQP", "MMA", None]), "blind": d.int(0, 60),
           "partial": [d.flag() for _ in range(4)], "leave": [d.flag(3) for _ in range(6)], "kappa": d.pick([1e-12, 1e12]),
           "eps": d.pick([1e-12, 1e6, 1.0, 1e-2]), "gap": d.pick([0.0, 0.0, 0.5]), "without": d.int(0, 11), "few": d.pick([400, 400, 1, 3, 6])}
    out.update(prob)
    return out


def untouched(before, t, what):
    if state(t) != before:
        forms.fail("%s changed a diagram that it was given", what)


def state(t):
    r = vars(build.read(t))
    r["seq"] = {n: t.node_attribute(n, "_k") for n in r["nodes"]} if hasattr(t, "trails") else None
    r["trails"] = [list(x) for x in t.trails()] if hasattr(t, "trails") else None
    r["gkeys"] = dict(t.gkey_node)
    return r


def gaps(items, flags):
    out = []
    for i, x in enumerate(items):
        if flags[i % len(flags)]:
            out.append(None)
        out.append(x)
    return out


def match(got, want, what, tol=1e-7):
    """The same tuples of numbers, in any order."""
    rest = [flat(g) for g in (got or [])]
    for w in want:
        w = flat(w)
        for i, g in enumerate(rest):
            if len(g) == len(w) and all(abs(a - b) <= tol * (1.0 + abs(a)) for a, b in zip(w, g)):
                del rest[i]
                break
        else:
            forms.fail("%s: %s is missing in %s", what, w, rest[:5])
    if rest:
        forms.fail("%s: %s should not be there", what, rest[:5])


def flat(x):
    if isinstance(x, (int, float)):
        return [float(x)]
    return [v for y in x for v in flat(y)]


def assemble(case, more=(), aux=None):
    c = case["a"]
    xyz = {k: p for k, p in c["nodes"]}
    g = case["gaps"]
    trails, devs = [], []
    for e in c["edges"]:
        line = Line3d(xyz[e[1]], xyz[e[2]])
        if e[0] == "t":
            trails.append(run("EdgeTrail", line=line, length=e[3], plane=None if e[4] is None else Plane3d(*e[4])))
        else:
            devs.append(run("EdgeDeviation", line=line, force=e[3]))
    devs += list(more)
    loads = [run("NodeLoad", point=Point3d(*xyz[k]), vector=Vector3d(*q)) for k, q in c["loads"]]
    supports = [run("NodeSupport", point=Point3d(*xyz[k])) for k in c["supports"]]
    t = run("TopologyDiagram", trail_edges=gaps(trails, g), deviation_edges=gaps(devs, g[1:]), loads=gaps(loads, g[2:]),
            supports=gaps(supports, g[3:]), add_auxiliary_trails=aux)
    # the keys of the nodes, by location
    key = {}
    for k, p in c["nodes"]:
        near = [n for n in t.nodes() if ref.dist(t.node_coordinates(n), p) < 1e-3]
        if len(near) != 1:
            forms.fail("%s nodes at %s", len(near), p)
        key[k] = near[0]
    return t, key


def check_topology(case, t, key):
    c = case["a"]
    r = build.read(t)
    if len(r.nodes) != len(key) or len(r.edges) != len(c["edges"]):
        forms.fail("%s nodes and %s edges", len(r.nodes), len(r.edges))
    loads = {k: q for k, q in c["loads"]}
    for k, p in c["nodes"]:
        if ref.dist(r.pos[key[k]], p) > 1e-9 * (1.0 + ref.norm(p)):
            forms.fail("node at %s instead of %s", r.pos[key[k]], p)
        if ref.dist(r.load[key[k]], loads.get(k, [0.0] * 3)) > 0.0:
            forms.fail("load %s instead of %s", r.load[key[k]], loads.get(k))
    for e in c["edges"]:
        f = frozenset((key[e[1]], key[e[2]]))
        if (r.length if e[0] == "t" else r.force).get(f) != e[3]:
            forms.fail("edge %s is wrong", e)
        u, v = key[e[1]], key[e[2]]
        if t.is_trail_edge((u, v)) != (e[0] == "t"):
            forms.fail("type of edge %s", e)
        if e[0] == "t":
            plane = t.edge_plane((u, v))
            if (plane is None) != (e[4] is None):
                forms.fail("plane of edge %s: %s", e, plane)
            if plane is not None and (ref.dist(plane[0], e[4][0]) > 1e-9 * (1 + ref.norm(e[4][0]))
                                      or ref.dist(ref.unit(plane[1]), ref.unit(e[4][1])) > 1e-9):
                forms.fail("plane of edge %s: %s", e, plane)
    if set(r.supports) != {key[k] for k in c["supports"]}:
        forms.fail("supports %s", r.supports)
    if {tuple(x) for x in t.trails()} != {tuple(key[n] for n in tr) for tr in c["trails"]}:
        forms.fail("trails %s", list(t.trails()))


def check(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    check_constants()
    t, key = assemble(case)
    check_topology(case, t, key)
    check_partial(case)
    check_auxiliary(case)
    trails = {key[tr[0]]: [key[n] for n in tr] for tr in c["trails"]}
    origins = [key[tr[0]] for tr in c["trails"]]
    before = state(t)

    # shift trails
    some = [origins[i % len(origins)] for i in case["targets"]]
    shifted = run("TrailsShift", topology=t, origin_node_keys=some, sequences=case["shift"])
    untouched(before, t, "TrailsShift")
    want = {n: i for tr in trails.values() for i, n in enumerate(tr)}
    for i, o in enumerate(some):
        s = case["shift"][min(i, len(case["shift"]) - 1)]
        for j, n in enumerate(trails[o]):
            want[n] = s + j
    got = {n: shifted.node_sequence(n) for n in shifted.nodes()}
    if got != want:
        forms.fail("sequences %s instead of %s", got, want)

    # move origins
    moved = run("OriginNodesMove", topology=t, origin_node_keys=some, points=[Point3d(*p) for p in case["points"]])
    untouched(before, t, "OriginNodesMove")
    pos = dict(before["pos"])
    for i, o in enumerate(some):
        pos[o] = tuple(case["points"][min(i, len(case["points"]) - 1)])
    for n in pos:
        if ref.dist(moved.node_coordinates(n), pos[n]) > 0.0:
            forms.fail("node %s is at %s instead of %s", n, moved.node_coordinates(n), pos[n])
    if distinct(list(pos.values())):
        search(moved, pos, "a diagram with moved origins")
        for o in set(some):
            try:
                found = run("SearchNodeKey", diagram=moved, point=Point3d(*before["pos"][o]))
            except KeyError:
                continue
            if found == o:
                forms.fail("a moved node is found at its old location")
    # find forms
    for o, s in c["shifts"]:
        t.shift_trail(key[o], s)
    before = state(t)
    kw = {}
    if case["eta"]:
        kw["eta"] = case["eta"] * build.lscale(c)
    if case["tmax"]:
        kw["tmax"] = case["tmax"]
    try:
        want = static_equilibrium(t.copy(), kmax=case["kmax"], eta=kw.get("eta", 1e-6), tmax=kw.get("tmax", 100))
    except ValueError:
        want = None
    try:
        form = run("FormFinding", topology=t, kmax=case["kmax"], **kw)
    except ValueError:
        if want is not None:
            raise
        form = None
    if form is not None:
        same(build.read(form), build.read(want))
    untouched(before, t, "FormFinding")
    form = static_equilibrium(t.copy(), eta=1e-9 * build.lscale(c), tmax=400)
    blind(case, t, form)
    untouched(before, t, "a component")
    draw_form(case, form)
    draw_directly(case, form)
    draw_topology(case, t, trails)
    untouched(before, t, "ArtistTopology")
    if distinct(list(before["pos"].values())):
        search(t, before["pos"], "a topology diagram")
    tol = case["gap"] and "5f" or "2f"
    if distinct(list(before["pos"].values()), 0.03):
        other = t.copy()
        other.tol = tol
        other.gkey_node.clear()
        for n, p in before["pos"].items():
            other.node_xyz(n, p)
        search(other, before["pos"], "a topology diagram with tolerance " + tol)
    parts(t, form, trails)
    files(t, form)
    untouched(before, t, "JSONExportDiagram")
    ctx.nontrivial("no deviation" not in labels and bool(c["loads"]) and len(c["trails"]) > 1)


def check_partial(case):
    """Where nothing is connected, nothing is added, and there are trails only if there can be."""
    c = case["a"]
    xyz = {k: p for k, p in c["nodes"]}
    lines, devs, loads, supports = case["partial"]
    args = {}
    used = set()
    if lines:
        es = [e for e in c["edges"] if e[0] == "t"]
        args["trail_edges"] = [run("EdgeTrail", line=Line3d(xyz[e[1]], xyz[e[2]]), length=e[3]) for e in es]
        used |= {n for e in es for n in e[1:3]}
    if devs:
        es = [e for e in c["edges"] if e[0] == "d" and lines]
        args["deviation_edges"] = [run("EdgeDeviation", line=Line3d(xyz[e[1]], xyz[e[2]]), force=e[3]) for e in es]
        used |= {n for e in es for n in e[1:3]}
    if loads:
        args["loads"] = [run("NodeLoad", point=Point3d(*xyz[k]), vector=Vector3d(*q)) for k, q in c["loads"] if k in used]
    if supports:
        args["supports"] = [run("NodeSupport", point=Point3d(*xyz[k])) for k in c["supports"] if k in used]
    if lines and supports and len(used) < len(c["nodes"]) and devs:
        return      # a lone support holds up a deviation edge
    t = run("TopologyDiagram", **args)
    counts = [t.number_of_nodes(), t.number_of_trail_edges(), t.number_of_deviation_edges(), t.number_of_support_nodes(), t.number_of_trails()]
    want = [len(used), len(args.get("trail_edges", [])), len(args.get("deviation_edges", [])), len(args.get("supports", [])),
            len([1 for tr in c["trails"] if tr[-1] in used]) if lines and supports else 0]
    if counts != want:
        forms.fail("nodes, trail edges, deviation edges, supports and trails: %s instead of %s", counts, want)


def check_auxiliary(case):
    """A deviation edge to a point that is on no trail gets an auxiliary trail."""
    c = case["a"]
    aux, i, lone = case["aux"]
    if not aux:
        return
    a, b = c["nodes"][i % len(c["nodes"])][1], [300.0, 40.0, 2.0]
    edge = run("EdgeDeviation", line=Line3d(a, b), force=0.5)
    if lone:    # nothing but the deviation edge: both ends get an auxiliary trail
        t = run("TopologyDiagram", deviation_edges=[edge], add_auxiliary_trails=True)
        ends = [a, b]
    else:
        t, key = assemble(case, [edge], True)
        ends = [b]
        want = {tuple(key[n] for n in tr) for tr in c["trails"]}
        if not want <= {tuple(x) for x in t.trails()}:
            forms.fail("trails %s do not contain %s", list(t.trails()), want)
    out = run("DisassembleTopology", topology=t)
    starts = [t.node_coordinates(tr[0]) for tr in out["auxiliary_trail_keys"]]
    match(starts, ends, "origins of auxiliary trails")
    if len(list(t.trails())) != len(ends) + (0 if lone else len(c["trails"])):
        forms.fail("trails %s", list(t.trails()))


def same(a, b, tol=1e-9):
    sc = 1.0 + max(ref.norm(p) for p in b.pos.values())
    for n in b.nodes:
        if not ref.dist(a.pos[n], b.pos[n]) <= tol * sc:
            forms.fail("node %s: %s instead of %s", n, a.pos[n], b.pos[n])
    fs = 1.0 + max(abs(f) for f in b.force.values())
    if set(a.force) != set(b.force) or a.supports != b.supports:
        forms.fail("edges or supports differ")
    for e in b.force:
        if not abs(a.force[e] - b.force[e]) <= tol * fs or not abs(a.length[e] - b.length[e]) <= tol * sc:
            forms.fail("edge %s: %s %s instead of %s %s", sorted(e), a.force[e], a.length[e], b.force[e], b.length[e])
    for n in b.nodes:
        if not ref.dist(a.react[n], b.react[n]) <= tol * fs or not ref.dist(a.load[n], b.load[n]) <= tol * fs:
            forms.fail("forces at node %s differ", n)


def search(d, pos, what):
    for n, p in pos.items():
        found = run("SearchNodeKey", diagram=d, point=Point3d(*p))
        if found != n:
            forms.fail("%s: found %s instead of %s at %s", what, found, n, p)
    for e in d.edges():
        for u, v in (e, e[::-1]):
            found = run("SearchEdgeKey", diagram=d, line=Line3d(pos[u], pos[v]))
            if len(found) != 1 or set(found[0]) != {u, v}:
                forms.fail("%s: found edge %s instead of %s", what, found, (u, v))


def select(case, i, seq):
    picks = case["some"][i]
    if picks is None:
        return None, list(seq)
    out = []
    for p in picks:
        x = list(seq)[p % len(seq)]
        if x not in out:
            out.append(x)
    return out, out


def arrows(case, nodes, r, which, signs=None):
    out = []
    s, tol = case["scale"] or 1.0, case["min"] or 1e-3
    for n in nodes:
        q = which[n]
        if abs(ref.norm(q) - tol) < 1e-9:
            return None
        if ref.norm(q) < tol:
            continue
        p, v = r.pos[n], ref.mul(q, s)
        sign = signs[n] if signs else 1
        if sign == 0:
            return None
        out.append((p, ref.add(p, v)) if sign > 0 else (ref.sub(p, v), p))
    return out


def draw_form(case, form):
    r = build.read(form)
    nk, nodes = select(case, 0, r.nodes)
    ek, edges = select(case, 1, r.edges)
    out = run("ArtistForm", form=form, node_keys=nk, edge_keys=ek, force_min=case["min"], force_scale=case["scale"])
    match(out["nodes"], [r.pos[n] for n in nodes], "nodes of the form")
    match(out["support_nodes"], [r.pos[n] for n in nodes if n in r.supports], "supports of the form")
    match(out["edges"], [(r.pos[u], r.pos[v]) for u, v in edges], "edges of the form")
    want = arrows(case, nodes, r, r.load)
    if want is not None:
        match(out["loads"], want, "loads of the form")
    signs = {}
    for n in nodes:
        fs = [r.force[frozenset(e)] for e in r.edges if n in e]
        top = [f for f in fs if abs(f) > (1 - 1e-9) * max(map(abs, fs)) - 1e-12]
        signs[n] = 0 if min(top) < 0.0 < max(top) else -1 if min(top) < 0.0 else 1
    want = arrows(case, nodes, r, r.react, signs)
    if want is not None:
        match(out["reactions"], want, "reactions of the form")


def draw_directly(case, form):
    """The artist behind the component, with its defaults and with a gap."""
    from compas.artists import Artist
    from compas_cem.diagrams import FormDiagram
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.ghpython.artists import FormArtist
    from compas_cem.ghpython.artists import TopologyArtist
    from compas_cem.ghpython import register
    known = Artist.ITEM_ARTIST.get("Grasshopper", {})
    if FormDiagram not in known:
        register.register_artists()
        known = Artist.ITEM_ARTIST.get("Grasshopper", {})
    if known.get(FormDiagram) is not FormArtist or known.get(TopologyDiagram) is not TopologyArtist:
        forms.fail("artists for Grasshopper: %s", known)
    r = build.read(form)
    artist = FormArtist(form)
    gap = case["gap"]
    kw = {"gap": gap} if gap else {}
    want = []
    for n in r.nodes:
        q = r.load[n]
        if abs(ref.norm(q) - 1e-3) < 1e-9:
            return
        if ref.norm(q) > 1e-3:
            p = ref.add(r.pos[n], ref.mul(ref.unit(q), gap))
            want.append((p, ref.add(p, q)))
    match(artist.draw_loads(**kw), want, "loads with a gap of %s" % gap)
    got, n = artist.draw_reactions(**kw), 0
    for k in r.nodes:
        q = r.react[k]
        if abs(ref.norm(q) - 1e-3) < 1e-9:
            return
        if ref.norm(q) > 1e-3:
            n += 1
            p = ref.add(r.pos[k], ref.mul(ref.unit(q), gap))
            o = ref.sub(r.pos[k], ref.mul(ref.unit(q), gap))
            ends = [flat((p, ref.add(p, q))), flat((ref.sub(o, q), o))]
            if not any(max(abs(a - b) for a, b in zip(e, flat(g))) < 1e-7 * (1.0 + max(map(abs, e))) for e in ends for g in got):
                forms.fail("reaction at node %s is not drawn with a gap of %s", k, gap)
    if n != len(got):
        forms.fail("%s reactions are drawn instead of %s", len(got), n)


def draw_topology(case, t, trails):
    r = build.read(t)
    nk, nodes = select(case, 0, r.nodes)
    ek, edges = select(case, 1, r.edges)
    out = run("ArtistTopology", topology=t, node_keys=nk, edge_keys=ek, force_min=case["min"], force_scale=case["scale"])
    match(out["nodes"], [r.pos[n] for n in nodes], "nodes")
    match(out["origin_nodes"], [r.pos[n] for n in nodes if n in trails], "origin nodes")
    match(out["support_nodes"], [r.pos[n] for n in nodes if n in r.supports], "support nodes")
    on = {frozenset(p) for tr in trails.values() for p in zip(tr, tr[1:])}
    match(out["edges"], [(r.pos[u], r.pos[v]) for u, v in edges], "edges")
    match(out["trail_edges"], [(r.pos[u], r.pos[v]) for u, v in edges if frozenset((u, v)) in on], "trail edges")
    match(out["deviation_edges"], [(r.pos[u], r.pos[v]) for u, v in edges if frozenset((u, v)) not in on], "deviation edges")
    match(out["trails"], [[r.pos[n] for n in tr] for tr in trails.values()], "trails")
    want = arrows(case, nodes, r, r.load)
    if want is not None:
        match(out["loads"], want, "loads")


def equal(a, b, what):
    if sorted(map(str, a)) != sorted(map(str, b)):
        forms.fail("%s: %s instead of %s", what, a, b)


def parts(t, form, trails):
    r = build.read(t)
    on = {frozenset(p) for tr in trails.values() for p in zip(tr, tr[1:])}
    out = run("DisassembleTopology", topology=t)
    equal(out["node_keys"], r.nodes, "nodes")
    equal(out["origin_node_keys"], trails, "origins")
    equal(out["support_node_keys"], r.supports, "supports")
    equal(out["edge_keys"], r.edges, "edges")
    equal(out["trail_edge_keys"], [e for e in r.edges if frozenset(e) in on], "trail edges")
    equal(out["deviation_edge_keys"], [e for e in r.edges if frozenset(e) not in on], "deviation edges")
    equal([list(x) for x in out["trail_keys"]], list(trails.values()), "trails")
    groups = {}
    for n in r.nodes:
        groups.setdefault(t.node_sequence(n), []).append(n)
    equal([sorted(x) for x in out["sequence_keys"] if x], [sorted(x) for x in groups.values()], "sequences")
    if [sorted(x) for x in out["sequence_keys"]] != [sorted(x) for x in t.sequences()]:
        forms.fail("sequences: %s", out["sequence_keys"])
    equal(out["auxiliary_trail_keys"], [], "auxiliary trails")
    out = run("DisassembleForm", form=form)
    f = build.read(form)
    equal(out["node_keys"], r.nodes, "nodes of the form")
    equal(out["support_node_keys"], r.supports, "supports of the form")
    equal([sorted(e) for e in out["edge_keys"]], [sorted(e) for e in r.edges], "edges of the form")
    for keys in (None, f.edges[:2], f.edges[-1:]):
        out = run("ResultsEdges", form=form, edge_keys=keys)
        keys = keys or list(form.edges())
        if list(map(float, out["lengths"])) != [f.length[frozenset(e)] for e in keys]:
            forms.fail("lengths %s of edges %s", out["lengths"], keys)
        if list(map(float, out["forces"])) != [f.force[frozenset(e)] for e in keys]:
            forms.fail("forces %s of edges %s", out["forces"], keys)
    for keys in (None, f.supports[-1:], f.nodes):
        out = run("ResultsSupportNodes", form=form, node=keys)
        out = out if not isinstance(out, dict) else list(out.values())[0]
        keys = keys or list(form.support_nodes())
        match(out, [f.react[n] for n in keys], "reactions")


def files(t, form):
    with tempfile.TemporaryDirectory(prefix="verif-c22-") as folder:
        for d, name, back in ((t, "t.json", "JSONImportTopology"), (form, "f.json", "JSONImportForm")):
            path = os.path.join(folder, name)
            run("JSONExportDiagram", diagram=d, filepath=path)
            if not os.path.isfile(path):
                forms.fail("nothing was exported")
            keep = vars(build.read(d))
            other = run(back, filepath=path)
            data = run("JSONExportDiagram", diagram=d, filepath=path)
            if data != d.data or vars(build.read(d)) != keep:
                forms.fail("the exported data are not those of the diagram")
            a, b = vars(build.read(d)), vars(build.read(other))
            if type(other) is not type(d) or {k: v for k, v in a.items() if k != "edges"} != {k: v for k, v in b.items() if k != "edges"} \
                    or sorted(a["edges"]) != sorted(b["edges"]):
                forms.fail("a diagram differs after export and import")


LINE = Line3d([0, 0, 0], [1, 0, 0])
POINT = Point3d(1, 2, 3)
VECTOR = Vector3d(0, 0, 1)
NODE, EDGE = {"node_key": 0}, {"edge_key": (0, 1)}
# the inputs that each component cannot do without
NEEDS = [("EdgeTrail", {"line": LINE, "length": 0.0}), ("EdgeDeviation", {"line": LINE, "force": 0.0}),
         ("NodeLoad", {"point": POINT, "vector": VECTOR}), ("NodeSupport", {"point": POINT}),
         ("FormFinding", {"topology": 0}), ("ArtistForm", {"form": 0}), ("ArtistTopology", {"topology": 0}),
         ("ConstraintNodePoint", dict(NODE, point=POINT)), ("ConstraintNodeLine", dict(NODE, line=LINE)),
         ("ConstraintNodePlane", dict(NODE, plane=Plane3d([0, 0, 0], [0, 0, 1]))),
         ("ConstraintNodePolyline", dict(NODE, polyline=Polyline3d([0, 0, 0], [1, 0, 0], [1, 1, 0]))),
         ("ConstraintReactionForce", dict(NODE, vector=VECTOR)), ("ConstraintTrailEdgeForce", dict(EDGE, force=0.0)),
         ("ConstraintDeviationEdgeLength", dict(EDGE, length=0.0)), ("ConstraintEdgeDirection", dict(EDGE, vector=VECTOR)),
         ("ParameterTrailEdge", EDGE), ("ParameterDeviationEdge", EDGE)]
NEEDS += [("Parameter%s%s" % (kind, axis), NODE) for kind in ("NodeLoad", "NodeOrigin") for axis in "XYZ"]
NEEDS += [("DisassembleForm", {"form": 0}), ("DisassembleTopology", {"topology": 0}), ("ResultsEdges", {"form": 0}),
          ("ResultsSupportNodes", {"form": 0}), ("SearchNodeKey", {"diagram": 0, "point": 1}), ("SearchEdgeKey", {"diagram": 0, "line": 1}),
          ("TrailsShift", {"topology": 0, "origin_node_keys": 1, "sequences": [1]}),
          ("OriginNodesMove", {"topology": 0, "origin_node_keys": 1, "points": [POINT]}), ("JSONImportForm", {"filepath": 1}),
          ("JSONImportTopology", {"filepath": 1}), ("JSONExportDiagram", {"diagram": 0, "filepath": 1})]


def blind(case, t, form):
    """A component that misses an input returns nothing; it returns something if it has them all."""
    name, needs = NEEDS[case["blind"] % len(NEEDS)]
    with tempfile.TemporaryDirectory(prefix="verif-c22-") as folder:
        d = form if name in ("JSONImportForm", "DisassembleForm", "ResultsEdges", "ResultsSupportNodes", "ArtistForm") else t
        path = os.path.join(folder, "d.json")
        if name.startswith("JSONImport"):
            d.to_json(path)
        n = next(iter(d.nodes()))
        u, v = next(iter(d.edges()))
        real = {"topology": d, "form": d, "diagram": d, "filepath": path, "point": Point3d(*d.node_coordinates(n)),
                "line": Line3d(d.node_coordinates(u), d.node_coordinates(v)), "origin_node_keys": [t.trails().__iter__().__next__()[0]]}
        full = {k: real[k] if w in (0, 1) and not isinstance(w, float) and k in real else w for k, w in needs.items()}
        keys = sorted(full)
        if run(name, **full) is None:
            forms.fail("%s returns nothing with %s connected", name, keys)
        for bits in range(2 ** len(keys) - 1):
            some = {k: full[k] for i, k in enumerate(keys) if bits >> i & 1}
            out = run(name, **some)
            if out is not None:
                forms.fail("%s returns something with nothing but %s connected", name, sorted(some))


PARAM = {"t": ("ParameterTrailEdge", "edge_key"), "d": ("ParameterDeviationEdge", "edge_key"), "x": ("ParameterNodeOriginX", "node_key"),
         "y": ("ParameterNodeOriginY", "node_key"), "z": ("ParameterNodeOriginZ", "node_key"), "qx": ("ParameterNodeLoadX", "node_key"),
         "qy": ("ParameterNodeLoadY", "node_key"), "qz": ("ParameterNodeLoadZ", "node_key")}


def constraint(c, key):
    kind, k, t, w = c
    k = (key[k[0]], key[k[1]]) if isinstance(k, list) else key[k]
    w = None if w == 1.0 else w
    if kind == "point":
        return run("ConstraintNodePoint", node_key=k, point=Point3d(*t), weight=w)
    if kind == "plane":
        return run("ConstraintNodePlane", node_key=k, plane=Plane3d(*t), weight=w)
    if kind == "line":
        return run("ConstraintNodeLine", node_key=k, line=Line3d(*t), weight=w)
    if kind == "polyline":
        return run("ConstraintNodePolyline", node_key=k, polyline=Polyline3d(*t), weight=w)
    if kind == "force":
        return run("ConstraintTrailEdgeForce", edge_key=k, force=t, weight=w)
    if kind == "reaction":
        return run("ConstraintReactionForce", node_key=k, vector=Vector3d(*t), weight=w)
    if kind == "length":
        return run("ConstraintDeviationEdgeLength", edge_key=k, length=t, weight=w)
    return run("ConstraintEdgeDirection", edge_key=k, vector=Vector3d(*t), weight=w)


def mapped(key, k):
    return [key[k[0]], key[k[1]]] if isinstance(k, list) else key[k]


def check_optimization(case, ctx):
    c = case["a"]
    labels = gen.classify(c, ctx)
    t, key = assemble(case)
    for o, s in c["shifts"]:
        t.shift_trail(key[o], s)
    # proxy
    rhino.STICKY.clear()
    del rhino.Proxy.log[:]
    if case["running"]:
        run("Proxy", start=True)
        if len(rhino.Proxy.log) != 1 or len(rhino.STICKY) != 1:
            forms.fail("the proxy did not start: %s", rhino.Proxy.log)
    params = []
    for kind, k, lo, up in case["params"]:
        name, what = PARAM[kind]
        k = mapped(key, k)
        params.append(run(name, bound_low=lo, bound_up=up, **{what: tuple(k) if isinstance(k, list) else k}))
    cons = [constraint(x, key) for x in case["constraints"]]
    before = state(t)
    eta = 1e-9 * build.lscale(c)
    few = case.get("few", 400)
    kw = dict(iters=case["iters"], eps=case["eps"], kappa=case["kappa"], tmax=few, eta=eta)
    args = dict(solve=case["solve"], topology=t, constraints=gaps(cons, case["gaps"]), parameters=gaps(params, case["gaps"][2:]),
                algorithm=case["algorithm"], iters_max=case["iters"], eps=case["eps"], kappa=case["kappa"], tmax=few, eta=eta)
    usual = dict(iters=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6)
    names = ["eps", "kappa", "tmax", "eta"] + (["iters"] if case["leave"][5] and len(c["nodes"]) < 8 else [])
    for name, leave in zip(names, case["leave"]):
        if leave:       # not connected: the usual value
            kw[name] = usual[name]
            del args["iters_max" if name == "iters" else name]
    if case["without"] < 3:
        some = dict(args)
        del some[["topology", "constraints", "parameters"][case["without"]]]
        if run("ConstrainedFormFinding", **some) is not None or rhino.Proxy.log[1 if case["running"] else 0:]:
            forms.fail("a component without %s solved", sorted(set(args) - set(some)))
    mc = dict(c)
    mc["nodes"] = [[key[k], p] for k, p in c["nodes"]]
    mc["edges"] = [[e[0], key[e[1]], key[e[2]]] + list(e[3:]) for e in c["edges"]]
    mc["trails"] = [[key[n] for n in tr] for tr in c["trails"]]
    mc["supports"] = [key[n] for n in c["supports"]]
    mc["loads"] = [[key[n], q] for n, q in c["loads"]]
    mc["shifts"] = [[key[o], s] for o, s in c["shifts"]]
    prob = {"params": [[p[0], mapped(key, p[1])] + p[2:] for p in case["params"]],
            "constraints": [[x[0], mapped(key, x[1])] + x[2:] for x in case["constraints"]]}
    # expected
    twin = t.copy()
    o = opt.optimizer(prob)
    if kw["tmax"] < 10:     # form finding may not converge, here and there
        try:
            wf = o.solve(twin, algorithm=case["algorithm"] or "SLSQP", grad="AD", **kw)
        except Exception:
            if case["solve"]:
                try:
                    run("ConstrainedFormFinding", **args)
                except Exception:
                    ctx.label("did not converge")
                else:
                    forms.fail("solved with at most %s iterations of form finding", kw["tmax"])
                untouched(before, t, "ConstrainedFormFinding")
            return
    else:
        wf = opt.attempt(o, twin, prob, mc, algorithm=case["algorithm"] or "SLSQP", grad="AD", **kw)
    if opt.failed(o, case["algorithm"] or "SLSQP", prob, mc):
        return
    out = run("ConstrainedFormFinding", **args)
    untouched(before, t, "ConstrainedFormFinding")
    stops = [x for x in rhino.Proxy.log if x[0] == "stop"]
    if not case["solve"]:
        if out is not None:
            forms.fail("solved without being asked to")
        return
    starts = [x for x in rhino.Proxy.log if x[0] == "start"]
    if len(starts) != 1 or len(stops) != (0 if case["running"] else 1):
        forms.fail("proxies: %s, with one running: %s", rhino.Proxy.log, case["running"])
    if kw["iters"] < 20:
        near(float(out["objective"]), float(o.penalty), "objective")
        near(float(out["grad_norm"]), float(o.gradient_norm), "norm of the gradient", 1e-4 * max(1.0, float(o.penalty)))
        if int(out["iters"]) != int(o.evals) or str(out["status"]) != str(o.status):
            forms.fail("%s iterations, %s instead of %s, %s", out["iters"], out["status"], o.evals, o.status)
        for a, b in zip(opt.read_values(out["topology"], prob["params"]), opt.read_values(twin, prob["params"])):
            near(a, b, "parameter")
        same(build.read(out["form"]), build.read(wf), 1e-5)
    elif int(o.evals) == kw["iters"] and not 0.6 * kw["iters"] <= int(out["iters"]) <= kw["iters"]:
        # rounding (the order of the terms) is amplified over a long run: the results themselves may differ
        forms.fail("%s iterations instead of %s", out["iters"], o.evals)
    if case["running"]:
        run("Proxy", stop=True)
        if rhino.STICKY or rhino.Proxy.log[-1] != ("stop", rhino.Proxy.log[0][2]) or len([x for x in rhino.Proxy.log if x[0] == "start" and x[1]]) != 1:
            forms.fail("the proxy did not stop: %s", rhino.Proxy.log)
    run("Proxy", stop=True)     # also if there is none
    n = len(rhino.Proxy.log)
    run("Proxy")
    if rhino.STICKY or len(rhino.Proxy.log) != n:
        forms.fail("a proxy was started: %s", rhino.Proxy.log)
    ctx.label(*["param " + p[0] for p in case["params"]])
    ctx.label(*["constraint " + x[0] for x in case["constraints"]])
    ctx.nontrivial("no deviation" not in labels and bool(c["loads"]))


def near(a, b, what, slack=1e-9):
    if not abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + slack:
        forms.fail("%s: %s instead of %s", what, a, b)


def check_constants():
    out = run("ArtistColors")
    names = {"color_reaction": "support_force"}
    for k, v in out.items():
        if tuple(v) != tuple(COLORS[names.get(k, k.replace("color_", ""))]):
            forms.fail("%s is %s", k, v)
    if __version__ not in run("Info"):
        forms.fail("version")


SUBS = [Sub("components", gen.with_dice(plan, extra=700, max_trails=4, max_len=5, big=False), check, quick=960, thorough=20000),
        Sub("optimization", gen.with_dice(plan, extra=700, max_trails=3, max_len=4, max_dev=5, big=False, scales=False),
            check_optimization, quick=480, thorough=10000)]
