"""C04: node numbering, insertion order and edge orientation do not influence the form."""
from lib import build
from lib import forms
from lib import gen
from lib.core import Sub

RULE = ("Random structures (as in C01), solved as generated and again after renumbering the nodes, shuffling the "
        "order in which nodes, edges, supports and loads are added, flipping the orientation of edges and passing "
        "lists, tuples, points or vectors; forms are compared node by node and edge by edge. Non-trivial: the "
        "renumbering is not the identity and there are two trails or a deviation edge.")


def twist(case, d):
    keys = [k for k, _ in case["nodes"]]
    new = gen.node_keys(d, len(keys))
    new = d.shuffle(new)
    mp = dict(zip(keys, new))
    b = {"nodes": d.shuffle([[mp[k], p] for k, p in case["nodes"]]),
         "trails": d.shuffle([[mp[k] for k in t] for t in case["trails"]]),
         "supports": d.shuffle([mp[k] for k in case["supports"]]),
         "loads": d.shuffle([[mp[k], q] for k, q in case["loads"]]),
         "shifts": d.shuffle([[mp[k], s] for k, s in case["shifts"]]),
         "style": [d.int(0, 3) for _ in range(6)]}
    edges = []
    for e in case["edges"]:
        u, v = mp[e[1]], mp[e[2]]
        if d.flag():
            u, v = v, u
        edges.append([e[0], u, v] + list(e[3:]))
    b["edges"] = d.shuffle(edges)
    return {"a": case, "b": b, "map": [[k, mp[k]] for k in keys]}


def check(case, ctx):
    labels = gen.classify(case["a"], ctx)
    mp = dict(map(tuple, case["map"]))
    ta, tb = build.topology(case["a"]), build.topology(case["b"])
    for which in ("pure", "numpy"):
        ra = build.read(build.solve(ta, which, case["a"]))
        rb = build.read(build.solve(tb, which, case["b"]))
        forms.finite(ra)
        forms.same(ra, rb, key=lambda k: mp[k])
    ctx.nontrivial(any(a != b for a, b in mp.items()) and bool(labels & {"multi-trail", "direct deviation", "indirect deviation"}))


SUBS = [Sub("random", gen.with_dice(twist, extra=700, singles=True, extreme=True), check, quick=3600, thorough=40000)]
