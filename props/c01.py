"""C01: every node of a form diagram is in static equilibrium."""
from lib import build
from lib import forms
from lib import gen
from lib.core import Sub

RULE = ("Random structures of 1-10 trails (2-11 nodes each) with arbitrary keys, insertion orders, edge "
        "orientations, loads, planes, shifted trails, direct and indirect deviation edges, solved by both "
        "solvers with default and with tight settings; the balance of forces is recomputed from the node "
        "coordinates, edge forces, loads and reactions of the form diagram. Non-trivial: at least one "
        "deviation edge and one load.")
ASSUMPTIONS = ["cases whose equilibrium is ill-conditioned (undefined trail directions, coincident ends of "
               "deviation edges, non-contracting iterations) are excluded by a reference solver"]


def check(case, ctx):
    labels = gen.classify(case, ctx)
    t = build.topology(case)
    l0 = build.lscale(case)
    for which in ("pure", "numpy"):
        for eta, kw in ((build.fine(case), {"tmax": 400}), (1e-6, {}), (1e-3 * l0, {"tmax": 200})):
            if eta == 1e-6:
                form = build.SOLVERS[which](t)
            else:
                form = build.SOLVERS[which](t, eta=eta, **kw)
            r = build.read(form)
            forms.finite(r)
            forms.equilibrium(r, case, eta)
    ctx.nontrivial("no deviation" not in labels and bool(case["loads"]))


SUBS = [Sub("random", gen.topology(singles=True, extreme=True), check, quick=2400, thorough=60000),
        Sub("single_trail", gen.topology(max_trails=1, max_len=12, max_dev=4, extreme=True), check, quick=300, thorough=6000),
        Sub("dense", gen.topology(max_trails=6, max_len=5, max_dev=24, min_trails=3, extreme=True), check, quick=600, thorough=20000)]
