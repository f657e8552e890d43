"""C08: form finding up to a sequence."""
from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Discard
from lib.core import Sub

RULE = ("Random structures, some of them shifted, solved up to every sequence kmax: the nodes up to kmax are where "
        "the reference solver puts them, nodes past kmax stay where the topology diagram has them, trail edges past "
        "kmax carry no force, the unbalanced force is reported at the nodes on kmax; a large kmax has no "
        "effect and a negative one is rejected. Non-trivial: kmax cuts at least one trail short.")


def make(case, d):
    m = ref.prepare(case)
    return {"a": case, "kmax": d.int(0, m.kmax + 2)}


def check(case, ctx):
    c, kmax = case["a"], case["kmax"]
    labels = gen.classify(c, ctx)
    m = ref.prepare(c)
    t = build.topology(c)
    eta = 1e-9 * build.lscale(c)
    try:
        build.SOLVERS["pure"](t, kmax=-1 - kmax)
    except Exception:
        pass
    else:
        forms.fail("a negative kmax was accepted")
    r = None
    if kmax >= m.kmax:
        r = build.read(build.SOLVERS["pure"](t, kmax=kmax, eta=eta, tmax=400))
        forms.same(r, build.read(build.SOLVERS["pure"](t, eta=eta, tmax=400)))
        ctx.label("kmax has no effect")
        return
    s = ref.solve(c, kmax=kmax)
    orders = [ref.solve(c, kmax=kmax, reverse=r) for r in (True, "nodes")]
    l0 = build.lscale(c)
    if (not s.converged or s.iters > 60 or s.warn_ambiguous or s.min_cos < 0.03 or s.zero_res or s.min_res < 5e-3
            or s.min_dev < 0.02 * l0 or s.min_plen < 0.02 * l0
            or any(max(ref.dist(s.pos[n], rv.pos[n]) for n in s.pos) > 1e-9 * s.scale for rv in orders)):
        raise Discard()
    pert = ref.solve(ref.perturbed(c, 1e-7, 5), kmax=kmax)
    if not pert.converged or max(ref.dist(s.pos[n], pert.pos[n]) for n in s.pos) > 1e-4 * s.scale:
        raise Discard()
    r = build.read(build.SOLVERS["pure"](t, kmax=kmax, eta=eta, tmax=400))
    forms.finite(r)
    for n, k in m.k.items():
        want = s.pos[n] if k <= kmax else m.xyz[n]
        if ref.dist(r.pos[n], want) > 1e-6 * s.scale:
            forms.fail("node %s (sequence %s, kmax %s) is at %s, expected %s", n, k, kmax, r.pos[n], want)
        want = s.react.get(n, (0.0, 0.0, 0.0))
        if ref.dist(r.react[n], want) > 1e-6 * max(m.fscale, 1e-12) * len(m.k):
            forms.fail("force at node %s (sequence %s, kmax %s) is %s, expected %s", n, k, kmax, r.react[n], want)
    for e in m.tedge:
        want = s.tforce.get(e, 0.0)
        if abs(r.force[e] - want) > 1e-6 * max(m.fscale, 1e-12) * len(m.k):
            forms.fail("trail edge %s carries %s, expected %s (kmax %s)", sorted(e), r.force[e], want, kmax)
    for u, v, f in m.devs:
        if r.force[frozenset((u, v))] != f:
            forms.fail("deviation edge %s carries %s", (u, v), r.force[frozenset((u, v))])
    for e in r.edges:
        d = ref.dist(r.pos[e[0]], r.pos[e[1]])
        if abs(abs(r.length[frozenset(e)]) - d) > 1e-9 * s.scale:
            forms.fail("edge %s stores length %s, not %s", e, r.length[frozenset(e)], d)
    if "indirect deviation" not in labels:
        # without indirect deviation edges, truncation does not influence what comes before
        full = build.read(build.SOLVERS["pure"](t, eta=eta, tmax=400))
        for n, k in m.k.items():
            if k <= kmax and ref.dist(full.pos[n], r.pos[n]) > 1e-6 * s.scale:
                forms.fail("node %s depends on kmax", n)
    ctx.nontrivial(any(m.k[tr[-1]] > kmax >= m.k[tr[0]] for tr in m.trails))


SUBS = [Sub("random", gen.with_dice(make, extra=8, singles=True), check, quick=2400, thorough=60000)]
