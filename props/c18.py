"""C18: an optimization ends at the reported optimum, within the bounds, in equilibrium."""
import copy

from lib import build
from lib import forms
from lib import gen
from lib import opt
from lib import ref
from lib.core import Discard
from lib.core import Sub

RULE = ("Random structures, parameters of all kinds with random bounds (also none, zero and negative ones) and constraints of "
        "all kinds, optimized with all six algorithms for 1-40 iterations. Oracle: each parameter is within start -|low| and "
        "start +|up|; the topology diagram holds the reported optimum and is unchanged otherwise; the form diagram is the "
        "reference equilibrium of that topology diagram; the reported penalty is the reference penalty of that form and not "
        "above the one at the start; counters and status are set. Non-trivial: the parameters moved.")


def plan(case, d):
    prob = opt.problem(case, d)
    if prob is None:
        return None
    prob.update(a=case, how=d.int(0, 1), algorithm=d.pick(opt.ALGORITHMS), iters=d.pick([10, 1, 3, 20, 40]),
                eps=d.pick([1e-6, 1e-3]), kappa=d.pick([1e-8, 1e-4]), grad=d.pick(["AD", "AD", "AD", "FD"]), verbose=d.flag(4))
    if d.flag(4) and len(case["nodes"]) < 12:       # as far as rounding allows
        prob.update(eps=d.pick([1e-14, 1e-20]), kappa=d.pick([1e-14, 1e-20]), iters=d.pick([60, 150]))
        if d.flag():
            prob.update(algorithm="SLSQP", grad="FD")
    return opt.calm(case, prob)


def state(t, skip):
    """All that a topology diagram prescribes, without the parameters."""
    out = {}
    for n in t.nodes():
        for name, v in zip(("x", "y", "z"), t.node_coordinates(n)):
            out[(n, name)] = float(v)
        for name, v in zip(("qx", "qy", "qz"), t.node_load(n)):
            out[(n, name)] = float(v)
        out[(n, "k")] = t.node_sequence(n)
        out[(n, "s")] = t.is_node_support(n)
        out[(n, "o")] = t.is_node_origin(n)
    for e in t.edges():
        out[(e, "length")] = float(t.edge_length_2(e))
        out[(e, "force")] = float(t.edge_force(e))
        out[(e, "plane")] = repr(t.edge_plane(e))
    out["trails"] = sorted((k, tuple(v)) for k, v in t.trails(keys=True))
    for kind, key, _, _ in skip:
        key = tuple(key) if isinstance(key, list) else key
        del out[(key, opt.ATTR.get(kind, kind))]
    return out


def check(case, ctx):
    c, params = case["a"], case["params"]
    t = build.topology(c)
    x0 = opt.values(c, params)
    before = state(t, params)
    o = opt.optimizer(case, case["how"])
    cons = [repr(v) for v in o.constraints.values()]
    eta = 1e-9 * build.lscale(c)
    form = opt.attempt(o, t, case, c, algorithm=case["algorithm"], grad=case["grad"], iters=case["iters"], eps=case["eps"],
                       kappa=case["kappa"], tmax=400, eta=eta, verbose=case["verbose"])
    x = opt.read_values(t, params)
    gave_up = opt.failed(o, case["algorithm"], case, c)
    # bounds, whatever happened
    for v, start, (kind, key, lo, up) in zip(x, x0, params):
        slack = 1e-12 * max(1.0, abs(start))
        if lo is not None and not v >= start - abs(lo) - slack:
            forms.fail("parameter %s %s is %s, below its bound %s - %s", kind, key, v, start, abs(lo))
        if up is not None and not v <= start + abs(up) + slack:
            forms.fail("parameter %s %s is %s, above its bound %s + %s", kind, key, v, start, abs(up))
    # nothing but the parameters changed
    after = state(t, params)
    for k in before:
        if after.get(k) != before[k]:
            forms.fail("%s changed from %s to %s", k, before[k], after.get(k))
    now = opt.with_values(c, params, x)
    s = ref.solve(now)
    if not opt.good(s) or ref.amplification(now, s) > 3e3:
        raise Discard()
    # the form is the equilibrium of the topology
    r = build.read(form)
    forms.finite(r)
    forms.match_reference(r, s, 1e-2 if gave_up else 1e-6)      # with the usual threshold, if it gave up
    if gave_up:
        ctx.label("gave up " + case["algorithm"])
        if x != x0:
            forms.fail("%s gave up and left the parameters at %s instead of %s", case["algorithm"], x, x0)
        return
    forms.equilibrium(r, now, eta)
    # the optimum that was reported
    xo = [float(v) for v in o.x_opt]
    if xo != x:
        forms.fail("the topology holds %s, the optimizer reports %s", x, xo)
    want, got = opt.penalty(case, s), float(o.penalty)
    if not abs(got - want) <= opt.slack(case, s, 1e-6) + 1e-12 * want:
        forms.fail("the penalty is %s, but that of the returned form is %s (%s)", got, want, o.status)
    s0 = ref.solve(c)
    start = opt.penalty(case, s0)
    if not want <= max(start, case["eps"]) + opt.slack(case, s0, 1e-6) + opt.slack(case, s, 1e-6) + 1e-9 * start:
        forms.fail("the penalty rose from %s to %s (%s, %s)", start, want, case["algorithm"], o.status)
    if not (isinstance(o.status, str) and o.status) or not o.evals >= 1 or not o.time_opt >= 0:
        forms.fail("status %s, evaluations %s, time %s", o.status, o.evals, o.time_opt)
    if o.evals > case["iters"] + (0 if case["algorithm"] in ("SLSQP", "MMA") else 50):
        forms.fail("%s evaluations, at most %s iterations were asked for", o.evals, case["iters"])
    if o.status == "NLOPT_ITERSMAX_REACHED" and o.evals < case["iters"]:
        forms.fail("stopped at the maximum of %s iterations after %s", case["iters"], o.evals)
    if o.status == "NLOPT_EPSVAL_REACHED" and not got <= case["eps"]:
        forms.fail("stopped because the penalty %s is below %s", got, case["eps"])
    if o.number_of_parameters() != len(params) or o.number_of_constraints() != len(cons):
        forms.fail("the optimizer lost parameters or constraints")
    ctx.label(case["algorithm"], o.status, case["grad"])
    ctx.label(*["parameter " + k[0] for k in params])
    gen.classify(c, ctx)
    ctx.nontrivial(x != x0)


def plan_convex(case, d):
    """Pull origins to points: the optimum is known."""
    origins = [t[0] for t in case["trails"]]
    sc = opt.gen_scale(case)
    xyz = {k: p for k, p in case["nodes"]}
    params, cons, best = [], [], []
    for n in origins[:d.int(1, 3)]:
        targets = [[x + d.real(-2, 2) * 0.5 * sc for x in xyz[n]] for _ in range(d.int(1, 2))]
        weights = [d.pick([1.0, 2.0, 0.5, 3.0]) for _ in targets]
        for t, w in zip(targets, weights):
            cons.append(["point", n, t, w])
        for j, axis in enumerate("xyz"):
            if d.flag(4):
                continue
            lo, up = [d.pick([None, 0.4 * sc, 0.1 * sc, -0.2 * sc, 5.0 * sc]) for _ in range(2)]
            params.append([axis, n, lo, up])
            v = sum(w * t[j] for t, w in zip(targets, weights)) / sum(weights)
            if lo is not None:
                v = max(v, xyz[n][j] - abs(lo))
            if up is not None:
                v = min(v, xyz[n][j] + abs(up))
            best.append(v)
    if not params:
        return None
    order = d.shuffle(range(len(params)))
    return {"a": case, "params": [params[i] for i in order], "constraints": cons, "best": [best[i] for i in order], "how": d.int(0, 1),
            "algorithm": d.pick(opt.ALGORITHMS), "grad": d.pick(["AD", "AD", "FD"])}


def check_convex(case, ctx):
    c = case["a"]
    t = build.topology(c)
    o = opt.optimizer(case, case["how"])
    o.solve(t, algorithm=case["algorithm"], grad=case["grad"], iters=400, eps=1e-14, kappa=1e-13, tmax=400, eta=1e-9 * build.lscale(c),
            step_size=1e-7)
    ctx.label(case["algorithm"])
    if opt.failed(o, case["algorithm"], case, c):
        ctx.label("runtime error " + case["algorithm"])
        raise Discard()
    sc = opt.gen_scale(c)
    for p, got, want in zip(case["params"], opt.read_values(t, case["params"]), case["best"]):
        if not abs(got - want) <= 2e-3 * max(sc, 1e-9):
            forms.fail("%s: parameter %s ended at %s, the optimum is %s (%s)", case["algorithm"], p, got, want, o.status)
    ctx.nontrivial(opt.values(c, case["params"]) != case["best"])


def plan_stop(case, d):
    prob = opt.problem(case, d)
    if prob is None:
        return None
    prob.update(a=case, algorithm=d.pick(opt.ALGORITHMS), why=d.pick(["eps", "kappa"]))
    return prob


def check_stop(case, ctx):
    """A penalty that is good enough to begin with ends the optimization at once, steps that are small enough end it soon."""
    c = case["a"]
    t = build.topology(c)
    if case["why"] == "kappa" and case["algorithm"] in ("SLSQP", "MMA"):     # the others test it in inner loops
        o = opt.optimizer(case)
        opt.attempt(o, t, case, c, algorithm=case["algorithm"], iters=80, eps=1e-16, kappa=1e12, tmax=400, eta=1e-9 * build.lscale(c))
        ctx.label(case["algorithm"], str(o.status))
        if opt.failed(o, case["algorithm"], case, c):
            raise Discard()
        if o.status not in ("NLOPT_FTOL_REACHED", "NLOPT_SUCCESS", "NLOPT_EPSVAL_REACHED", "NLOPT_ROUNDOFF_LIMITED") \
                or (case["algorithm"] == "MMA" and o.evals > 12):
            forms.fail("%s: any step was small enough, but the run ended with %s after %s evaluations", case["algorithm"], o.status, o.evals)
        ctx.nontrivial()
        return
    start = opt.penalty(case, ref.solve(c))
    o = opt.optimizer(case)
    o.solve(t, algorithm=case["algorithm"], iters=30, eps=2.0 * start + 1e-3, kappa=1e-14, tmax=400, eta=1e-9 * build.lscale(c))
    ctx.label(case["algorithm"], str(o.status))
    if opt.failed(o, case["algorithm"], case, c):
        raise Discard()
    if o.status != "NLOPT_EPSVAL_REACHED" or o.evals > 3:
        forms.fail("%s: the penalty %s was below %s to begin with, but the run ended with %s after %s evaluations", case["algorithm"],
                   start, 2.0 * start + 1e-3, o.status, o.evals)
    ctx.nontrivial(start > 1e-9)


ORDERS = (False, True, "nodes")


def slow(case, eta):
    """The number of iterations that form finding takes, at least and at most; None if that is not clear."""
    ss = [ref.solve(case, tmax=360, tol=1e-12, reverse=rev) for rev in ORDERS]
    counts = []
    for s in ss:
        done = [i for i, m in enumerate(s.moves) if max(m) < 0.5 * eta]
        if not s.converged or not done or s.zero_res or s.min_res < 1e-3 or s.min_dev < 1e-3 or s.min_cos < 0.01:
            return None
        early = [i for i, m in enumerate(s.moves) if i and min(m) < 2.0 * eta]
        counts += [early[0], done[0]]
    return min(counts), max(counts)


def plan_slow(case, d):
    m = ref.prepare(case)
    if all(m.k[u] == m.k[v] for u, v, _ in m.devs):
        return None
    eta = 1e-8 * build.lscale(case)
    lo, hi, best = 1.0, None, None
    for factor in (1.0, 2.0, 4.0, 8.0):
        got = slow(gen.damp_indirect(case, m, factor), eta)
        if got is None:
            hi = factor
            break
        lo = factor
    for _ in range(9 if hi else 0):
        mid = 0.5 * (lo + hi)
        c = gen.damp_indirect(case, m, mid)
        got = slow(c, eta)
        if got is None or got[1] > 270:
            hi = mid
            continue
        lo = mid
        if got[0] > 112:
            best = c
            break
    if best is None:
        return None
    prob = opt.problem(best, d, max_params=2, max_constraints=2)
    if prob is None:
        return None
    for x in prob["params"]:
        x[2:] = [1e-4 * v if v is not None else 1e-6 for v in x[2:]]
    prob.update(a=best, how=0, algorithm=d.pick(["SLSQP", "MMA"]), iters=d.pick([1, 2]), eta=eta)
    return prob


def check_slow(case, ctx):
    """Structures that take more than the usual number of iterations, which was asked for."""
    c, eta, params = case["a"], case["eta"], case["params"]
    t = build.topology(c)
    o = opt.optimizer(case)
    try:
        form = o.solve(t, algorithm=case["algorithm"], iters=case["iters"], eps=1e-12, kappa=1e-12, tmax=400, eta=eta)
    except ValueError:
        now = opt.with_values(c, params, opt.read_values(t, params))
        if slow(now, eta) is None:
            raise Discard()
        raise
    if opt.failed(o, case["algorithm"], case, c):
        raise Discard()
    now = opt.with_values(c, params, opt.read_values(t, params))
    if slow(now, eta) is None:
        raise Discard()
    r = build.read(form)
    forms.finite(r)
    forms.same(r, build.read(build.solve(t, "pure", eta=eta, tmax=400)))
    s = ref.solve(now, tmax=400)
    forms.match_reference(r, s, 1e-4)
    want, got = opt.penalty(case, s), float(o.penalty)
    if not abs(got - want) <= opt.slack(case, s, 1e-4) + 1e-12 * want:
        forms.fail("the penalty is %s, but that of the returned form is %s (%s)", got, want, o.status)
    ctx.label(case["algorithm"], str(o.status))
    ctx.nontrivial()


SUBS = [Sub("slow", gen.with_dice(plan_slow, extra=300, max_len=4, max_trails=4, max_dev=5, big=False, scales=False, planes=False), check_slow,
            quick=40, thorough=800),
        Sub("solve", gen.with_dice(plan, extra=500, max_len=4, max_trails=3, max_dev=5, big=False, scales=False), check,
            quick=500, thorough=15000),
        Sub("direct", gen.with_dice(plan, extra=500, max_len=4, max_trails=3, max_dev=5, big=False, scales=False, indirect=False),
            check, quick=300, thorough=8000),
        Sub("convex", gen.with_dice(plan_convex, extra=200, max_len=3, max_trails=3, max_dev=4, big=False, scales=False, indirect=False),
            check_convex, quick=240, thorough=6000),
        Sub("stop", gen.with_dice(plan_stop, extra=400, max_len=3, max_trails=3, max_dev=4, big=False, scales=False, indirect=False),
            check_stop, quick=320, thorough=6000)]
