"""C17: the gradient of the objective is the derivative of the penalty with respect to the parameters."""
import copy
import math

from lib import build
from lib import forms
from lib import gen
from lib import opt
from lib import ref
from lib.core import Discard
from lib.core import Sub

RULE = ("Random structures, parameters of all eight kinds and 1-4 constraints of all eight kinds. The gradient reported by a "
        "short optimization run, by automatic differentiation and by finite differences, is compared with central "
        "differences of the reference penalty (of the reference equilibrium) at the parameter values left in the topology; "
        "points where one-sided differences disagree (kinks of the penalty) are excluded. Non-trivial: at least one "
        "component of the gradient is not zero.")


def generic(case):
    """Break the symmetries of a case, so that positions do not converge before their derivatives do."""
    out = copy.deepcopy(case)
    fs = ref.prepare(case).fscale
    fs = fs if fs > 1e-6 else 1.0
    sc = build.lscale(case)
    loads = {k: q for k, q in out["loads"]}
    for i, (k, p) in enumerate(out["nodes"]):
        q = loads.get(k, [0.0, 0.0, 0.0])
        loads[k] = [x + 0.11 * fs * math.sin(1.7 * i + 2.3 * j + 0.4) for j, x in enumerate(q)]
        p[:] = [x + 0.07 * sc * math.cos(2.9 * i + 1.3 * j + 0.2) for j, x in enumerate(p)]
    out["loads"] = [[k, loads[k]] for k, _ in out["nodes"]]
    for i, e in enumerate(out["edges"]):
        e[3] *= 1.0 + 0.05 * math.sin(3.1 * i + 0.7)
    return gen.well_posed(out, max_amp=200)


def plan_generic(case, d):
    case = generic(case)
    return None if case is None else plan(case, d)


def plan(case, d):
    prob = opt.problem(case, d, unbounded=False)
    if prob is None:
        return None
    prob.update(a=case, how=d.int(0, 1), algorithm=d.pick(["SLSQP", "LBFGS", "MMA", "TNEWTON", "VAR"]), iters=d.pick([1, 1, 3]),
                step=d.pick([1e-5, 1e-3, 1e-4, 1e-6]))
    return opt.calm(case, prob)


def reference(case, x, i, h):
    """Penalties at x - h, x, x + h along coordinate i."""
    out = []
    for k in (-1, 0, 1):
        y = list(x)
        y[i] += k * h
        s = ref.solve(opt.with_values(case["a"], case["params"], y))
        if not opt.good(s):
            raise Discard()
        out.append(opt.penalty(case, s))
    return out


def settled(case, x, i, h, d1, iters):
    """The derivative of the iteration the solver stops after is that of the equilibrium it converges to.

    Positions can converge before their derivatives do (in symmetric structures with indirect deviation
    edges); automatic differentiation then yields the derivative of the iterations that were run.
    """
    worst = 0.0
    for reverse in (False, True, "nodes"):       # the order in which trails are visited
        out = []
        for k in (-1, 1):
            y = list(x)
            y[i] += k * h
            s = ref.solve(opt.with_values(case["a"], case["params"], y), fixed=iters, reverse=reverse)
            out.append(opt.penalty(case, s))
        worst = max(worst, abs((out[1] - out[0]) / (2 * h) - d1))
    return worst


def check(case, ctx):
    c = case["a"]
    l0 = build.lscale(c)
    fs = max(ref.prepare(c).fscale, 1e-9)
    ran = False
    for grad in ("AD", "FD"):
        t = build.topology(c)
        o = opt.optimizer(case, case["how"])
        opt.attempt(o, t, case, c, algorithm=case["algorithm"], grad=grad, iters=case["iters"], eps=1e-12, kappa=1e-12,
                    tmax=600, eta=3e-11 * l0, step_size=case.get("step", 1e-5))
        if opt.failed(o, case["algorithm"], case, c):
            continue
        x = opt.read_values(t, case["params"])
        g = [float(v) for v in o.gradient]
        if len(g) != len(x):
            forms.fail("the gradient has %s components, expected %s", len(g), len(x))
        nrm = sum(v * v for v in g) ** 0.5
        if not abs(float(o.gradient_norm) - nrm) <= 1e-9 * (1e-30 + nrm):
            forms.fail("the norm of the gradient is %s, expected %s", o.gradient_norm, nrm)
        s = ref.solve(opt.with_values(c, case["params"], x))
        if not opt.good(s) or ref.amplification(opt.with_values(c, case["params"], x), s) > 300:
            continue
        for i, p in enumerate(case["params"]):
            unit = l0 if p[0] in ("t", "x", "y", "z") else fs
            h = 2e-5 * unit
            if p[0] in ("t", "d") and abs(x[i]) < 10 * h:
                continue        # the sign of a length or force matters
            a, b, e = reference(case, x, i, h)
            a2, _, e2 = reference(case, x, i, 2 * h)
            d1, d2 = (e - a) / (2 * h), (e2 - a2) / (4 * h)
            curve = max(abs(e - 2 * b + a), abs(e2 - 2 * b + a2) / 4.0) / h ** 2
            total = max(b, 1e-9 * unit ** 2)
            noise = 1e-11 * max(total, opt.slack(case, s, 1e-3)) / h
            # a kink, or a third derivative that matters: the reference is no good there
            kink = abs((e - 2 * b + a) - (e2 - 2 * b + a2) / 4.0) / h
            if kink > 1e-3 * abs(d1) + 100 * noise + 1e-2 * curve * h or abs(d1 - d2) > 1e-4 * abs(d1) + 100 * noise:
                ctx.label("kink")
                continue
            if grad == "AD" and not case.get("strict"):
                k = min(ref.solve(opt.with_values(c, case["params"], x), tol=1e-10, reverse=r).iters for r in (False, True, "nodes"))
                if settled(case, x, i, h, d1, max(1, k - 1)) > 1e-5 * abs(d1) + 50 * noise:
                    ctx.label("derivative not settled")
                    continue
            tol = 1e-4 * abs(d1) + 10 * abs(d1 - d2) + 200 * noise + 1e-6 * opt.slack(case, s, 1e-2) / unit
            if grad == "FD":
                step = case.get("step", 1e-5)
                tol += 2.0 * curve * step + 4.0 * opt.slack(case, s, 1e-12 * 20) / step
                # the forward difference itself is as good, where the step is not small
                y = list(x)
                y[i] += step
                s1 = ref.solve(opt.with_values(c, case["params"], y))
                if not opt.good(s1) or y[i] * x[i] < 0.0:
                    continue
                d1 = min([d1, (opt.penalty(case, s1) - b) / step], key=lambda v: abs(v - g[i]))
                ctx.label("step %g" % step)
            if not abs(g[i] - d1) <= tol:
                forms.fail("%s: the gradient with respect to %s is %s, expected %s (tolerance %s)", grad, p[:2], g[i], d1, tol)
            ran = True
            ctx.label(grad, "parameter " + p[0])
            if abs(d1) > 10 * tol:
                ctx.nontrivial()
                ctx.label("parameter %s not zero" % p[0])
    if not ran:
        raise Discard()
    gen.classify(c, ctx)
    ctx.label(*["constraint " + k[0] for k in case["constraints"]])


KW = dict(extra=500, max_len=4, max_trails=3, max_dev=6, big=False, scales=False)
SUBS = [Sub("gradient", gen.with_dice(plan_generic, posed=False, **KW), check, quick=700, thorough=20000),
        Sub("direct", gen.with_dice(plan, max_amp=200, indirect=False, **KW), check, quick=300, thorough=8000)]
