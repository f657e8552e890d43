"""C19: an optimizer solves exactly the problem that its parameters and constraints define, whatever its history."""
import time

from compas_cem.optimization import Optimizer
from compas_cem.optimization import solve_proxy

from lib import build
from lib import forms
from lib import gen
from lib import opt
from lib.core import Sub

RULE = ("Random structures and random histories of an optimizer: parameters and constraints added and removed in any order (also "
        "all of them, also keys that do not exist), interleaved with solves of several topology diagrams. A model keeps track of "
        "what is defined; counters are compared after every step, each solve is compared with that of a fresh optimizer and with "
        "solve_proxy, and removals of absent keys, empty problems and unknown gradient methods and algorithms must raise and leave the "
        "topology diagram untouched. Non-trivial: a solve after a removal or after a previous solve.")


def plan(case, d):
    pool = opt.problem(case, d, max_params=7, max_constraints=6)
    if pool is None:
        return None
    ops = []
    np, nc = len(pool["params"]), len(pool["constraints"])
    if d.flag():        # begin with a complete problem
        ops += [["add p", i] for i in range(np)] + [["add c", i] for i in range(nc)]
    for _ in range(d.int(2, 12)):
        op = d.pick(["add p", "add c", "add p", "add c", "del p", "del c", "solve", "solve"])
        if op == "solve":
            ops.append([op, d.pick(["SLSQP", "SLSQP", "MMA", "MMA", "NONE"]), d.pick([1, 2, 4]), d.pick(["AD", "AD", "FD", "XX"]),
                        d.flag(), d.pick([1e-12, 1e-12, 1e-2]), d.pick([1e-12, 0.3, 1e-3])])
        elif op in ("add p", "del p"):
            ops.append([op, d.int(0, np - 1) if op == "add p" else d.int(-1, 9)])
            if op == "add p" and d.flag(12):
                ops[-1].append("twice")     # even if it is there already
        else:
            ops.append([op, d.int(0, nc - 1) if op == "add c" else d.int(-1, 9)])
    ops.append(["solve", "SLSQP", d.pick([1, 3]), "AD", d.flag()])
    out = dict(pool)
    out.update(a=case, ops=ops)
    return out


def outcome(o, form, t, params):
    r = build.read(form)
    if o is None:
        return None, r
    return [float(o.penalty), opt.read_values(t, params), [float(v) for v in o.x_opt], [float(v) for v in o.gradient],
            float(o.gradient_norm), int(o.evals), str(o.status)], r


def check(case, ctx):
    c = case["a"]
    o = Optimizer()
    params, cons = {}, {}       # the model: key -> definition
    np = nc = 0
    removed = solved = 0
    shared = build.topology(c)
    first = build.read(shared)
    eta = 1e-9 * build.lscale(c)
    now = {"params": [], "constraints": []}
    used = set()
    for op in case["ops"]:
        if op[0] == "add p":
            p = case["params"][op[1]]
            if "twice" not in op and str(p[:2]) in {str(q[:2]) for q in params.values()}:
                continue
            o.add_parameter(opt.make_param(p))
            params[np] = p
            np += 1
        elif op[0] == "add c":
            o.add_constraint(opt.make_constraint(case["constraints"][op[1]], op[1]))
            cons[nc] = op[1]
            nc += 1
        elif op[0] in ("del p", "del c"):
            model, remove = (params, o.remove_parameter) if op[0] == "del p" else (cons, o.remove_constraint)
            try:
                remove(op[1])
            except KeyError:
                if op[1] in model:
                    forms.fail("%s %s was rejected", *op)
            else:
                if op[1] not in model:
                    forms.fail("%s %s was accepted, but there is no such key", *op)
                del model[op[1]]
                removed += 1
        else:
            _, algorithm, iters, grad, reuse = op[:5]
            eps, kappa = op[5:] or (1e-12, 1e-12)
            if len({str(q[:2]) for q in params.values()}) < len(params):
                ctx.label("twice")
                continue        # one parameter twice: not a sensible problem
            now = {"params": list(params.values()), "constraints": [case["constraints"][i] for i in cons.values()]}
            again = [[opt.make_constraint(case["constraints"][i], i) for i in cons.values()] for _ in range(2)]
            t = shared if reuse else build.topology(c)
            if reuse and used:
                # a topology diagram that was optimized before: compare with a copy
                twin = [t.copy() for _ in range(2)]
            else:
                twin = [build.topology(c) for _ in range(2)]
            kw = dict(algorithm=algorithm, iters=iters, eps=eps, kappa=kappa, tmax=400, eta=eta)
            if grad == "XX" or algorithm == "NONE" or not params or not cons:
                before = build.read(t)
                try:
                    o.solve(t, grad=grad, **kw)
                except Exception:
                    pass
                else:
                    forms.fail("solved with algorithm %s, gradient %s, %s parameters and %s constraints", algorithm, grad, len(params),
                               len(cons))
                if vars(before) != vars(build.read(t)):
                    forms.fail("a rejected problem changed the topology diagram")
                ctx.label("rejected")
                continue
            if grad == "FD":
                kw["step_size"] = 1e-6
            begin = time.time()
            form = opt.attempt(o, t, now, c, grad=grad, **kw)
            took = time.time() - begin
            if reuse:
                used.add(1)
            fresh = Optimizer()
            for x in now["params"]:
                fresh.add_parameter(opt.make_param(x))
            for x in again[0]:
                fresh.add_constraint(x)
            form2 = opt.attempt(fresh, twin[0], now, c, grad=grad, **kw)
            if opt.failed(fresh, algorithm, now, c):
                continue
            if not 0.0 <= o.time_opt <= took:
                forms.fail("the optimization took %s s of %s s", o.time_opt, took)
            a, ra = outcome(o, form, t, now["params"])
            b, rb = outcome(fresh, form2, twin[0], now["params"])
            compare(a, b, "an optimizer with a history and a fresh one")
            forms.same(ra, rb)
            if grad == "AD":
                kw.pop("step_size", None)
                begin = time.time()
                t3, f3, objective, grad_norm, evals, duration, status = solve_proxy(
                    twin[1], again[1], [opt.make_param(x) for x in now["params"]], **kw)
                compare([float(objective), opt.read_values(t3, now["params"]), float(grad_norm), int(evals), str(status)],
                        [b[0], b[1], b[4], b[5], b[6]], "solve_proxy and an optimizer")
                forms.same(build.read(f3), rb)
                if not 0.0 <= duration <= time.time() - begin:
                    forms.fail("duration %s", duration)
            ctx.label(algorithm, grad)
            if removed or solved:
                ctx.nontrivial()
            solved += 1
        if o.number_of_parameters() != len(params) or o.number_of_constraints() != len(cons):
            forms.fail("%s parameters and %s constraints, expected %s and %s", o.number_of_parameters(), o.number_of_constraints(),
                       len(params), len(cons))
    if not used and vars(first) != vars(build.read(shared)):
        forms.fail("a topology diagram that was not optimized changed")


def near(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(a, int):
        return a == b
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9


def compare(a, b, what):
    if not near(a, b):
        forms.fail("%s differ: %s vs %s", what, a, b)


USUAL = dict(algorithm="SLSQP", grad="AD", step_size=1e-6, iters=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6, verbose=False)


def plan_defaults(case, d):
    prob = opt.problem(case, d)
    if prob is None:
        return None
    given = {"algorithm": "MMA", "grad": "FD", "step_size": d.pick([1e-3, 1e-4]), "iters": d.pick([2, 5, 12]),
             "eps": d.pick([1e-9, 1e-1]), "kappa": d.pick([1e-2, 1e-4, 1e-1]), "tmax": d.pick([400, 2, 1]),
             "eta": d.pick([1e-9, 1e-3, 1e-1]), "verbose": True}
    for x in prob["constraints"]:       # so that penalties come close to the usual threshold
        x[3] *= d.pick([1.0, 1e-4, 1e-6, 1e-3])
    prob.update(a=case, how=d.int(0, 1), given=given, omit=[name for name in USUAL if d.flag()], positional=d.flag(3),
                proxy=d.flag(3))
    return prob


def check_defaults(case, ctx):
    """What is not given takes its documented value: a call with options left out is the call with all of them given."""
    c = case["a"]
    full = dict(USUAL)
    full.update({k: v for k, v in case["given"].items() if k not in case["omit"]})
    if case["proxy"]:       # cannot be chosen
        full.update({k: USUAL[k] for k in ("grad", "step_size", "verbose")})
        if full["algorithm"] == "SLSQP":
            full["algorithm"] = "MMA"
        some = {k: v for k, v in full.items() if k in ("algorithm", "iters") or (k in ("eps", "kappa", "tmax", "eta") and k not in case["omit"])}
    else:
        some = {k: v for k, v in full.items() if k not in case["omit"]}
    o = opt.optimizer(case, case["how"])
    t = build.topology(c)

    def other():
        t2 = build.topology(c)
        if case["proxy"]:
            cons = [opt.make_constraint(x, case["how"]) for x in case["constraints"]]
            _, form, objective, norm, evals, _, status = solve_proxy(t2, cons, [opt.make_param(x) for x in case["params"]], **some)
            return [objective, norm, evals, status], form, t2
        o2 = opt.optimizer(case, case["how"])
        form = o2.solve(t2, **some)
        return [o2.penalty, o2.gradient_norm, o2.evals, o2.status], form, t2

    error = [None, None]
    try:
        form = o.solve(t, *full.values()) if case["positional"] else o.solve(t, **full)
        want = [o.penalty, o.gradient_norm, o.evals, o.status]
    except Exception as e:
        error[0] = e
    try:
        got, form2, t2 = other()
    except Exception as e:
        error[1] = e
    if [type(e).__name__ for e in error] != ["NoneType"] * 2:
        if type(error[0]) is not type(error[1]) or str(error[0]) != str(error[1]):
            forms.fail("%s fails with %r, %s with %r", full, error[0], some, error[1])
        ctx.label("failed")
        return
    for a, b in zip(want, got):
        if (a is None) != (b is None) or (a is not None and not near(a if isinstance(a, (str, int)) else float(a), b)):
            forms.fail("%s ends with %s, %s with %s", full, want, some, got)
    compare(opt.read_values(t, case["params"]), opt.read_values(t2, case["params"]), "optima")
    forms.same(build.read(form), build.read(form2))
    ctx.label(*["without " + k for k in full if k not in some])
    ctx.label("proxy" if case["proxy"] else "solve")
    ctx.nontrivial(len(some) < len(full))


SUBS = [Sub("defaults", gen.with_dice(plan_defaults, extra=600, max_len=4, max_trails=3, max_dev=5, big=False, scales=False),
            check_defaults, quick=240, thorough=6000),
        Sub("history", gen.with_dice(plan, extra=900, max_len=4, max_trails=3, max_dev=5, big=False, scales=False), check,
            quick=480, thorough=12000)]
