"""C15: constraints and parameters survive serialization and copies, with the same effect on an optimization."""
import copy
import re

from compas.data import json_dumps
from compas.data import json_loads

from lib import build
from lib import forms
from lib import gen
from lib import opt
from lib.core import Sub
from props.c14 import WAYS
from props.c14 import send

RULE = ("Random structures with 1-5 parameters of all eight kinds and 1-6 constraints of all eight kinds (targets as compas "
        "objects or numbers, random weights and bounds, also none), each sent through 1-3 random round trips out of JSON file, "
        "JSON string, data dictionary, copy, deepcopy and pickle, or together with the topology diagram through one JSON string. "
        "Oracle: class, key, weight, start value, bounds and attribute are as before, and an optimization with the results gives "
        "exactly the same optimum, penalty, gradient and form as one with the originals, also when the targets of the originals "
        "are changed later. Non-trivial: two or more constraints and parameters in total that are not of the same kind.")


def plan(case, d):
    prob = opt.problem(case, d, max_params=5, max_constraints=6)
    if prob is None:
        return None
    for c in prob["constraints"]:
        if d.flag(4):
            c[3] = d.pick([1, 3, 1e-3, 12345.678901234567])
        if c[0] in ("force", "length") and d.flag(4):
            c[2] = d.pick([1, 0, -2, 1e-7, -123.456789012345678])
    for p in prob["params"]:
        if d.flag(5):
            p[2] = d.pick([1, 0, 0.1 + 0.2])
    prob.update(a=case, algorithm=d.pick(["SLSQP", "MMA"]), iters=d.pick([1, 2, 3]),
                ways=[[d.pick(WAYS) for _ in range(d.int(1, 3))] for _ in range(len(prob["params"]) + len(prob["constraints"]))],
                together=d.flag(3))
    return opt.calm(case, prob)


def shown(x):
    """The bounds that a parameter shows, as they were given."""
    return [None if v == "None" else float(v) for v in re.findall(r"bound_\w+=([-+.\w]+)", repr(x))]


def facts(x, t):
    out = [type(x).__name__, x.key(), type(x.key()).__name__]
    if hasattr(x, "weight"):
        out.append(float(x.weight))
    else:
        out.extend([x.attr_name(), float(x.start_value(t)), float(x.bound_low(t)), float(x.bound_up(t))])
        out.append(shown(x))
    return out


def solve(t, cons, params, prob, case):
    o = opt.Optimizer()
    for c in cons:
        o.add_constraint(c)
    for p in params:
        o.add_parameter(p)
    form = opt.attempt(o, t, prob, case, algorithm=prob["algorithm"], iters=prob["iters"], eps=1e-12, kappa=1e-12, tmax=400,
                       eta=1e-9 * build.lscale(case))
    r = build.read(form)
    g = None if o.penalty is None else [float(v) for v in o.gradient]
    return [None if o.penalty is None else float(o.penalty), opt.read_values(t, prob["params"]), g], r


def spoil(c):
    """Change the target of a constraint in place."""
    target = c._target if hasattr(c, "_target") else None
    try:
        if hasattr(target, "x"):
            target.x += 3.0
        elif hasattr(target, "point"):
            target.point.x += 3.0
        elif hasattr(target, "start"):
            target.start.x += 3.0
        elif hasattr(target, "points"):
            target.points[0].x += 3.0
    except Exception:
        pass


def check(case, ctx):
    c = case["a"]
    t = build.topology(c)
    cons = [opt.make_constraint(x) for x in case["constraints"]]
    params = [opt.make_param(x) for x in case["params"]]
    originals = cons + params
    before = [facts(x, t) for x in originals]
    if case["together"]:
        back = json_loads(json_dumps({"topology": t, "things": originals, "count": len(originals)}))
        results, t2 = back["things"], back["topology"]
        ctx.label("together")
    else:
        t2 = build.topology(c)
        results = []
        for x, ways in zip(originals, case["ways"]):
            for way in ways:
                ctx.label(way)
                x = send(x, way)
            results.append(x)
    for x, y, b in zip(originals, results, before):
        got = facts(y, t)
        if got != b:
            forms.fail("%s became %s", b, got)
        if facts(x, t) != b:
            forms.fail("%s changed to %s by a round trip", b, facts(x, t))
    n = len(cons)
    first, r1 = solve(t, cons, params, case, c)
    for x, ways in zip(cons, case["ways"]):
        if case["together"] or ways != ["data"]:
            spoil(x)
    second, r2 = solve(t2, results[:n], results[n:], case, c)
    for name, a, b in zip(("penalty", "optimum", "gradient"), first, second):
        if not near(a, b):
            forms.fail("the %s was %s, after the round trip it is %s", name, a, b)
    forms.same(r1, r2)
    kinds = {x[0] for x in case["constraints"]} | {x[0] for x in case["params"]}
    ctx.label(*["kind " + k for k in kinds])
    ctx.nontrivial(len(kinds) > 1)


def near(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9


SUBS = [Sub("round_trip", gen.with_dice(plan, extra=700, max_len=4, max_trails=3, max_dev=5, big=False, scales=False), check,
            quick=600, thorough=20000)]
