"""C16: the objective of an optimization is the weighted sum of squared deviations from the targets."""
from lib import build
from lib import forms
from lib import gen
from lib import opt
from lib import ref
from lib.core import Discard
from lib.core import Sub

RULE = ("Random structures, parameters of all eight kinds and 1-6 constraints of all eight kinds with random targets and "
        "weights, given as compas objects or plain lists. The reported penalty of a short optimization run is compared with "
        "the definition of each constraint, evaluated on the reference equilibrium for the parameter values left in the "
        "topology diagram. Non-trivial: two or more constraints, or a penalty above 1e-6.")


def plan(case, d):
    prob = opt.problem(case, d, max_constraints=6)
    if prob is None:
        return None
    prob.update(a=case, how=d.int(0, 1), algorithm=d.pick(opt.ALGORITHMS), iters=d.pick([1, 1, 2]), grad=d.pick(["AD", "AD", "FD"]))
    if d.flag(6):
        still(case, prob, d)
    return opt.calm(case, prob)


def still(case, prob, d):
    """Nothing can move, and some edges are (almost) perpendicular to the direction they should have."""
    state = ref.solve(case)
    for p in prob["params"]:
        p[2] = p[3] = 0.0
    for _ in range(2):
        e = d.pick(case["edges"])
        v = ref.sub(state.pos[e[2]], state.pos[e[1]])
        if ref.norm(v) < 0.02 * max(opt.gen_scale(case), 1e-9):
            continue
        v = ref.unit(v)
        u = ref.cross(v, gen.plane(d)[1])
        if ref.norm(u) < 0.1:
            continue
        u = ref.add(ref.unit(u), ref.mul(v, d.pick([1e-2, -1e-2, 5e-4, -5e-4, 0.1, -0.1])))
        prob["constraints"].append(["direction", e[1:3], u, d.pick([1.0, 3.0])])


def check(case, ctx):
    c = case["a"]
    t = build.topology(c)
    o = opt.optimizer(case, case["how"])
    opt.attempt(o, t, case, c, algorithm=case["algorithm"], grad=case["grad"], iters=case["iters"],
                eps=1e-12, kappa=1e-12, tmax=400, eta=1e-9 * build.lscale(c))
    x = opt.read_values(t, case["params"])
    if opt.failed(o, case["algorithm"], case, c):
        raise Discard()
    s = ref.solve(opt.with_values(c, case["params"], x))
    if not opt.good(s):
        raise Discard()
    want = opt.penalty(case, s)
    got = float(o.penalty)
    if not abs(got - want) <= opt.slack(case, s, 1e-6) + 1e-12 * want:
        forms.fail("the penalty is %s, expected %s", got, want)
    gen.classify(c, ctx)
    ctx.label(*["constraint " + k[0] for k in case["constraints"]])
    ctx.label(*["parameter " + k[0] for k in case["params"]])
    if all(p[2] == p[3] == 0.0 for p in case["params"]):
        ctx.label("still")
    ctx.label("lists" if case["how"] else "objects", case["algorithm"])
    ctx.nontrivial(len(case["constraints"]) > 1 or want > 1e-6)


SUBS = [Sub("penalty", gen.with_dice(plan, extra=500, singles=True, max_len=4, max_trails=4, big=False), check, quick=1200, thorough=30000)]
