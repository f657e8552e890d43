"""C07: form finding returns a converged form or raises."""
from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random structures, convergent or not, with random iteration limits (1 to 300) and thresholds (1e-12 to 1 times "
        "the size of the structure). The reference solver tells the displacement per iteration (in six sweep orders): "
        "where it stays 1.5 times above the threshold the solvers must raise, where it falls 1.5 times below they must "
        "return, and whatever they return is in equilibrium up to the threshold. Structures whose indirect deviation edges "
        "are amplified take up to 300 iterations. Structures without any "
        "need a single iteration. Without options both solvers do as with the documented defaults, and without trails they raise. Non-trivial: an indirect deviation edge, or a single iteration.")


FACTOR = 1.5
ORDERS = (False, True, "nodes", "nodes reversed", "keys", "keys reversed")


def displacements(case, tmax, reverse):
    """Sum (and root of the sum of squares) of the node displacements in iterations 1, 2, ... (0-based) of
    the reference iteration, and diagnostics."""
    s = ref.solve(case, tmax=tmax, tol=-1.0, reverse=reverse)
    if len(s.moves) < tmax:
        return [(float("inf"), float("inf"))], s
    return s.moves[1:], s


def make(case, d):
    posed = d.int(0, 2)
    if posed:
        case = gen.well_posed(case)
        if case is None:
            return None
    else:
        # amplify the indirect deviation edges until the iteration struggles
        m = ref.prepare(case)
        case = gen.drop_planes(case)
        case = gen.damp_indirect(case, m, d.pick([1.0, 3.0, 10.0]))
    tmax = d.pick([1, 2, 3, 4, 5, 7, 10, 20, 40])
    l0 = build.lscale(case)
    eta = l0 * d.pick([1e-6, 1e-3, 1e-9, 0.1, 1.0, 1e-12, 1e-2, 1e-4, 1e-10, 1e-11])
    near = d.flag()
    if near and tmax > 1:
        # a threshold close to what the last iteration moves
        disp, _ = displacements(case, tmax, False)
        if 1e-11 * l0 < disp[-1][0] < 1e6 * l0:
            eta = disp[-1][d.int(0, 1)] * d.pick([0.64, 1.6, 0.38, 0.1])
    return {"a": case, "tmax": tmax, "eta": eta, "posed": bool(posed), "verbose": d.flag()}


def slow(case, d):
    """Structures that take many iterations, because their indirect deviation edges are strong."""
    m = ref.prepare(case)
    if all(m.k[u] == m.k[v] for u, v, _ in m.devs):
        return None
    limit = d.pick([60, 120, 250, 250])
    l0 = build.lscale(case)

    def attempt(factor):
        c = gen.damp_indirect(case, m, factor)
        ss = [ref.solve(c, tmax=limit, tol=1e-11, reverse=rev) for rev in (False, True, "nodes")]
        good = all(s.min_dev > 1e-3 * l0 and (s.converged or len(s.moves) == limit) for s in ss)
        return c, ss, good, good and all(s.converged for s in ss)

    best, hi = None, None
    lo = 1.0
    for factor in (1.0, 1.5, 2.2, 3.0, 4.0, 5.0, 7.0, 10.0):
        tried = attempt(factor)
        if tried[3]:
            best, lo = tried, factor
            continue
        hi = factor
        if tried[2] and d.flag(4):
            best = tried    # it does not converge
            hi = None
        break
    for _ in range(d.pick([0, 3, 5, 5]) if hi else 0):
        mid = 0.5 * (lo + hi)
        tried = attempt(mid)
        if tried[3]:
            best, lo = tried, mid
        else:
            hi = mid
    if best is None or min(s.iters for s in best[1]) < 12:
        return None
    case, ss = best[:2]
    top = min(s.iters for s in ss) - 2
    n = d.int(max(8, top - 20), top) if d.flag() else d.int(8, top)
    norm = d.int(0, 1)
    eta = ss[0].moves[n][norm] * d.pick([1.0, 0.64, 1.6])
    if not 1e-11 * ss[0].scale < eta < 10 * ss[0].scale:
        return None
    tmax = d.pick([n + 1, n + 1, n + 12, 2 * n + 10, 3 * n + 20, max(2, n - 12), 100, 101, 160])
    return {"a": case, "tmax": min(tmax, 300), "eta": eta, "posed": True, "verbose": False}


def check(case, ctx):
    c, tmax, eta = case["a"], case["tmax"], case["eta"]
    labels = gen.classify(c, ctx)
    t = build.topology(c)
    if tmax == 1:
        s = ref.solve(c, tmax=1, indirect=False)
        ok = case["posed"] or (s.min_res > 1e-2 and s.min_dev > 0.05 * build.lscale(c) and not s.zero_res)
        for which in ("pure", "numpy"):
            r = build.read(build.SOLVERS[which](t, tmax=1, eta=eta, verbose=case["verbose"]))
            if ok and case["posed"]:
                forms.match_reference(r, s)
                if "indirect deviation" not in labels:
                    forms.same(r, build.read(build.solve(t, which, c)))
                    forms.equilibrium(r, c, 0.0)
        ctx.label("single iteration")
        ctx.nontrivial()
        return
    must_raise = {"pure": True, "numpy": True}
    must_return = True
    for rev in ORDERS if "indirect deviation" in labels else ORDERS[:1]:
        disp, s = displacements(c, tmax, rev)
        if any(not x == x or x == float("inf") for x, _ in disp):
            must_raise, must_return = {}, False
            break
        # the NumPy solver adds up the displacements in another norm
        noise = 1e-12 * s.scale
        if not all(x > FACTOR * eta + noise for x, _ in disp):
            must_raise["pure"] = False
        if not all(x > FACTOR * eta + noise for _, x in disp):
            must_raise["numpy"] = False
        if not (case["posed"] and any(FACTOR * x + noise < eta for x, _ in disp)):
            must_return = False
    for seed in (1, 2) if must_return and "indirect deviation" in labels else ():
        # not if rounding drives the iteration away from where it would end
        disp, s = displacements(ref.perturbed(c, 1e-12, seed), tmax, False)
        must_return &= any(FACTOR * x + 1e-12 * s.scale < eta for x, _ in disp)
    for which in ("pure", "numpy"):
        try:
            form = build.SOLVERS[which](t, tmax=tmax, eta=eta, verbose=case["verbose"])
        except ValueError as e:
            if must_return:
                forms.fail("%s solver raised although it converges: %s", which, e)
            ctx.label("raised")
            continue
        if must_raise.get(which):
            forms.fail("%s solver returned a form although it has not converged in %s iterations", which, tmax)
        ctx.label("returned")
        if case["posed"]:
            r = build.read(form)
            forms.finite(r)
            forms.equilibrium(r, c, eta)
    for limit in (50, 100):
        if tmax > limit and must_raise.get("pure"):
            ctx.label("must raise after %s" % limit)
        if must_return and all(x > FACTOR * eta for x, _ in disp[:limit]):
            ctx.label("must return after %s" % limit)
    if must_raise.get("pure"):
        ctx.label("must raise")
    if must_return:
        ctx.label("must return")
    ctx.nontrivial("indirect deviation" in labels)


def outcome(f, *args, **kw):
    try:
        return repr(build.read(f(*args, **kw)).__dict__)
    except ValueError:
        return "raised"


def check_defaults(case, ctx):
    """Without options: 100 iterations and a threshold of 1e-6.  Without trails: an error."""
    c = case["a"]
    labels = gen.classify(c, ctx)
    t = build.topology(c)
    for which in ("pure", "numpy"):
        f = build.SOLVERS[which]
        usual = outcome(f, t)
        ctx.label("raised" if usual == "raised" else "returned")
        if outcome(f, t, tmax=100, eta=1e-6) != usual or outcome(f, t, tmax=100) != usual or outcome(f, t, eta=1e-6) != usual:
            forms.fail("%s solver: the defaults are not 100 iterations and 1e-6", which)
        for kw in ({"tmax": case["tmax"]}, {"eta": case["eta"]}):
            full = dict({"tmax": 100, "eta": 1e-6}, **kw)
            if outcome(f, t, **kw) != outcome(f, t, **full):
                forms.fail("%s solver with %s alone differs from %s", which, kw, full)
    if outcome(build.SOLVERS["pure"], t, None, case["tmax"], case["eta"]) != outcome(build.SOLVERS["pure"], t, tmax=case["tmax"], eta=case["eta"]) \
            or outcome(build.SOLVERS["numpy"], t, case["tmax"], case["eta"]) != outcome(build.SOLVERS["numpy"], t, tmax=case["tmax"], eta=case["eta"]):
        forms.fail("options by position differ from options by name")
    bare = build.topology(c, trails=False)
    for which in ("pure", "numpy"):
        try:
            build.SOLVERS[which](bare)
        except Exception:
            continue
        forms.fail("%s solver returned a form of a diagram without trails", which)
    ctx.nontrivial("indirect deviation" in labels)


SUBS = [Sub("random", gen.with_dice(make, extra=32, posed=False, max_trails=4, max_len=5, big=False, scales=False), check,
            quick=1600, thorough=40000),
        Sub("slow", gen.with_dice(slow, extra=16, max_trails=8, max_len=6, max_dev=12, planes=False, scales=False), check,
            quick=320, thorough=8000),
        Sub("defaults", gen.with_dice(make, extra=32, posed=False, max_trails=4, max_len=5, big=False, scales=False), check_defaults,
            quick=480, thorough=12000)]
