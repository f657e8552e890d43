"""Optimization problems: generation, construction through the public API, reference objective.

A problem is plain JSON next to a topology case:

  params       [[kind, key, bound low | None, bound up | None], ...]   kind: t d x y z qx qy qz
  constraints  [[kind, key, target, weight], ...]   kind: see CONSTRAINTS
"""
import copy

import nlopt
from compas.geometry import Line
from compas.geometry import Plane
from compas.geometry import Point
from compas.geometry import Polyline
from compas.geometry import Vector
from compas_cem.optimization import DeviationEdgeLengthConstraint
from compas_cem.optimization import DeviationEdgeParameter
from compas_cem.optimization import EdgeDirectionConstraint
from compas_cem.optimization import LineConstraint
from compas_cem.optimization import NodeLoadXParameter
from compas_cem.optimization import NodeLoadYParameter
from compas_cem.optimization import NodeLoadZParameter
from compas_cem.optimization import Optimizer
from compas_cem.optimization import OriginNodeXParameter
from compas_cem.optimization import OriginNodeYParameter
from compas_cem.optimization import OriginNodeZParameter
from compas_cem.optimization import PlaneConstraint
from compas_cem.optimization import PointConstraint
from compas_cem.optimization import PolylineConstraint
from compas_cem.optimization import ReactionForceConstraint
from compas_cem.optimization import TrailEdgeForceConstraint
from compas_cem.optimization import TrailEdgeParameter

from lib import gen
from lib import ref
from lib.core import Discard

PARAMETERS = {"t": TrailEdgeParameter, "d": DeviationEdgeParameter, "x": OriginNodeXParameter,
              "y": OriginNodeYParameter, "z": OriginNodeZParameter, "qx": NodeLoadXParameter,
              "qy": NodeLoadYParameter, "qz": NodeLoadZParameter}
ATTR = {"t": "length", "d": "force"}
AXIS = {"x": 0, "y": 1, "z": 2, "qx": 0, "qy": 1, "qz": 2}
CONSTRAINTS = ["point", "plane", "line", "polyline", "force", "reaction", "length", "direction"]
ALGORITHMS = ["SLSQP", "LBFGS", "MMA", "TNEWTON", "VAR", "AUGLAG"]


def problem(case, d, max_params=5, max_constraints=4, unbounded=True):
    """Random parameters and constraints for a case; None if there is nothing to choose from."""
    s = ref.solve(case)
    sc = max(gen_scale(case), 1e-9)
    fs = max(s.model.fscale, 1e-9)
    pool = []
    tedges = [e for e in case["edges"] if e[0] == "t"]
    dedges = [e for e in case["edges"] if e[0] == "d"]
    origins = [t[0] for t in case["trails"]]
    keys = [k for k, _ in case["nodes"]]
    params, seen = [], set()
    for _ in range(d.int(1, max_params)):
        kind = d.pick(["d", "t", "d", "t", "x", "y", "z", "qx", "qy", "qz"])
        if kind == "t":
            key = d.pick(tedges)[1:3]
        elif kind == "d":
            if not dedges:
                continue
            key = d.pick(dedges)[1:3]
        elif kind in ("x", "y", "z"):
            key = d.pick(origins)
        else:
            key = d.pick(keys)
        if str([kind, key]) in seen:
            continue
        seen.add(str([kind, key]))
        unit = {"t": sc, "d": fs, "x": sc, "y": sc, "z": sc}.get(kind, fs)
        bounds = []
        for _ in range(2):
            if unbounded and d.flag(6):
                bounds.append(None)
            else:
                b = unit * d.pick([0.2, 0.05, 0.1, 0.3, 0.0])
                bounds.append(-b if d.flag(4) else b)
        params.append([kind, key] + bounds)
    if not params:
        return None
    cons = []
    for _ in range(d.int(1, max_constraints)):
        kind = d.pick(CONSTRAINTS)
        w = d.pick([1.0, 0.5, 2.0, 10.0, 0.02, 150.0]) if not d.flag() else d.uniform(0.1, 5.0)
        if d.flag(16):
            w = 0.0
        n = d.pick(keys)
        off = [d.real(-2, 2) * 0.4 * sc for _ in range(3)]
        near = [x + y for x, y in zip(s.pos[n], off)]
        zero = d.flag(12)
        if zero and ref.norm(s.pos[n]) < 3 * sc:
            near = [0.0, 0.0, 0.0]
        if kind == "point":
            cons.append([kind, n, near, w])
        elif kind == "plane":
            cons.append([kind, n, [near, gen.plane(d)[1]], w])
        elif kind == "line":
            v = gen.plane(d)[1]
            cons.append([kind, n, [near, [x + sc * y for x, y in zip(near, v)]], w])
        elif kind == "polyline":
            pts = [near]
            for _ in range(d.int(1, 4) if not d.flag(8) else 12):
                v = [d.real(-2, 2) * sc for _ in range(3)]
                if ref.norm(v) < 0.2 * sc:
                    v = [0.0, 0.7 * sc, 0.2 * sc]
                pts.append([x + y for x, y in zip(pts[-1], v)])
            if len(pts) > 2 and d.flag(6):
                pts.append(list(pts[0]))      # closed
            cons.append([kind, n, pts, w])
        elif kind == "force":
            e = d.pick(tedges)
            f = s.tforce[frozenset(e[1:3])]
            cons.append([kind, e[1:3], f + fs * d.real(-2, 2) if not zero else 0.0, w])
        elif kind == "reaction":
            n = d.pick(case["supports"])
            cons.append([kind, n, [x + fs * d.real(-2, 2) if not zero else 0.0 for x in s.react[n]], w])
        elif kind == "length":
            if not dedges:
                continue
            e = d.pick(dedges)
            cons.append([kind, e[1:3], ref.dist(s.pos[e[1]], s.pos[e[2]]) * d.pick([1.0, 0.8, 1.3, 0.1]), w])
        else:
            e = d.pick(case["edges"])
            v = gen.plane(d)[1]
            if ref.dist(s.pos[e[1]], s.pos[e[2]]) < 0.02 * sc:
                continue
            cons.append([kind, e[1:3], [2.0 * x for x in v], w])
    if not cons:
        return None
    return {"params": params, "constraints": cons}


def gen_scale(case):
    return max([abs(e[3]) for e in case["edges"] if e[0] == "t"] + [0.0])


def make_param(p):
    kind, key, lo, up = p
    return PARAMETERS[kind](tuple(key) if isinstance(key, list) else key, lo, up)


def make_constraint(c, how=0):
    kind, key, t, w = c
    key = tuple(key) if isinstance(key, list) else key
    raw = how % 2 == 1      # plain lists instead of compas objects
    w = [] if w == 1.0 else [w]     # the default
    if kind == "point":
        return PointConstraint(key, list(t) if raw else Point(*t), *w)
    if kind == "plane":
        return PlaneConstraint(key, (list(t[0]), list(t[1])) if raw else Plane(t[0], t[1]), *w)
    if kind == "line":
        return LineConstraint(key, (list(t[0]), list(t[1])) if raw else Line(t[0], t[1]), *w)
    if kind == "polyline":
        return PolylineConstraint(key, [list(x) for x in t] if raw else Polyline(t), *w)
    if kind == "force":
        return TrailEdgeForceConstraint(key, t, *w)
    if kind == "reaction":
        return ReactionForceConstraint(key, list(t) if raw else Vector(*t), *w)
    if kind == "length":
        return DeviationEdgeLengthConstraint(key, t, *w)
    return EdgeDirectionConstraint(key, list(t) if raw else Vector(*t), *w)


def optimizer(prob, how=0):
    opt = Optimizer()
    for p in prob["params"]:
        opt.add_parameter(make_param(p))
    for c in prob["constraints"]:
        opt.add_constraint(make_constraint(c, how))
    return opt


# ---------------------------------------------------------------------------------------
# reference
# ---------------------------------------------------------------------------------------


def values(case, params):
    """The value of each parameter in a case."""
    xyz = {k: p for k, p in case["nodes"]}
    loads = {k: q for k, q in case["loads"]}
    out = []
    for kind, key, _, _ in params:
        if kind in ("t", "d"):
            out.append([e[3] for e in case["edges"] if e[0] == kind and list(e[1:3]) == list(key)][0])
        elif kind in ("x", "y", "z"):
            out.append(xyz[key][AXIS[kind]])
        else:
            out.append(loads.get(key, [0.0, 0.0, 0.0])[AXIS[kind]])
    return out


def with_values(case, params, x):
    out = copy.deepcopy(case)
    for (kind, key, _, _), v in zip(params, x):
        v = float(v)
        if kind in ("t", "d"):
            for e in out["edges"]:
                if e[0] == kind and list(e[1:3]) == list(key):
                    e[3] = v
        elif kind in ("x", "y", "z"):
            for n in out["nodes"]:
                if n[0] == key:
                    n[1][AXIS[kind]] = v
        else:
            for n in out["loads"]:
                if n[0] == key:
                    n[1][AXIS[kind]] = v
                    break
            else:
                q = [0.0, 0.0, 0.0]
                q[AXIS[kind]] = v
                out["loads"].append([key, q])
    return out


def read_values(t, params):
    """The value of each parameter in a topology diagram."""
    out = []
    for kind, key, _, _ in params:
        if kind == "t":
            out.append(float(t.edge_length_2(tuple(key))))
        elif kind == "d":
            out.append(float(t.edge_force(tuple(key))))
        elif kind in ("x", "y", "z"):
            out.append(float(t.node_coordinates(key)[AXIS[kind]]))
        else:
            out.append(float(t.node_load(key)[AXIS[kind]]))
    return out


def seg_dist2(p, a, b):
    d = ref.sub(b, a)
    n2 = ref.dot(d, d)
    t = ref.dot(ref.sub(p, a), d) / n2 if n2 > 0 else 0.0
    t = min(1.0, max(0.0, t))
    q = ref.add(a, ref.mul(d, t))
    return ref.dot(ref.sub(p, q), ref.sub(p, q))


def term(c, s):
    kind, key, t, w = c
    if kind == "point":
        return w * ref.dist(s.pos[key], t) ** 2
    if kind == "plane":
        return w * ref.dot(ref.sub(s.pos[key], t[0]), ref.unit(t[1])) ** 2
    if kind == "line":
        v = ref.sub(s.pos[key], t[0])
        return w * ref.norm(ref.cross(v, ref.unit(ref.sub(t[1], t[0])))) ** 2
    if kind == "polyline":
        return w * min(seg_dist2(s.pos[key], a, b) for a, b in zip(t, t[1:]))
    if kind == "force":
        return w * (s.tforce[frozenset(key)] - t) ** 2
    if kind == "reaction":
        return w * ref.dist(s.react[key], t) ** 2
    if kind == "length":
        return w * (ref.dist(s.pos[key[0]], s.pos[key[1]]) - t) ** 2
    u = ref.unit(ref.sub(s.pos[key[1]], s.pos[key[0]]))
    v = ref.unit(t)
    return w * min(ref.dist(u, v), ref.dist(u, ref.mul(v, -1.0))) ** 2


def penalty(prob, s):
    return sum(term(c, s) for c in prob["constraints"])


def slack(prob, s, rel):
    """How much the penalty can change if positions and forces are off by ``rel`` (relative)."""
    sc, fs = s.scale, max(s.model.fscale, max([abs(f) for f in s.tforce.values()] + [0.0]), 1e-12)
    out = 0.0
    for c in prob["constraints"]:
        kind, key, _, w = c
        if kind in ("force", "reaction"):
            d = fs * rel
        elif kind == "direction":
            d = 2.0 * s.scale * rel / max(ref.dist(s.pos[key[0]], s.pos[key[1]]), 1e-9)
        else:
            d = sc * rel
        v = term(c, s)
        out += w * (2.0 * d * (v / w) ** 0.5 + d * d) + 1e-12 * v if w else 0.0
    return out


def solvable(case):
    """The reference state is well-defined, and found whatever the order in which trails are visited."""
    return all(good(ref.solve(case, reverse=r)) for r in (False, True, "nodes"))


def good(s, max_iters=80):
    """The reference state is well-defined."""
    return (s.converged and s.iters < max_iters and not s.zero_res and not s.warn_ambiguous
            and s.min_res > 1e-3 and s.min_dev > 1e-3 and s.min_cos > 0.01)


def has_indirect(case):
    m = ref.prepare(case)
    return any(m.k[u] != m.k[v] for u, v, _ in m.devs)


def calm(case, prob):
    """nlopt's LBFGS keeps calling an objective that has failed, with the error pending: run it for
    longer than one evaluation only where form finding cannot fail."""
    if prob["algorithm"] == "LBFGS" and has_indirect(case):
        prob["iters"] = 1
    return prob


def failed(o, algorithm, prob, case):
    """The solver gave up ("nlopt failure"), and nothing was reported.  SLSQP and MMA only do for badly scaled problems."""
    blank = [getattr(o, name) is None for name in ("penalty", "x_opt", "status", "evals", "time_opt", "gradient_norm")]
    if not any(blank):
        return False
    if not all(blank):
        raise AssertionError("the optimizer reports only a part: penalty %s, optimum %s, status %s, evaluations %s, time %s, norm %s" % (
            o.penalty, o.x_opt, o.status, o.evals, o.time_opt, o.gradient_norm))
    if algorithm in ("SLSQP", "MMA") and penalty(prob, ref.solve(case)) < 1e4 and ref.prepare(case).fscale > 1e-4:
        raise AssertionError("%s gave up" % algorithm)
    return True


def attempt(o, t, prob, case, **kw):
    """Run the optimizer.  A structure that cannot be solved on the way (the reference agrees)
    puts the case out of the domain; any other error is passed on."""
    try:
        return o.solve(t, **kw)
    except nlopt.ForcedStop:
        # the nlopt bindings lose the error raised by the objective in some of their algorithms
        if not has_indirect(case):
            raise
        raise Discard()
    except ValueError as e:
        if "residual" not in str(e).lower() and "iters" not in str(e).lower():
            raise
        x = read_values(t, prob["params"])
        s = ref.solve(with_values(case, prob["params"], x))
        if not solvable(with_values(case, prob["params"], x)) or kw["eta"] < 1e-12 * s.scale:
            raise Discard()
        if kw.get("grad") == "FD":
            # it may have failed at one of the points of the finite differences
            for i in range(len(x)):
                y = list(x)
                y[i] += kw.get("step_size", 1e-6)
                if not solvable(with_values(case, prob["params"], y)):
                    raise Discard()
        raise
