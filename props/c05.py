"""C05: forms transform as the laws of statics demand."""
import math

from lib import build
from lib import forms
from lib import gen
from lib import ref
from lib.core import Sub

RULE = ("Random structures (as in C01), solved as generated and after a rigid motion or reflection, a scaling of all "
        "forces, a scaling of all lengths, and a reversal of all states (loads, deviation forces and trail lengths "
        "change sign); the second form is compared with the transformed first. Non-trivial: a deviation edge or a "
        "plane, and a transformation other than the identity.")


def mat_vec(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def rotation(axis, angle):
    x, y, z = ref.unit(axis)
    c, s = math.cos(angle), math.sin(angle)
    k = 1 - c
    return [[c + x * x * k, x * y * k - z * s, x * z * k + y * s],
            [y * x * k + z * s, c + y * y * k, y * z * k - x * s],
            [z * x * k - y * s, z * y * k + x * s, c + z * z * k]]


def transformed(case, m, shift, fs, ls, sign):
    out = dict(case)
    out["nodes"] = [[k, [ls * x + t for x, t in zip(mat_vec(m, p), shift)]] for k, p in case["nodes"]]
    out["loads"] = [[k, [sign * fs * x for x in mat_vec(m, q)]] for k, q in case["loads"]]
    edges = []
    for e in case["edges"]:
        if e[0] == "t":
            pl = e[4]
            if pl is not None:
                pl = [[ls * x + t for x, t in zip(mat_vec(m, pl[0]), shift)], mat_vec(m, pl[1])]
            edges.append(["t", e[1], e[2], sign * ls * e[3], pl])
        else:
            edges.append(["d", e[1], e[2], sign * fs * e[3]])
    out["edges"] = edges
    return out


def make(case, d):
    axis = d.vec(-3, 3)
    if ref.norm(axis) < 0.5:
        axis = [0.0, 0.0, 1.0]
    m = rotation(axis, d.pick([0.0, math.pi / 2, 1.0, math.pi, -0.3, 2.5]))
    if d.flag():
        m = [[-x for x in m[0]], m[1], m[2]]
        if d.flag():
            m = [m[1], m[0], m[2]]
    shift = d.vec(-5, 5)
    fs = d.pick([1.0, 2.0, 0.125, 7.3, 1000.0, 1e-7, 1e6])
    ls = d.pick([1.0, 2.0, 0.25, 3.7, 50.0, 1e-4, 1000.0])
    sign = d.pick([1.0, -1.0])
    which = d.int(0, 4)
    ident = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    if which == 0:
        fs, ls, sign = 1.0, 1.0, 1.0
    elif which == 1:
        m, shift, ls, sign = ident, [0.0] * 3, 1.0, 1.0
    elif which == 2:
        m, shift, fs, sign = ident, [0.0] * 3, 1.0, 1.0
    elif which == 3:
        m, shift, fs, ls, sign = ident, [0.0] * 3, 1.0, 1.0, -1.0
    unit = ls * build.lscale(case) * d.pick([1.0, 1.0, 30.0])
    shift = [unit * x for x in shift]       # as precise as the rest of the coordinates
    s = ref.solve(case)
    if s.fallbacks:
        # exact parallelism does not survive a rotation
        case = gen.drop_planes(case)
        case = gen.well_posed(case)
        if case is None:
            return None
    return {"a": case, "m": m, "shift": shift, "fs": fs, "ls": ls, "sign": sign, "which": which}


def check(case, ctx):
    a = case["a"]
    labels = gen.classify(a, ctx)
    m, shift, fs, ls, sign = case["m"], case["shift"], case["fs"], case["ls"], case["sign"]
    b = transformed(a, m, shift, fs, ls, sign)
    ctx.label(["rigid motion", "force scale", "length scale", "reversal", "combined"][case["which"]])
    ta, tb = build.topology(a), build.topology(b)
    for which in ("pure", "numpy"):
        ra = build.read(build.solve(ta, which, a))
        rb = build.read(build.solve(tb, which, b))
        forms.finite(ra)
        forms.finite(rb)
        exp = build.Result()
        exp.edges = ra.edges
        exp.supports = ra.supports
        exp.pos = {n: tuple(ls * x + t for x, t in zip(mat_vec(m, p), shift)) for n, p in ra.pos.items()}
        exp.react = {n: tuple(sign * fs * x for x in mat_vec(m, p)) for n, p in ra.react.items()}
        exp.load = {n: tuple(sign * fs * x for x in mat_vec(m, p)) for n, p in ra.load.items()}
        exp.force = {e: sign * fs * f for e, f in ra.force.items()}
        exp.length = {e: sign * ls * f for e, f in ra.length.items()}
        forms.same(exp, rb)
    ctx.nontrivial(bool(labels & {"plane", "direct deviation", "indirect deviation"})
                   and (b["nodes"] != a["nodes"] or b["loads"] != a["loads"]))


SUBS = [Sub("random", gen.with_dice(make, extra=100, singles=True, extreme=True), check, quick=3600, thorough=40000)]
