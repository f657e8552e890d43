"""Stand-ins for Rhino and Grasshopper, to run the Grasshopper components of /repo outside of them.

Only what comes with Rhino and with the packages that need it is replaced: its geometry, its drawing
functions, the sticky dictionary, and the remote procedure call (which passes all data through JSON,
like the real one, but runs in this process).
"""
import importlib
import importlib.util
import json
import os
import sys
import types

import compas
from compas.geometry import Line
from compas.geometry import Plane
from compas.geometry import Point
from compas.geometry import Polyline
from compas.geometry import Vector
from compas.utilities import DataDecoder
from compas.utilities import DataEncoder

from lib import boot

HOME = os.path.join(boot.SRC, "compas_cem", "ghpython", "components")


# what Rhino hands over: opaque, always true
class Geo(object):
    def __init__(self, *data):
        self.data = data


class Point3d(Geo):
    pass


class Vector3d(Geo):
    pass


class Line3d(Geo):
    pass


class Plane3d(Geo):
    pass


class Polyline3d(Geo):
    pass


def _wrapper(name, kind, convert):
    class Wrapper(object):
        @classmethod
        def from_geometry(cls, geometry):
            if not isinstance(geometry, kind):
                raise TypeError("%s cannot take a %s" % (name, type(geometry).__name__))
            w = cls()
            w.geometry = geometry
            return w

        def to_compas(self):
            return convert(self.geometry.data)
    Wrapper.__name__ = name
    return Wrapper


WRAPPERS = {
    "RhinoPoint": _wrapper("RhinoPoint", Point3d, lambda d: Point(*d)),
    "RhinoVector": _wrapper("RhinoVector", Vector3d, lambda d: Vector(*d)),
    "RhinoLine": _wrapper("RhinoLine", Line3d, lambda d: Line(Point(*d[0]), Point(*d[1]))),
    "RhinoPlane": _wrapper("RhinoPlane", Plane3d, lambda d: Plane(Point(*d[0]), Vector(*d[1]))),
    "RhinoPolyline": _wrapper("RhinoPolyline", Polyline3d, lambda d: Polyline([Point(*p) for p in d])),
}

STICKY = {}


class Proxy(object):
    """The remote procedure call of compas, in this process."""
    log = []

    def __init__(self, package=None, port=1753, **kwargs):
        self.package = package
        self.port = port
        Proxy.log.append(("start", package, port))

    def stop_server(self):
        Proxy.log.append(("stop", self.port))

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        function = getattr(importlib.import_module(self.package), name)

        def call(*args, **kwargs):
            sent = json.loads(json.dumps({"args": args, "kwargs": kwargs}, cls=DataEncoder), cls=DataDecoder)
            result = function(*sent["args"], **sent["kwargs"])
            return json.loads(json.dumps({"data": result}, cls=DataEncoder), cls=DataDecoder)["data"]
        return call


def _tuple(p):
    return tuple(float(x) for x in p)


def draw_points(points):
    return [_tuple(p["pos"]) for p in points]


def draw_lines(lines):
    return [(_tuple(x["start"]), _tuple(x["end"])) for x in lines]


def draw_polylines(polylines):
    return [tuple(_tuple(p) for p in x["points"]) for x in polylines]


class NetworkArtist(object):
    def __init__(self, network, **kwargs):
        self.network = network


def module(name, **content):
    m = types.ModuleType(name)
    m.__dict__.update(content)
    m.__path__ = []
    sys.modules[name] = m
    return m


def install():
    class component(object):
        pass

    base = module("ghpythonlib.componentbase", executingcomponent=component)
    module("ghpythonlib", componentbase=base)
    module("rhinoscriptsyntax", CreateColor=lambda c: tuple(c), AddPoint=lambda *p: _tuple(p if len(p) == 3 else p[0]))
    module("scriptcontext", sticky=STICKY)
    module("compas_bootstrapper", ENVIRONMENT_NAME="verif")
    geometry = module("compas_rhino.geometry", **WRAPPERS)
    conversions = module("compas_rhino.conversions", **WRAPPERS)
    module("compas_rhino", geometry=geometry, conversions=conversions)
    artists = module("compas_ghpython.artists", NetworkArtist=NetworkArtist)
    drawing = dict(draw_points=draw_points, draw_lines=draw_lines, draw_polylines=draw_polylines)
    utilities = module("compas_ghpython.utilities", **drawing)
    module("compas_ghpython", artists=artists, utilities=utilities, **drawing)
    import compas.rpc
    compas.rpc.Proxy = Proxy
    keep = compas.is_grasshopper
    compas.is_grasshopper = lambda: True
    try:
        for name in [n for n in sys.modules if n.startswith("compas_cem.ghpython")]:
            del sys.modules[name]
        importlib.import_module("compas_cem.ghpython")
    finally:
        compas.is_grasshopper = keep


_cache = {}


def run(name, **inputs):
    """Run a component with named inputs, as Grasshopper does: the inputs that its metadata lists, by position,
    None (or an empty list) where nothing is connected.  Returns {name of the output: value}, or None."""
    if name not in _cache:
        folder = os.path.join(HOME, "CompasCem_" + name)
        with open(os.path.join(folder, "metadata.json")) as f:
            meta = json.load(f)["ghpython"]
        spec = importlib.util.spec_from_file_location("gh_" + name, os.path.join(folder, "code.py"))
        code = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(code)
        base = sys.modules["ghpythonlib.componentbase"].executingcomponent
        kinds = [c for c in vars(code).values() if isinstance(c, type) and issubclass(c, base) and c is not base]
        _cache[name] = (meta, kinds[0])
    meta, kind = _cache[name]
    names = [p["name"] for p in meta.get("inputParameters", [])]
    lists = {p["name"] for p in meta.get("inputParameters", []) if p.get("scriptParamAccess") == "list"}
    unknown = set(inputs) - set(names)
    if unknown:
        raise TypeError("%s has no inputs %s" % (name, sorted(unknown)))
    args = []
    for n in names:
        v = inputs.get(n)
        if n in lists and v is None:
            v = []
        args.append(v)
    out = kind().RunScript(*args)
    outputs = [p["name"] for p in meta.get("outputParameters", [])]
    if out is None:
        return None
    if len(outputs) == 1:
        return out
    if len(out) != len(outputs):
        raise ValueError("%s returns %d values for the outputs %s" % (name, len(out), outputs))
    return dict(zip(outputs, out))
