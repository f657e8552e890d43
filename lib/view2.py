"""Stand-ins for compas_view2, which is not installed: they record what is added to a viewer."""
import importlib
import sys

from lib.rhino import module


class Object(object):
    kinds = {}

    @staticmethod
    def register(item, kind):
        Object.kinds[item] = kind

    def __init__(self, data, **kwargs):
        self._data = data
        self.options = kwargs


class NetworkObject(Object):
    def __init__(self, network, show_points=True, show_lines=True, pointsize=None, **kwargs):
        super(NetworkObject, self).__init__(network, **kwargs)
        self.show_points = show_points
        self.show_lines = show_lines
        self.pointsize = pointsize


class Text(object):
    def __init__(self, text, position, height=50):
        self.text, self.position, self.height = text, position, height


class Arrow(object):
    def __init__(self, position=None, direction=None, head_portion=0.3, head_width=0.1, body_width=0.02):
        self.position, self.direction = position, direction


class Collection(object):
    def __init__(self, items):
        self.items = list(items)


class App(object):
    def __init__(self, *args, **kwargs):
        self.added = []
        self.objects = []

    def add(self, data, **kwargs):
        kind = Object.kinds.get(type(data))
        if kind is not None:
            obj = kind(data, **kwargs)
            self.objects.append(obj)
            return obj
        self.added.append((data, kwargs))
        return data


def install():
    parts = {"objects": module("compas_view2.objects", Object=Object, NetworkObject=NetworkObject),
             "shapes": module("compas_view2.shapes", Text=Text, Arrow=Arrow),
             "collections": module("compas_view2.collections", Collection=Collection),
             "app": module("compas_view2.app", App=App)}
    module("compas_view2", **parts)
    for name in [n for n in sys.modules if n.startswith("compas_cem.viewers")]:
        del sys.modules[name]
    return importlib.import_module("compas_cem.viewers")
