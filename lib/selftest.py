"""The machinery agrees with a structure solved by hand, and all checks can be loaded."""
import glob
import importlib
import math
import os

from lib import build
from lib import core
from lib import ref


def main():
    # two trails of one edge each, joined by a strut: load 1 down, strut -1, 45 degrees
    case = {"nodes": [[0, [0.0, 0.0, 0.0]], [1, [1.0, 0.0, 0.0]], [2, [-1.0, -1.0, 0.0]], [3, [2.0, -1.0, 0.0]]],
            "trails": [[0, 2], [1, 3]], "supports": [2, 3], "shifts": [], "loads": [[0, [0.0, -1.0, 0.0]], [1, [0.0, -1.0, 0.0]]],
            "edges": [["t", 0, 2, -1.0, None], ["t", 1, 3, -1.0, None], ["d", 0, 1, -1.0]]}
    s = ref.solve(case)
    h = math.sqrt(0.5)
    assert ref.dist(s.pos[2], [-h, -h, 0.0]) < 1e-9 and ref.dist(s.pos[3], [1 + h, -h, 0.0]) < 1e-9
    assert abs(s.tforce[frozenset((0, 2))] + math.sqrt(2.0)) < 1e-9
    t = build.topology(case)
    assert len(list(t.nodes())) == 4
    for path in sorted(glob.glob(os.path.join(core.ROOT, "props", "c*.py"))):
        mod = importlib.import_module("props." + os.path.basename(path)[:-3])
        assert mod.SUBS and mod.RULE
    print("self test passed")
