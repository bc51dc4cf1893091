"""C10 - rotations."""
import math

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("cases: axis (integer or real, any length, including the coordinate axes and directions close to them) and angle; Euler "
        "angles with one of the 27 axis orders in upper/lower case; screw order, pitch and axis; non-trivial: the rotation is not the identity")

near = st.tuples(st.sampled_from([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]),
                 st.lists(st.sampled_from([0.0, 1e-9, 1e-4, -1e-3, 0.1, -0.3, 0.5]), min_size=3, max_size=3)).map(
    lambda t: [a + b for a, b in zip(*t)])
axis = st.one_of(g.axis_int, near, st.lists(g.fl(-2, 2, 100), min_size=3, max_size=3).filter(lambda v: sum(x * x for x in v) > 1e-3))


def check_rot(ctx, c):
    r = ctx.ok("rotations", c)
    ang = math.radians(c["angle"]) if c["unit"] in (None, "deg") else c["angle"]
    want = g.rodrigues(c["axis"], ang)
    require(r["intact"], "the axis was modified")
    require(np.allclose(r["R"], want, atol=1e-9), "rotation %s about %s (%s): %s, expected %s", c["angle"], c["axis"], c["unit"], r["R"].tolist(), want.tolist())
    return abs(math.sin(ang / 2)) > 1e-6


rot_case = st.fixed_dictionaries({
    "kind": st.just("rotation"), "axis": axis, "how": st.sampled_from(["list", "array", "float", "tuple"]),
    "angle": st.one_of(g.fl(-400, 400, 4), g.fl(-7, 7, 1000), st.sampled_from([0, 90, 180, 120, 60, -90])),
    "unit": st.sampled_from([None, "deg", "rad"])})


def check_euler(ctx, c):
    r = ctx.ok("rotations", c)
    R = np.eye(3)
    ax = {"X": [1, 0, 0], "Y": [0, 1, 0], "Z": [0, 0, 1]}
    for a, o in zip(c["angles"], (c["order"] or "ZXZ").upper()):
        t = math.radians(a) if c["unit"] in (None, "deg") else a
        R = g.rodrigues(ax[o], t).dot(R)
    require(np.allclose(r["R"], R, atol=1e-9), "Euler(%s, %s, %s) = %s, expected %s", c["angles"], c["order"], c["unit"], r["R"].tolist(), R.tolist())
    return any(abs(a) > 1e-6 for a in c["angles"])


euler_case = st.fixed_dictionaries({
    "kind": st.just("euler"), "angles": st.lists(st.one_of(g.fl(-360, 360, 4), g.fl(-4, 4, 100)), min_size=3, max_size=3),
    "order": st.one_of(st.none(), st.text("XYZxyz", min_size=3, max_size=3)), "unit": st.sampled_from([None, "deg", "rad"])})


def check_skew(ctx, c):
    r = ctx.ok("rotations", c)
    T = np.array(c["T"], float)
    n, p = c["n"], c["p"]
    require(r["intact"], "the axis was modified")
    Q, t = r["R"], r["t"]
    require(np.allclose(Q, g.rodrigues(T, 2 * math.pi / n), atol=1e-9), "rotation part of the %d_%d screw along %s is %s", n, p, c["T"], Q.tolist())
    q = p if p <= n else p % n
    require(np.allclose(t, q / n * T, atol=1e-9), "translation of the %d_%d screw along %s is %s", n, p, c["T"], t.tolist())
    x = np.array([0.3, -0.7, 1.1])
    y = x.copy()
    for _ in range(n):
        y = Q.dot(y) + t
    k = (y - x).dot(T) / T.dot(T)
    require(np.allclose(y - x, round(k) * T, atol=1e-7 * (1 + abs(T).max())), "%d applications of the screw are not a lattice translation", n)
    return n > 1


skew_case = st.fixed_dictionaries({"kind": st.just("skew"), "n": st.sampled_from([1, 2, 3, 4, 6, 5]), "p": st.integers(0, 14),
                                   "T": axis, "how": st.sampled_from(["list", "array", "float"])})

FACETS = [
    Facet("axis_angle", rot_case, check_rot, 2000, 40000, examples=[
        {"kind": "rotation", "axis": [-1, 0, 0], "how": "list", "angle": 90, "unit": None},
        {"kind": "rotation", "axis": [1, 0, 0], "how": "array", "angle": 30, "unit": "deg"}]),
    Facet("euler", euler_case, check_euler, 1500, 30000),
    Facet("screw", skew_case, check_skew, 800, 16000),
]
