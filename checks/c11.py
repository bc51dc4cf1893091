"""C11 - stereographic projection."""
import math

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a zone axis and 1-6 poles (integer or real, both hemispheres, equator, the pole itself); non-trivial: some pole "
        "is neither along the zone axis nor within 1.5 degrees of it")


def frame(z):
    z = np.array(z, float)
    if z[0] ** 2 + z[1] ** 2 > 1e-6:
        z1 = np.array([z[1], -z[0], 0.0])
        z1 /= la.norm(z1)
        z2 = np.cross(z, z1)
        return z1, z2 / la.norm(z2)
    return np.array([1.0, 0, 0]), np.array([0, 1.0, 0])


def oracle(p, z):
    """-> (point, tolerance) or None when too close to the pole"""
    z = np.array(z, float)
    p = np.array(p, float)
    R = la.norm(z)
    zh = z / R
    ph = p / la.norm(p)
    if ph.dot(zh) < 0:
        ph = ph - 2 * zh * ph.dot(zh)
    c = min(1.0, ph.dot(zh))
    s = la.norm(np.cross(ph, zh))
    if s < 1e-9:
        return np.zeros(2), 1e-9
    if s < 0.026:
        return None
    rad = R * math.tan(math.acos(c) / 2)
    z1, z2 = frame(z)
    d = np.array([ph.dot(z1), ph.dot(z2)]) / s
    return rad * d, rad * (6e-7 / s ** 2) + 1e-8 * R


def check(ctx, c):
    r = ctx.ok("stereo", c)
    fig = np.asarray(r["fig"])
    require(fig.shape == (len(c["ps"]), 2), "pole figure of %d poles has shape %s", len(c["ps"]), fig.shape)
    good = False
    for k, p in enumerate(c["ps"]):
        w = oracle(p, c["z"])
        a = np.asarray(r["each"][k], float)
        require(a.shape == (2,), "projection has shape %s", a.shape)
        require(np.allclose(fig[k], a, atol=1e-12), "pole figure and projection differ for pole %s", p)
        if w is None:
            require(la.norm(a) < 0.05 * la.norm(c["z"]), "pole %s close to the zone axis %s projected to %s", p, c["z"], a.tolist())
            continue
        require(np.abs(a - w[0]).max() <= w[1], "pole %s, zone axis %s: projected to %s, expected %s", p, c["z"], a.tolist(), w[0].tolist())
        good = good or la.norm(w[0]) > 0
    s = np.asarray(r["single"])
    require(s.shape == (1, 2) and np.allclose(s[0], fig[0], atol=1e-12), "pole figure of a single pole")
    return good


zone = st.one_of(g.axis_int, st.sampled_from([[0, 0, 1], [0, 0, -1], [0, 0, 3], [1, 1, 1], [1, 0, 0]]),
                 st.lists(g.fl(-3, 3, 100), min_size=3, max_size=3).filter(lambda v: sum(x * x for x in v) > 0.04 and (v[0] ** 2 + v[1] ** 2 > 1e-3 or v[0] == v[1] == 0)))
pole = st.one_of(g.axis_int, g.axis_int, st.lists(g.fl(-3, 3, 100), min_size=3, max_size=3).filter(lambda v: sum(x * x for x in v) > 0.04))


def case():
    return zone.flatmap(lambda z: st.fixed_dictionaries({
        "z": st.just(z), "how": st.sampled_from(["list", "array"]),
        "ps": st.lists(st.one_of(pole, st.just(z), st.just([-x for x in z]), pole), min_size=1, max_size=6)}))


def check_scale(ctx, c):
    a = ctx.ok("stereo", {"z": c["z"], "how": "list", "ps": [c["p"]]})["each"][0]
    b = ctx.ok("stereo", {"z": c["z"], "how": "list", "ps": [[x * c["k"] for x in c["p"]]]})["each"][0]
    # mirror image
    z = np.array(c["z"], float)
    zh = z / la.norm(z)
    p = np.array(c["p"], float)
    m = ctx.ok("stereo", {"z": c["z"], "how": "list", "ps": [(p - 2 * zh * zh.dot(p)).tolist()]})["each"][0]
    w = oracle(c["p"], c["z"])
    if w is None:
        return None
    require(np.allclose(a, b, atol=1e-8 * la.norm(z) + w[1]), "scaling the pole %s by %s moves its projection from %s to %s", c["p"], c["k"], a.tolist(), b.tolist())
    require(np.allclose(a, m, atol=1e-8 * la.norm(z) + w[1]), "the mirror image of pole %s is projected to %s instead of %s", c["p"], m.tolist(), a.tolist())
    return True


FACETS = [
    Facet("projection", case(), check, 1500, 30000),
    Facet("invariance", st.fixed_dictionaries({"z": zone, "p": pole, "k": st.sampled_from([0.5, 2, 3.7, 10, 1e-4, 1e-7, 1e-10, 1e7])}), check_scale, 500, 10000),
]
