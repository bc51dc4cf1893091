"""C06 - geometry of Bravais lattices."""
import itertools
import re

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a Bravais lattice type with parameters in one of the accepted forms (number, list, array; integer or real); "
        "non-trivial: centred, or with more than one parameter")

NAMES3 = ["Cubic P", "Cubic F (face centered cubic)", "Cubic I (body centered cubic)", "Hexagonal P", "Rhombohedral P", "Tetragonal P",
          "Tetragonal I (body centered tetragonal)", "Orthorhombic P", "Orthorhombic C (base centered orthorhombic)",
          "Orthorhombic F (face centered orthorhombic)", "Orthorhombic I (body centered orthorhombic)", "Monoclinic P",
          "Monoclinic C (base centered monoclinic)", "Triclinic P"]
NAMES2 = ["Square P", "Rectangular P", "Rectangular I (centered rectangular)", "Hexagonal P", "Oblique P"]
SYM3 = {1: "a", 2: "a", 3: "a", 4: "a c", 5: "a alpha", 6: "a c", 7: "a c", 8: "a b c", 9: "a b c", 10: "a b c", 11: "a b c",
        12: "a b c beta", 13: "a b c beta", 14: "a b c alpha beta gamma"}
SYM2 = {1: "a", 2: "a b", 3: "a b", 4: "a", 5: "a b gamma"}


def check(ctx, c):
    r = ctx.ok("bravais_info", c)
    E, C, T = r["E"], r["C"], r["T"]
    n, i = c["dim"], c["id"]
    require(r["isl"] and r["dim"] == n and r["id"] == i, "type/dimension reported: %s %s", r["id"], r["dim"])
    require(np.array_equal(np.asarray(r["par"], float).ravel(), np.array(c["par"], float)), "parameters reported: %s", r["par"])
    want = g.conv_base(c)
    scale = max(la.norm(want[:, k]) for k in range(n))
    require(C.shape == (n, n) and np.allclose(C, want, atol=1e-9 * scale, rtol=1e-9), "conventional base %s, expected %s", C.tolist(), want.tolist())
    require(np.allclose(E.dot(T), C, atol=1e-9 * scale), "conventional base is not base times conversion matrix")
    require(np.allclose(T, np.rint(T), atol=1e-9), "conversion matrix is not integer: %s", T.tolist())
    ce = g.centering(c)
    vol = la.det(want) / (1 + len(ce))
    require(la.det(E) > 0 and abs(la.det(E) - vol) < 1e-8 * vol, "primitive cell volume %s, expected %s", la.det(E), vol)
    pts = np.hstack([want] + [want.dot(np.array(v))[:, None] for v in ce])
    k = la.inv(E).dot(pts)
    require(np.allclose(k, np.rint(k), atol=1e-7), "primitive base %s misses lattice points of %s", E.tolist(), c)
    # description
    s = r["str"]
    names, sym = (NAMES3, SYM3) if n == 3 else (NAMES2, SYM2)
    require(s.startswith("%dD Bravais Lattice - %s:" % (n, names[i - 1])), "description: %s", s)
    got = re.findall(r"([a-z]+) = ([-+0-9.e]+)", s[s.index(":"):])
    require([k for k, _ in got] == sym[i].split(), "description names %s", got)
    for (k, v), p in zip(got, c["par"]):
        require(abs(float(v) - p) <= 1e-5 * abs(p), "description says %s = %s, given %s", k, v, p)
    return bool(ce) or len(c["par"]) > 1


def case():
    ints = st.one_of(
        st.sampled_from([1, 2, 3]).flatmap(lambda i: st.integers(1, 9).map(lambda a: {"dim": 3, "id": i, "par": [a]})),
        st.sampled_from([4, 6, 7]).flatmap(lambda i: st.tuples(st.integers(1, 9), st.integers(1, 9)).map(lambda p: {"dim": 3, "id": i, "par": list(p)})),
        st.sampled_from([8, 9, 10, 11]).flatmap(lambda i: st.tuples(*[st.integers(1, 9)] * 3).map(lambda p: {"dim": 3, "id": i, "par": list(p)})),
        st.sampled_from([12, 13]).flatmap(lambda i: st.tuples(*[st.integers(1, 9)] * 3 + [st.integers(60, 120)]).map(lambda p: {"dim": 3, "id": i, "par": list(p)})),
        st.sampled_from([2, 3]).flatmap(lambda i: st.tuples(*[st.integers(1, 9)] * 2).map(lambda p: {"dim": 2, "id": i, "par": list(p)})))
    wide = st.one_of(g.bravais3(lo=0.01, hi=200.0), g.bravais2(lo=0.01, hi=200.0))
    return st.tuples(st.one_of(g.bravais(), wide, ints), st.sampled_from(["list", "array", "scalar"])).map(
        lambda t: dict(t[0], how=t[1]))


FACETS = [Facet("geometry", case(), check, 2000, 40000, examples=(
    [dict({"dim": 3, "id": i, "par": p}, how="list") for i, p in
     ((1, [2.0]), (2, [2.0]), (3, [2.0]), (4, [2.0, 3.0]), (5, [2.0, 80.0]), (5, [2.0, 100.0]), (6, [1.4, 2.0]), (7, [1.4, 2.0]), (8, [1.4, 1.5, 2.0]),
      (9, [1.4, 1.5, 2.0]), (10, [1.4, 1.5, 2.0]), (11, [1.4, 1.5, 2.0]), (12, [1.4, 1.5, 2.0, 80.0]), (13, [1.4, 1.5, 2.0, 80.0]),
      (14, [1.4, 1.5, 2.0, 80.0, 95.0, 70.0]))] + [dict({"dim": 2, "id": i, "par": p}, how="list") for i, p in
     ((1, [2.0]), (2, [2.0, 3.0]), (3, [2.0, 3.0]), (4, [2.0]), (5, [2.0, 3.0, 70.0]))]))]
