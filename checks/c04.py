"""C04 - point groups and Laue groups."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a Bravais lattice (type, parameters), optionally with a random change of basis and a cubic/hexagonal "
        "reorientation, or a generic lattice; the oracle enumerates all automorphisms of the Gram matrix; non-trivial: "
        "the symmetry group is larger than {I, -I} or the basis was changed")


def oracle(E):
    """list of all symmetries, or None when a symmetry is nearly but not exactly there"""
    a = g.automorphisms(E, 1e-8)
    b = g.automorphisms(E, 2e-3)
    return a if len(a) == len(b) else None


def std(dim):
    return (g.SQUARE_ALL, g.HEX2_ALL) if dim == 2 else (g.CUBIC_ROT, g.HEX_ROT)


def basis(c):
    if "brav" in c:
        E = g.prim_base(c["brav"])
    else:
        E = np.array(c["E"])
    n = len(E)
    if c.get("turn") is not None:
        rots = g.SQUARE_ALL if n == 2 else g.CUBIC_ROT
        if "brav" in c and c["brav"]["id"] == 4:
            rots = g.HEX2_ALL if n == 2 else g.HEX_ROT
        E = np.array(rots[c["turn"] % len(rots)]).dot(E)
    if c.get("ops"):
        E = E.dot(np.array(g.unimodular(n, c["ops"])))
    return E


def lat_arg(c):
    if "brav" in c and not c.get("ops") and c.get("turn") is None:
        return {"brav": c["brav"]}
    return {"E": basis(c).tolist()}


def check(ctx, c):
    E = basis(c)
    n = len(E)
    r = ctx.ok("groups", lat_arg(c))
    laue, point = r["laue"], r["point"]
    require(r["is_group"], "not MatrixGroup objects")
    require(r["dim"] == n, "dimension %s", r["dim"])
    for name, G, o in (("Laue", laue, r["laue_order"]), ("point", point, r["point_order"])):
        require(o == len(G), "%s group: order() is %s for %d elements", name, o, len(G))
        for Q in G:
            require(np.asarray(Q).shape == (n, n) and np.allclose(Q.dot(Q.T), np.eye(n), atol=1e-8), "%s group: not orthogonal: %s", name, Q.tolist())
        require(g.is_group(G), "%s group is not a group (%d elements)", name, len(G))
    require(all(la.det(Q) > 0 for Q in laue), "Laue group holds an improper element")
    true = oracle(E)
    if true is None:
        return None
    for Q in point:
        require(g.member(Q, true), "point group: %s is no symmetry of the lattice %s", Q.tolist(), E.tolist())
    proper = [Q for Q in true if la.det(Q) > 0]
    want = true
    if n == 3:
        covered = [all(g.member(Q, S) for Q in proper) for S in std(3)]
    else:
        covered = [all(g.member(Q, S) for Q in true) for S in std(2)]
    nominal = any(covered) if c.get("turn") is None or "brav" in c else covered[0]
    # hexagonal setting of lower groups is not claimed
    if not covered[0] and covered[1] and len(proper) < (12 if n == 3 else 6):
        nominal = False
    if nominal:
        require(g.same_set(point, want), "point group has %d elements, the lattice %s has %d symmetries", len(point), E.tolist(), len(want))
        require(g.same_set(laue, proper), "Laue group has %d elements, the lattice %s has %d rotations", len(laue), E.tolist(), len(proper))
    else:
        require(g.same_set(laue, [Q for Q in point if la.det(Q) > 0]), "Laue group and point group do not match")
    return nominal and (len(true) > 2 or bool(c.get("ops")))


def case():
    def wrap(b):
        n = b["dim"]
        return st.fixed_dictionaries({"brav": st.just(b), "ops": st.one_of(st.just([]), g.ops_strategy(n, 5, 2)),
                                      "turn": st.one_of(st.none(), st.integers(0, 47))})
    eq = st.sampled_from([2.0, 3.0, 1.5])
    coincid = st.one_of(  # exact coincidences of parameters that keep the conventional axes
        st.tuples(st.sampled_from([8, 10, 11, 9]), eq, eq, eq).map(lambda t: {"dim": 3, "id": t[0], "par": list(t[1:])}),
        st.tuples(st.sampled_from([6, 7]), eq, eq).map(lambda t: {"dim": 3, "id": t[0], "par": list(t[1:])}),
        st.tuples(st.sampled_from([12, 13]), eq, eq, eq).map(lambda t: {"dim": 3, "id": t[0], "par": list(t[1:]) + [90.0]}),
        st.tuples(st.sampled_from([2, 3]), eq, eq).map(lambda t: {"dim": 2, "id": t[0], "par": list(t[1:])}),
        st.tuples(eq, eq).map(lambda t: {"dim": 2, "id": 5, "par": list(t) + [90.0]}),
        st.just({"dim": 2, "id": 3, "par": [1.0, 3 ** 0.5]}),
        eq.map(lambda a: {"dim": 3, "id": 5, "par": [a, 90.0]}),
        eq.map(lambda a: {"dim": 3, "id": 9, "par": [a, a * 3 ** 0.5, 4.1]}))
    return st.one_of(g.bravais(), g.bravais(), coincid).flatmap(wrap)


def gen_case():
    return st.sampled_from([2, 3]).flatmap(lambda n: st.fixed_dictionaries({
        "E": g.wellcond(n), "ops": st.just([]), "turn": st.none()}))


def check_err(ctx, c):
    for o in ctx.ok("group_errors", c):
        require("e" in o and "AttributeError" in o["mro"], "groups in dimension %d: %s", len(c["E"]), o)
    return True


FACETS = [
    Facet("bravais", case(), check, 700, 16000, examples=(
        [{"brav": {"dim": 3, "id": i, "par": p}, "ops": o, "turn": None} for o in ([], [[0, 1, 1], [1, 1, 0]]) for i, p in
         ((1, [2.0]), (2, [2.0]), (3, [2.0]), (4, [2.0, 3.3]), (5, [2.0, 80.0]), (5, [2.0, 100.0]), (6, [1.41, 2.0]), (7, [1.41, 2.0]),
          (8, [1.41, 1.45, 2.0]), (9, [1.41, 1.45, 2.0]), (10, [1.41, 1.45, 2.0]), (11, [1.41, 1.45, 2.0]),
          (12, [1.41, 1.45, 2.0, 85.0]), (13, [1.41, 1.45, 2.0, 85.0]), (14, [1.41, 1.45, 2.0, 84.0, 88.0, 95.0]))] +
        [{"brav": {"dim": 2, "id": i, "par": p}, "ops": [], "turn": None} for i, p in
         ((1, [2.0]), (2, [2.0, 3.0]), (3, [2.0, 3.0]), (4, [2.0]), (5, [2.0, 3.0, 75.0]))])),
    Facet("generic", gen_case(), check, 250, 5000),
    Facet("other_dimension", st.sampled_from([1, 4, 5]).flatmap(lambda n: st.fixed_dictionaries({"E": g.wellcond(n)})), check_err, 30, 300),
]
