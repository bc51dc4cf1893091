"""C05 - lattice groups and membership tests."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c04 import basis, case as bravais_case, lat_arg
from harness.core import Facet, require
from harness import gen as g

RULE = ("groups: a Bravais lattice and a change of basis; membership: a lattice in dimension 1-5 and candidate matrices "
        "(true symmetries, other orthogonal matrices, unimodular and non-integer matrices, wrong shapes); non-trivial: the group "
        "has more than two elements / the queries have both answers")


def check_groups(ctx, c):
    r = ctx.ok("groups", lat_arg(c))
    E = r["E"]
    n = len(E)
    Ei = la.inv(E)
    for name, mats, order, Qs in (("lattice group", r["lattice"], r["lattice_order"], r["point"]),
                                  ("special lattice group", r["special"], r["special_order"], r["laue"])):
        require(order == len(mats), "%s: order() %s, %d elements", name, order, len(mats))
        require(len(mats) == len(Qs), "%s has %d elements, the point group %d", name, len(mats), len(Qs))
        want = [np.rint(Ei.dot(Q).dot(E)) for Q in Qs]
        for Q, M in zip(Qs, want):
            require(np.allclose(Ei.dot(Q).dot(E), M, atol=1e-5), "%s: E^-1 Q E is not integer", name)
        for M in mats:
            require(np.asarray(M).dtype.kind == "i", "%s: not an integer matrix", name)
            require(abs(g.idet(M.tolist())) == 1, "%s: %s is not unimodular", name, M.tolist())
        require(g.same_set(mats, want), "%s is not the integer form of the point group of %s", name, E.tolist())
    require(all(g.idet(M.tolist()) == 1 for M in r["special"]), "special lattice group: determinant -1")
    return len(r["point"]) > 2


# ---- membership
def sym_lattice(n):
    """lattices in dimension n with known (signed) permutation symmetries, by blocks of equal edge lengths"""
    return st.lists(st.sampled_from([1.0, 1.5, 2.0]), min_size=n, max_size=n).map(lambda d: np.diag(d).tolist())


def query(n):
    perm = st.permutations(list(range(n)))
    sgn = st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n)
    return st.one_of(
        st.tuples(st.just("perm"), perm, sgn),
        st.tuples(st.just("permM"), perm, sgn),
        st.tuples(st.just("rot"), st.integers(0, max(0, n - 1)), st.integers(0, max(0, n - 1)), st.sampled_from([90, 60, 45, 120, 180, 10, 1, 0.1])),
        st.tuples(st.just("rotM"), st.integers(0, max(0, n - 1)), st.integers(0, max(0, n - 1)), st.sampled_from([90, 60, 45, 120, 180, 10, 1, 0.1])),
        st.tuples(st.just("permRotM"), perm, sgn),
        st.tuples(st.just("sym"), st.integers(0, 100)),
        st.tuples(st.just("symM"), st.integers(0, 100)),
        st.tuples(st.just("symscaled"), st.integers(0, 100), st.sampled_from([1.01, 2, -0.5, 1.001])),
        st.tuples(st.just("uniM"), g.ops_strategy(n, 3, 2)),
        st.tuples(st.just("uniQ"), g.ops_strategy(n, 3, 2)),
        st.tuples(st.just("fracM"), st.integers(0, 100), st.sampled_from([0.5, 0.1, 0.01])),
        st.tuples(st.just("bigM"), st.sampled_from([2, -3])),
        st.tuples(st.just("shape"), st.sampled_from(["row", "small", "big", "vec"]), st.sampled_from(["Q", "M"])),
    ).map(list)


def mem_case():
    def gen(n):
        return st.fixed_dictionaries({
            "E": st.one_of(sym_lattice(n), g.wellcond(n)), "ops": g.ops_strategy(n, 4, 2),
            "q": st.lists(query(n), min_size=1, max_size=6), "qhow": st.sampled_from(["array", "list", "float"])})
    b = g.bravais().flatmap(lambda b: st.fixed_dictionaries({
        "brav": st.just(b), "ops": g.ops_strategy(b["dim"], 4, 2),
        "q": st.lists(query(b["dim"]), min_size=1, max_size=6), "qhow": st.sampled_from(["array", "list", "float"])}))
    return st.one_of(st.sampled_from([1, 2, 3, 4, 5]).flatmap(gen), b)


def check_member(ctx, c):
    E = basis(c)
    n = len(E)
    if la.cond(E) > 1e4:
        return None
    Ei = la.inv(E)
    B, _ = g.reduce_basis(E)
    auts = None
    qs, wants = [], []
    for q in c["q"]:
        k = q[0]
        kind, X = "Q", None
        if k in ("perm", "permM"):
            X = np.zeros((n, n), int)
            for i in range(n):
                X[i, q[1][i]] = q[2][i]
            kind = "Q" if k == "perm" else "M"
            X = X.tolist()
        elif k == "permRotM":       # orthogonal, in general not integer in the lattice basis
            P = np.zeros((n, n))
            for i in range(n):
                P[i, q[1][i]] = q[2][i]
            kind, X = "M", Ei.dot(P).dot(E).tolist()
        elif k in ("rot", "rotM"):
            if n < 2 or q[1] == q[2]:
                continue
            X = np.eye(n)
            t = np.radians(q[3])
            i, j = q[1], q[2]
            X[i, i] = X[j, j] = np.cos(t)
            X[i, j], X[j, i] = -np.sin(t), np.sin(t)
            if k == "rotM":
                kind, X = "M", Ei.dot(X).dot(E)
            X = X.tolist()
        elif k in ("sym", "symM", "symscaled", "fracM"):
            if auts is None:
                auts = g.automorphisms(E, 1e-8)
            Q = auts[q[1] % len(auts)]
            if k == "sym":
                X = Q.tolist()
            elif k == "symscaled":
                X = (q[2] * Q).tolist()
            else:
                kind = "M"
                M = np.rint(Ei.dot(Q).dot(E))
                X = M.astype(int).tolist() if k == "symM" else (M + q[2] * np.eye(n)).tolist()
        elif k in ("uniM", "uniQ"):
            kind = k[-1]
            X = g.unimodular(n, q[1])
        elif k == "bigM":
            kind, X = "M", (q[1] * np.eye(n, dtype=int)).tolist()
        elif k == "shape":
            kind = q[2]
            X = {"row": [[1.0] + [0.0] * n], "small": np.eye(max(1, n - 1)).tolist() if n > 1 else [[1.0, 0.0], [0.0, 1.0]],
                 "big": np.eye(n + 1).tolist(), "vec": [1.0] * n}[q[1]]
            qs.append([kind, X])
            wants.append(False)
            continue
        A = np.array(X, float)
        if kind == "Q":
            dev = max(np.abs(A.dot(A.T) - np.eye(n)).max(), 0)
            M = Ei.dot(A).dot(E)
            devM = np.abs(M - np.rint(M)).max()
            if dev < 1e-9 and devM < 1e-9:
                want = True
            elif dev > 1e-3 or devM > max(1e-3, 1e-4 * np.abs(M).max()):
                want = False
            else:
                want = None
        else:
            dev = np.abs(A - np.rint(A)).max()
            Q = E.dot(A).dot(Ei)
            devQ = np.abs(Q.dot(Q.T) - np.eye(n)).max()
            if dev < 1e-9 and devQ < 1e-9:
                want = True
            elif dev > 1e-3 * np.abs(A).max() or devQ > 1e-3:
                want = False
            else:
                want = None
        if want is None:
            continue
        qs.append([kind, X])
        wants.append(want)
    if not qs:
        return None
    arg = {"E": E.tolist()}
    arg.update(queries=qs, qhow=c["qhow"])
    got = ctx.ok("membership", arg)
    for (kind, X), w, o in zip(qs, wants, got):
        require(w == o, "lattice %s: %s is %sin the %s group, the answer was %s", E.tolist(), X, "" if w else "not ",
                "point" if kind == "Q" else "lattice", o)
    return len(set(wants)) > 1


# ---- very skewed bases of square and rectangular lattices: the integer matrices have large entries, and a skew that is nearly an integer gives matrices that are nearly integer
SKEWQ = {"turn": [[0, -1], [1, 0]], "mirror": [[1, 0], [0, -1]], "mirror2": [[-1, 0], [0, 1]], "swap": [[0, 1], [1, 0]]}


def check_skew(ctx, c):
    n = c["n"]
    s = c["s"] + c["frac"]
    E = np.eye(n)
    E[0, n - 1] = s
    Q = np.eye(n)
    i = np.ix_([0, n - 1], [0, n - 1])
    Q[i] = np.array(SKEWQ[c["Q"]])
    Ei = np.eye(n)
    Ei[0, n - 1] = -s
    M = Ei.dot(Q).dot(E)
    dev = np.abs(M - np.rint(M)).max()
    want = True if dev < 1e-12 else (False if dev > 2e-3 else None)
    if want is None:
        return None
    k = c["scale"]
    got = ctx.ok("membership", {"E": (E * k).tolist(), "queries": [["M", M.tolist()], ["Q", Q.tolist()]], "qhow": "array"})
    require(got[0] == want, "lattice %s: %s is %sin the lattice group, the answer was %s", (E * k).tolist(), M.tolist(), "" if want else "not ", got[0])
    require(got[1] == want, "lattice %s: %s is %sin the point group, the answer was %s", (E * k).tolist(), Q.tolist(), "" if want else "not ", got[1])
    return not want


skew = st.fixed_dictionaries({"n": st.integers(2, 4), "s": st.sampled_from([10, 100, 300, 1000, -1000, 2000, 3000]), "scale": st.sampled_from([1.0, 2.0, 0.5]),
                              "frac": st.one_of(st.sampled_from([0, 0, 0.5, 0.25, 0.005, 0.01]), g.fl(-0.02, 0.02, 1000)), "Q": st.sampled_from(sorted(SKEWQ))})


FACETS = [
    Facet("skewed", skew, check_skew, 300, 6000, examples=[{"n": 2, "s": 1000, "frac": 0.005, "Q": "turn", "scale": 1.0}]),
    Facet("integer_form", bravais_case(), check_groups, 500, 12000),
    Facet("membership", mem_case(), check_member, 1500, 40000, examples=[
        {"E": [[1.0, 0.0], [0.0, 1.0]], "ops": [], "qhow": "array", "q": [["shape", "big", "M"], ["shape", "vec", "M"], ["shape", "big", "Q"], ["perm", [1, 0], [1, -1]]]}]),
]
