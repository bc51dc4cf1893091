"""C02 - Hermite normal form decomposition."""
import numpy as np
from hypothesis import strategies as st

from checks.c01 import canonical
from harness.core import Facet, require
from harness.gen import idet, imul, ops_strategy, unimodular

RULE = ("a case is a full-rank integer matrix (entries up to 1e6 as far as the forms fit into 64 bits) and a "
        "unimodular matrix given by column operations; non-trivial: the matrix is not already a normal form")
# the determinant must fit into int64 (Hadamard)
MAG = {1: [3, 1000, 10 ** 9], 2: [1, 2, 9, 1000, 10 ** 6], 3: [1, 2, 9, 100, 10 ** 5, 4 * 10 ** 5], 4: [1, 2, 9, 500, 4000],
       5: [1, 2, 9, 400]}


def ints(A):
    A = np.asarray(A)
    require(A.ndim == 2, "not a matrix")
    require(A.dtype.kind in "iu" or all(x == int(x) for x in A.ravel().tolist()), "entries are not integers: %s", A.tolist())
    return [[int(x) for x in r] for r in A]


def check(ctx, c):
    M = c["M"]
    d = idet(M)
    if d == 0:
        return None
    n = len(M)
    r = ctx.ok("hnfd", {"mod": c["mod"], "M": M, "how": c["how"]})
    require(r["intact"], "the input matrix was modified")
    require(np.asarray(r["L"]).dtype.kind == "i", "L is not an integer array")
    H, L, H2 = ints(r["H"]), ints(r["L"]), ints(r["H2"])
    require(canonical(H), "H = %s is not canonical", H)
    require(imul(H, L) == M, "H L != M for %s: H = %s, L = %s", M, H, L)
    require(abs(idet(L)) == 1, "det L = %d", idet(L))
    require(H2 == H, "onlyH gives another form: %s / %s", H2, H)
    # canonical: the same for every basis of the column lattice
    U = unimodular(n, c["ops"])
    MU = imul(M, U)
    if max(abs(x) for row in MU for x in row) < 2 ** 62:
        r3 = ctx.ok("hnfd", {"mod": c["mod"], "M": MU, "how": "array"})
        require(ints(r3["H"]) == H, "M = %s and M U = %s have different forms %s / %s", M, MU, H, ints(r3["H"]))
        require(imul(ints(r3["H"]), ints(r3["L"])) == MU, "H L != M for %s", MU)
    return not canonical(M)


def case(n):
    return st.sampled_from(MAG[n]).flatmap(lambda lim: st.fixed_dictionaries({
        "mod": st.sampled_from(["hnf", "sublattice", "alias"]),
        "how": st.sampled_from(["list", "array", "tuple", "fortran", "view"]),
        "M": st.lists(st.lists(st.one_of(st.integers(-lim, lim), st.sampled_from([0, 0, lim, -lim])),
                               min_size=n, max_size=n), min_size=n, max_size=n),
        "ops": ops_strategy(n)}))


def pin(ops):
    return unimodular(3, ops)


def seeded(n):
    """H U with a known H: many equal diagonal entries, zero first rows, permutations"""
    def mk(t):
        diag, low, ops, mod, how = t
        H = [[diag[i] if i == j else (0 if j > i else -(low[i] * (j + 1) % diag[i])) for j in range(n)] for i in range(n)]
        return {"mod": mod, "how": how, "M": imul(H, unimodular(n, ops)), "ops": ops[::-1], "H": H}
    return st.tuples(st.lists(st.integers(1, 30), min_size=n, max_size=n), st.lists(st.integers(0, 40), min_size=n, max_size=n),
                     ops_strategy(n, 12), st.sampled_from(["hnf", "sublattice", "alias"]),
                     st.sampled_from(["list", "array"])).map(mk)


def check_seeded(ctx, c):
    r = ctx.ok("hnfd", {"mod": c["mod"], "M": c["M"], "how": c["how"]})
    require(ints(r["H"]) == c["H"], "form of %s is %s, got %s", c["M"], c["H"], ints(r["H"]))
    return check(ctx, c)


FACETS = [
    Facet("decomposition", st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]).flatmap(case), check, 2500, 60000,
          examples=[
              {"mod": "hnf", "how": "array", "M": [[0, 0, 1], [0, 1, 0], [1, 0, 0]], "ops": []},
              {"mod": "hnf", "how": "array", "M": [[123456, -99999, 5], [77777, 31415, -27182], [-100000, 65537, 99991]], "ops": [[0, 1, 2]]},
              {"mod": "sublattice", "how": "array", "M": [[399999, -399998, 5], [377777, 331415, -327182], [-300000, 365537, 399991]], "ops": [[0, 1, 2]]},
              {"mod": "sublattice", "how": "list", "M": [[-5]], "ops": []}]),
    Facet("known_form", st.integers(2, 4).flatmap(seeded), check_seeded, 1000, 30000),
]
