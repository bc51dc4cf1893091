"""C16 - austenite / twinned martensite interfaces."""
import math

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c14 import CUB
from checks.c15 import check_solutions, mat_sqrt, spectrum, sym
from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a pair of variants related by a 180 degree rotation (about a cubic axis or an arbitrary one), or all twinnable pairs of a "
        "twin system; non-trivial: some twin solution has a compatible volume fraction, or has a root at which one is not the middle eigenvalue")


def Cf(U, a, n, f):
    F = U + f * np.outer(a, n)
    return F.T.dot(F)


def judge(p):
    Ui, Uj = np.asarray(p["Ui"]), np.asarray(p["Uj"])
    e = spectrum(Ui, Uj)
    diff = np.abs(Ui - Uj).max()
    d = abs(e[1] - 1)
    msg = "Ui = %s, Uj = %s" % (Ui.tolist(), Uj.tolist())
    if 1e-13 < diff < 1e-3 or 4.5e-3 < d < 5.5e-3:
        return False
    if diff < 1e-3 or d > 5.5e-3:
        for k in ("twinparam", "frac", "habit", "cof", "comp"):
            require("AttributeError" in p[k].get("mro", ()), "%s is not twinnable, %s: %s", msg, k, p[k])
        return False
    if d > 1e-12 or e[2] - 1 < 0.02 or 1 - e[0] < 0.02:
        return False
    if np.abs(la.eigvalsh(Ui) - la.eigvalsh(Uj)).max() > 1e-9:
        return False
    for k in ("twinparam", "frac", "cof", "compI", "compII", "compC", "comp"):
        require("v" in p[k], "%s: %s: %s", msg, k, p[k])
    sols = p["twinparam"]["v"]
    check_solutions(Ui, Uj, sols)
    fr = p["frac"]["v"]
    require(len(fr) == 2, "%s: volume fractions %s", msg, fr)
    nontriv = False
    sure = True
    for k, (f, (Q, a, n), cof) in enumerate(zip(fr, sols, p["cof"]["v"])):
        a, n = np.asarray(a), np.asarray(n)
        h = lambda x: la.det(Cf(Ui, a, n, x) - np.eye(3))
        slope = (h(1e-3) - h(-1e-3)) / 2e-3       # det is a quadratic function of f
        require(abs(cof + slope / 2) < 1e-6, "%s: cofactor value %g of solution %d, expected %g", msg, cof, k, -slope / 2)
        c0 = h(0.0)
        c1 = 4 * (h(0.5) - c0)
        want = None         # undecided
        if abs(c1) < 1e-9 and abs(c0) > 1e-3:
            want = False
        elif abs(c1) > 1e-6:
            t = -c0 / c1
            mar = 1e-8 / abs(c1) + 1e-6
            if t < -mar or t > 0.25 + mar:
                want = False
            elif abs(t) <= 1e-11 / abs(c1) or mar < t < 0.25 - mar:
                t = max(t, 0.0)
                x = 0.5 + math.sqrt(0.25 - t)
                ev = [la.eigvalsh(Cf(Ui, a, n, y)) for y in (x, 1 - x)]
                mid = [abs(v[1] - 1) for v in ev]
                if min(mid) < 1e-8 and min(mid[0] - mid[1], mid[1] - mid[0]) > -1e-8:
                    want = True
                elif min(mid) > 1e-4:
                    want = False
                    nontriv = True
        if want is True:
            require(f is not None, "%s: no volume fraction for a = %s, n = %s, though f = %g makes one the middle eigenvalue", msg, a.tolist(), n.tolist(), x)
            nontriv = True
        elif want is False:
            require(f is None, "%s: volume fraction %s for a = %s, n = %s, though none is compatible", msg, f, a.tolist(), n.tolist())
        if f is not None:
            require(-1e-9 <= f <= 1 + 1e-9, "%s: volume fraction %g", msg, f)
            ev = la.eigvalsh(Cf(Ui, a, n, f))
            require(abs(ev[1] - 1) < 1e-5, "%s: f = %g gives the eigenvalues %s (a = %s, n = %s)", msg, f, ev.tolist(), a.tolist(), n.tolist())
        key = "compI" if k == 0 else "compII"
        require(p[key]["v"] is (f is not None), "%s: %s is %s but the fractions are %s", msg, key, p[key]["v"], fr)
    comp = [k for k in (0, 1) if fr[k] is not None]
    require(p["compC"]["v"] is bool(comp) and p["comp"]["v"] is bool(comp), "%s: iscompatible(): %s, fractions %s", msg, p["comp"], fr)
    if not comp:
        require("AttributeError" in p["habit"].get("mro", ()), "%s is incompatible, habitplanes(): %s", msg, p["habit"])
        return nontriv
    require("v" in p["habit"], "%s: habitplanes(): %s", msg, p["habit"])
    hp = p["habit"]["v"]
    require(len(hp) == 4 * len(comp), "%s: %d habit plane solutions for fractions %s", msg, len(hp), fr)
    for q, k in enumerate(comp):
        a, n = np.asarray(sols[k][1]), np.asarray(sols[k][2])
        for h, f in enumerate((fr[k], 1 - fr[k])):
            C = Cf(Ui, a, n, f)
            ev = la.eigvalsh(C)
            S = mat_sqrt(C)
            pair = []
            for R, b, m in hp[4 * q + 2 * h: 4 * q + 2 * h + 2]:
                R, b, m = np.asarray(R), np.asarray(b), np.asarray(m)
                res = np.abs(R.dot(S) - np.eye(3) - np.outer(b, m)).max()
                require(res < 1e-4, "%s: R sqrt(C) - I - b m^T = %g for f = %g (solution %d)", msg, res, f, k)
                require(g.is_rotation(R, 1e-4), "%s: R = %s is no rotation", msg, R.tolist())
                require(abs(la.norm(m) - 1) < 1e-7, "%s: |m| = %g", msg, la.norm(m))
                pair.append(np.outer(b, m))
            if ev[0] < 1 - 1e-3 and ev[2] > 1 + 1e-3:
                require(np.abs(pair[0] - pair[1]).max() > 1e-6, "%s: the two habit planes for f = %g coincide", msg, f)
    return True


WHAT = ["param", "frac"]


def U_of(c):
    U = np.diag(c["ev"])
    R = g.rot_of(c["rot"]) if c["rot"] is not None else np.eye(3)
    return sym(R.dot(U).dot(R.T))


def check_pair(ctx, c):
    Ui = U_of(c)
    R = CUB[c["q"]] if "q" in c else g.rodrigues(c["axis"], math.pi)
    Uj = sym(R.dot(Ui).dot(R.T))
    r = ctx.ok("twin_pair", {"Ui": Ui.tolist(), "Uj": Uj.tolist(), "G": {"name": "CUBIC_LAUE_GROUP"}, "what": WHAT})
    require(r["intact"], "an argument was modified")
    judge(r["again"])
    return judge(r)


def check_sys(ctx, c):
    Ui = U_of(c)
    V = []
    for Q in CUB:
        X = Q.dot(Ui).dot(Q.T)
        if not g.member(X, V, 1e-2):
            V.append(X)
    V = V[:8]
    r = ctx.ok("twin_system", {"via": "array", "Ulist": [v.tolist() for v in V], "G": None, "first": "table", "lists": [], "what": WHAT, "others": [[0, 1], [1, 2]]})
    res = [judge(p) for p in r["pairs"]] + [judge(p[2]) for p in r["others"]]
    return any(res)


ev = st.one_of(
    st.tuples(g.fl(0.84, 0.99), g.fl(0.94, 1.06), g.fl(1.01, 1.16)),
    st.tuples(g.fl(0.84, 0.99), g.fl(0.94, 1.06), g.fl(1.01, 1.16)),
    st.tuples(g.fl(0.84, 0.99), st.just(1.0), g.fl(1.01, 1.16)),
    st.tuples(g.fl(0.8, 1.2), g.fl(0.8, 1.2)).map(lambda t: (t[0], t[0], t[1])),
    st.tuples(g.fl(0.7, 1.3), g.fl(0.7, 1.3), g.fl(0.7, 1.3))).flatmap(lambda t: st.permutations(list(t)))
rots = st.one_of(st.none(), st.tuples(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]]), st.sampled_from([45.0, 30.0, 10.0, -20.0])).map(list), g.rotation_case())
TWOFOLD = [i for i, Q in enumerate(CUB) if abs(np.trace(Q) + 1) < 1e-9]

FACETS = [
    Facet("pair", st.one_of(
        st.fixed_dictionaries({"ev": ev, "rot": rots, "axis": g.axis_int}),
        st.fixed_dictionaries({"ev": ev, "rot": rots, "q": st.one_of(st.sampled_from(TWOFOLD), st.sampled_from(TWOFOLD), st.integers(0, 23))})), check_pair, 1600, 40000,
        examples=[{"ev": [0.9, 1.0, 1.1], "rot": [[0, 0, 1], 45.0], "q": 3}]),
    Facet("system", st.fixed_dictionaries({"ev": ev, "rot": rots}), check_sys, 250, 6000),
]
