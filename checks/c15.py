"""C15 - twins."""
import itertools
import math

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c14 import CUB, clear, group_of, laue_spec, stab, sym_matrix
from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a twin system (stretch and Laue group, or an explicit list of stretches), or one pair: related by a 180 degree rotation about "
        "an arbitrary axis, by another rotation, or made twinnable by an arbitrary simple-shear-like rank-one change; non-trivial: at least "
        "one pair is twinnable")

LO, HI = 4.5e-3, 5.5e-3


def spectrum(Ui, Uj):
    X = Uj.dot(la.inv(Ui))
    return la.eigvalsh(X.T.dot(X))


def sym(U):
    return (U + U.T) / 2


def mat_sqrt(C):
    w, v = la.eigh(sym(C))
    return sym((v * np.sqrt(w)).dot(v.T))


def axes(Ui, Uj):
    """all axes of 180 degree rotations R with R Ui R^T = Uj (up to sign); None: too close to call"""
    wi, vi = la.eigh(Ui)
    wj, vj = la.eigh(Uj)
    if np.abs(wi - wj).max() > 1e-9:
        return [] if np.abs(wi - wj).max() > 1e-4 else None
    gap = np.diff(wi)
    out = []
    if gap.min() > 1e-3:
        vi = vi if la.det(vi) > 0 else -vi
        vj = vj if la.det(vj) > 0 else -vj
        for s in ((1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)):
            R = (vj * np.array(s)).dot(vi.T)
            if np.trace(R) > -1 + 1e-5:
                continue
            skew = np.abs(R - R.T).max()        # the sine of the angle missing to 180 degrees
            if skew > 1e-10:
                return None
            w, v = la.eigh(sym(R))
            out.append(v[:, 2])
        return out
    k = [i for i in range(2) if gap[i] > 1e-3]
    if len(k) != 1 or gap.min() > 1e-9:
        return None
    # uniaxial: the special direction t must go to +- t'
    c = 0 if k[0] == 0 else 2
    t, u = vi[:, c], vj[:, c]
    if abs(abs(t.dot(u)) - 1) < 1e-4:
        return None
    return [(t + u) / la.norm(t + u), (t - u) / la.norm(t - u)]


def check_solutions(Ui, Uj, sols):
    require(len(sols) == 2, "%d twin solutions", len(sols))
    S = []
    for Q, a, n in sols:
        Q, a, n = np.asarray(Q), np.asarray(a), np.asarray(n)
        require(Q.shape == (3, 3) and a.shape == (3,) and n.shape == (3,), "shapes of a twin solution")
        res = np.abs(Q.dot(Uj) - Ui - np.outer(a, n)).max()
        require(res < 1e-7, "Q Uj - Ui - a n^T = %g for Ui = %s, Uj = %s, Q = %s, a = %s, n = %s", res, Ui.tolist(), Uj.tolist(), Q.tolist(), a.tolist(), n.tolist())
        require(g.is_rotation(Q, 1e-6), "Q = %s is no rotation (Ui = %s, Uj = %s)", Q.tolist(), Ui.tolist(), Uj.tolist())
        require(abs(la.norm(n) - 1) < 1e-7, "|n| = %g", la.norm(n))
        S.append(np.outer(a, n))
    require(np.abs(S[0] - S[1]).max() > 1e-4, "the two twin solutions coincide (Ui = %s, Uj = %s)", Ui.tolist(), Uj.tolist())


def judge(p, G, Gname, related):
    """p: what the code says about one pair; -> was it a twinnable pair we could judge"""
    Ui, Uj = np.asarray(p["Ui"]), np.asarray(p["Uj"])
    e = spectrum(Ui, Uj)
    d = abs(e[1] - 1)
    msg = "Ui = %s, Uj = %s" % (Ui.tolist(), Uj.tolist())
    diff = np.abs(Ui - Uj).max()
    if 1e-13 < diff < 1e-3 or LO < d < HI:
        return False
    tw = bool(diff >= 1e-3 and d < LO)
    require(p["twinnable"] is tw, "%s: istwinnable() is %s, the middle eigenvalue %.6g", msg, p["twinnable"], e[1])
    if not tw:
        for n in ("ax", "iscompound", "istypeI", "istypeII", "XI", "XII", "twinparam"):
            require("AttributeError" in p[n].get("mro", ()), "%s is not twinnable, %s(): %s", msg, n, p[n])
        for n in ("conv", "conv0"):
            require(p[n].get("v") is False, "%s is not twinnable but conventional", msg)
        return False
    for n, H, name in (("conv", G, Gname), ("conv0", CUB, "cubic")):
        dev = [np.abs(Q.dot(Ui).dot(Q.T) - Uj).max() for Q in H if abs(np.trace(Q) + 1) < 1e-6]
        best = min(dev) if dev else 1
        if best < 1e-13 or best > 1e-6:
            want = bool(best < 1e-13)
            require(p[n].get("v") is want, "%s: isconventional(%s) is %s, expected %s", msg, name, p[n], want)
    if d > 1e-12 or e[2] - 1 < 0.02 or 1 - e[0] < 0.02:
        return False
    require("v" in p["twinparam"], "%s: twinparam(): %s", msg, p["twinparam"])
    check_solutions(Ui, Uj, p["twinparam"]["v"])
    if not related:
        return True
    want = axes(Ui, Uj)
    if want is None:
        return True
    require("v" in p["ax"], "%s: ax(): %s", msg, p["ax"])
    got = [np.asarray(x) for x in p["ax"]["v"]]
    ok = len(got) == len(want) and all(any(min(la.norm(x - y), la.norm(x + y)) < 1e-6 for y in got) for x in want)
    require(ok, "%s: axes %s, expected %s", msg, [x.tolist() for x in got], [x.tolist() for x in want])
    comp = len(want) > 1
    require(p["iscompound"].get("v") is comp, "%s has %d axes, iscompound(): %s", msg, len(want), p["iscompound"])
    require(p["istypeI"].get("v") is (not comp) and p["istypeII"].get("v") is (not comp), "%s has %d axes, istypeI(): %s, istypeII(): %s", msg, len(want), p["istypeI"], p["istypeII"])
    if comp:
        require("AttributeError" in p["XI"].get("mro", ()) and "AttributeError" in p["XII"].get("mro", ()), "%s is compound, XI: %s, XII: %s", msg, p["XI"], p["XII"])
    elif want:
        (Q1, a1, n1), (Q2, a2, n2) = p["twinparam"]["v"]
        e, Ue = want[0], Ui.dot(want[0])
        require(la.norm(np.cross(n1, e)) < 1e-6, "%s: the first solution is not of type I: n = %s, the axis is %s", msg, np.asarray(n1).tolist(), e.tolist())
        require(la.norm(np.cross(a2, Ue)) < 1e-6, "%s: the second solution is not of type II: a = %s, Ui e = %s", msg, np.asarray(a2).tolist(), Ue.tolist())
        x1, x2 = la.norm(la.inv(Ui).dot(want[0])), la.norm(Ui.dot(want[0]))
        require(abs(p["XI"].get("v", 1e9) - x1) < 1e-7 and abs(p["XII"].get("v", 1e9) - x2) < 1e-7, "%s: XI = %s, XII = %s, expected %g, %g", msg, p["XI"], p["XII"], x1, x2)
    return True


LISTS = ["getConventional", "getCompound", "getTypeI", "getTypeII"]


def adapt(G):
    """type numbers as Bravais lattices with the generic parameters of c14"""
    from checks.c14 import GENERIC
    if isinstance(G, int):
        return {"brav": {"dim": 3, "id": G, "par": GENERIC[G]}}
    return G


def check_system(ctx, c):
    if c["via"] == "mart":
        U = np.array(c["U"])
        mats = group_of(c["G"]) if c["G"] else CUB
        if la.eigvalsh(U)[0] < 0.1 or not clear(U) or not all(g.member(Q, mats) for Q in stab(U, CUB)):
            return None
        arg = {"via": "mart", "U": c["U"], "G": adapt(c["G"])}
        n = len(mats) // len(stab(U, mats))
        V = None
    else:
        mats = group_of(c["G"]) if c["G"] else CUB
        V = [np.array(u) for u in c["Ulist"]]
        if any(la.eigvalsh(u)[0] < 0.1 for u in V):
            return None
        arg = {"via": c["via"], "Ulist": c["Ulist"], "G": adapt(c["G"])}
        n = len(V)
    arg.update(first=c["first"], lists=c["lists"], what=["class"], others=[[i, j] for i in range(min(n, 5)) for j in range(i + 1, min(n, 8))])
    r = ctx.ok("twin_system", arg)
    W = [np.asarray(u) for u in r["U"]]
    require(len(W) == n, "%d variants in the twin system, expected %d", len(W), n)
    if V is not None:
        require(all(np.allclose(a, b, atol=1e-12) for a, b in zip(V, W)), "Ulist() differs from the given list")
    require(g.same_set(list(r["Laue"]), mats), "the Laue group of the twin system is not the given one")
    tab = [tuple(t) for t in r["table"]]
    require(len(set(tab)) == len(tab) and all(0 <= i < j < n for i, j in tab), "twin table %s", tab)
    require(len(tab) == len(r["pairs"]), "%d twin pairs for %d entries of the table", len(r["pairs"]), len(tab))
    related = V is None
    for i, j in itertools.combinations(range(n), 2):
        e = spectrum(W[i], W[j])
        diff = np.abs(W[i] - W[j]).max()
        d = abs(e[1] - 1)
        if LO < d < HI or 1e-13 < diff < 1e-3:
            continue
        want = diff >= 1e-3 and d < LO
        require(((i, j) in tab) == want, "variants %d and %d of %s: middle eigenvalue %.6g, difference %.3g, %slisted as twinnable", i, j, [w.tolist() for w in W], e[1], diff, "" if (i, j) in tab else "not ")
    any_ = False
    for (i, j), p in zip(tab, r["pairs"]):
        require(np.allclose(p["Ui"], W[i], atol=1e-12) and np.allclose(p["Uj"], W[j], atol=1e-12), "the pair for entry %s is made of other variants", (i, j))
        any_ = judge(p, mats, "its Laue group", related) or any_
    for i, j, p in r["others"]:
        judge(p, mats, "its Laue group", related)
    for name, key in (("getConventional", "conv"), ("getCompound", "iscompound"), ("getTypeI", "istypeI"), ("getTypeII", "istypeII")):
        if name in r["lists"]:
            want = [k for k, p in enumerate(r["pairs"]) if p[key].get("v")]
            require(r["lists"][name] == want, "%s(): %s, the pairs say %s", name, r["lists"][name], want)
    return any_


def system():
    G = st.one_of(laue_spec(), st.none())
    first = st.sampled_from(["table", "pairs"])
    lists = st.permutations(LISTS).map(list)
    mart = st.fixed_dictionaries({"via": st.just("mart"), "U": sym_matrix(), "G": G, "first": first, "lists": lists})

    def orbit(t):
        U, k = np.array(t[0]), t[1]
        return [CUB[i].dot(U).dot(CUB[i].T).tolist() for i in k]
    ul = st.one_of(
        st.tuples(sym_matrix(), st.lists(st.integers(0, 23), min_size=2, max_size=6)).map(orbit),
        st.lists(sym_matrix(), min_size=2, max_size=4))
    lst = st.fixed_dictionaries({"via": st.sampled_from(["list", "array", "arrays"]), "Ulist": ul, "G": G, "first": first, "lists": lists})
    return st.one_of(mart, mart, lst)


# ---- single pairs
def psd():
    return st.tuples(st.lists(g.fl(0.7, 1.4, 50), min_size=3, max_size=3), g.rotation_case()).map(list)


def U_of(p):
    R = g.rot_of(p[1])
    return sym((R * np.array(p[0])).dot(R.T))


def make_pair(c):
    Ui = U_of(c["U"])
    k = c["k"]
    if k == "r180":
        R = g.rodrigues(c["axis"], math.pi)
        return Ui, sym(R.dot(Ui).dot(R.T)), True
    if k == "inplane":     # the axis in the plane of two eigenvectors: compound
        R0 = g.rot_of(c["U"][1])
        t = math.radians(c["angle"])
        ax = R0.dot([[math.cos(t), math.sin(t), 0], [0, math.cos(t), math.sin(t)], [math.sin(t), 0, math.cos(t)]][c["pl"]])
        R = g.rodrigues(ax, math.pi)
        return Ui, sym(R.dot(Ui).dot(R.T)), True
    if k == "rot":
        R = g.rot_of(c["rot"])
        return Ui, sym(R.dot(Ui).dot(R.T)), True
    a, n = np.array(c["a"], float), np.array(c["n"], float)
    F = Ui + np.outer(a, n)
    if la.det(F) < 0.2:
        return None
    return Ui, mat_sqrt(F.T.dot(F)), False


def check_pair(ctx, c):
    t = make_pair(c)
    if t is None:
        return None
    Ui, Uj, related = t
    if la.cond(Ui) > 20 or la.cond(Uj) > 20:
        return None
    r = ctx.ok("twin_pair", {"Ui": Ui.tolist(), "Uj": Uj.tolist(), "G": adapt(c["G"]), "what": ["class"]})
    require(r["intact"], "an argument was modified")
    return judge(r, group_of(c["G"]), str(c["G"])[:60], related)


def pair():
    G = laue_spec()
    v = st.lists(g.fl(-0.5, 0.5, 20), min_size=3, max_size=3).filter(lambda x: max(map(abs, x)) > 0.1)
    unit = g.axis_int.map(lambda a: (np.array(a) / la.norm(a)).tolist())
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("r180"), "U": psd(), "axis": g.axis_int, "G": G}),
        st.fixed_dictionaries({"k": st.just("inplane"), "U": psd(), "angle": g.fl(0, 180, 1), "pl": st.integers(0, 2), "G": G}),
        st.fixed_dictionaries({"k": st.just("rot"), "U": psd(), "rot": g.rotation_case(), "G": G}),
        st.fixed_dictionaries({"k": st.just("made"), "U": psd(), "a": v, "n": unit, "G": G}))


FACETS = [
    Facet("system", system(), check_system, 600, 12000),
    Facet("pair", pair(), check_pair, 1200, 30000),
]
