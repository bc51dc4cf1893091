"""C21 - lattice correspondences over sublattices."""
import math

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c01 import canonical, forms_det
from checks.c19 import model, scale
from checks.c20 import DIST, ordinary, special_group, vdist, words
from harness import brute
from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a pair of Bravais lattices (2D or 3D) whose cells have a volume ratio near 1-5, a number of solutions, volume threshold, "
        "distance and iteration limits, run serially and in parallel with a generated completion order; non-trivial: more than one sublattice has "
        "to be searched")


def sizes(r, th):
    lo, hi = (1 - th) * r, (1 + th) * r
    vf = list(range(int(math.ceil(lo)), int(math.floor(hi)) + 1))
    vf = [v for v in vf]
    return vf or [max(1, int(round(r)))]


def clear_sizes(r, th):
    for x in ((1 - th) * r, (1 + th) * r, r - 0.5):
        if abs(x - round(x)) < 1e-6:
            return False
    return True


def record(s, EA, EM, CA, CM, ltot, k, what):
    """the fields that belong to the total matrix ltot"""
    n = len(EA)
    cor = la.inv(CA).dot(ltot).dot(CM)
    require(np.allclose(s["cor"], cor, atol=1e-7), "cor = %s, expected %s: %s", np.asarray(s["cor"]).tolist(), cor.tolist(), what)
    F = EM.dot(la.inv(EA.dot(ltot)))
    C = F.T.dot(F)
    u = np.asarray(s["u"])
    sc = max(1.0, np.abs(C).max())
    require(u.shape == (n, n) and np.allclose(u, u.T, atol=1e-6 * sc), "u = %s is not symmetric: %s", u.tolist(), what)
    require(la.eigvalsh((u + u.T) / 2)[0] > 0, "u = %s is not positive definite: %s", u.tolist(), what)
    require(np.allclose(u.dot(u), C, atol=1e-6 * sc), "u^2 = %s, F^T F = %s: %s", u.dot(u).tolist(), C.tolist(), what)
    lams = np.asarray(s["lams"])
    require(np.allclose(lams, np.sqrt(la.eigvalsh(C)), atol=1e-6 * sc), "lams = %s, expected %s: %s", lams.tolist(), np.sqrt(la.eigvalsh(C)).tolist(), what)
    w = model(EA, EM, ltot.astype(float))[k]
    require(abs(w - s["d"]) < 1e-7 * scale(EA, EM, ltot.astype(float)), "d = %.10g, expected %.10g: %s", s["d"], w, what)


def judge(c, r):
    kw = c["kw"]
    nsol, th = kw.get("nsol", 1), kw.get("vol_th", 0.1)
    k = DIST[kw.get("dist", "Cauchy")]
    EA, EM, CA, CM = (np.asarray(r[x]) for x in ("EA", "EM", "CA", "CM"))
    n = len(EA)
    what = "%s -> %s, %s" % (c["A"], c["M"], kw)
    sols = r["sols"]
    vf = sizes(la.det(EM) / la.det(EA), th)
    if "maxiter" not in kw:
        require(len(sols) >= nsol, "%d solutions, %d were requested: %s", len(sols), nsol, what)
    require(len(sols) > 0, "no solution: %s", what)
    tots = []
    for s in sols:
        h, l = np.asarray(s["h"]), np.asarray(s["l"])
        require(h.shape == (n, n) and h.dtype.kind == "i" and canonical(h.tolist()), "h = %s is no canonical form: %s", h.tolist(), what)
        require(g.idet(h.tolist()) in vf, "the size %d of the sublattice is not in %s: %s", g.idet(h.tolist()), vf, what)
        require(l.shape == (n, n) and l.dtype.kind == "i" and abs(g.idet(l.tolist())) == 1, "l = %s is not unimodular: %s", l.tolist(), what)
        t = h.dot(l)
        record(s, EA, EM, CA, CM, t, k, what)
        tots.append(t)
    d = [s["d"] for s in sols]
    tol = 1e-9 * (1 + max(d))
    require(all(a <= b + tol for a, b in zip(d, d[1:])), "the distances %s are not sorted: %s", d, what)
    if len(d) > nsol:
        require(d[-1] <= d[nsol - 1] + tol, "%d solutions for nsol = %d that are no ties (%s): %s", len(d), nsol, d, what)
    G1, G2 = special_group(c["A"], EA), special_group(c["M"], EM)
    ordi = ordinary(c["A"], G1) and ordinary(c["M"], G2)
    for i in range(len(tots) if ordi else 0):
        orb = set(a.dot(tots[i]).dot(b).astype(np.int64).tobytes() for a in G1 for b in G2)
        for j in range(i):
            require(tots[j].astype(np.int64).tobytes() not in orb, "the solutions %s and %s are equivalent: %s", tots[j].tolist(), tots[i].tolist(), what)
    if k != 2:
        W = words(n, 1)
        ds = vdist(EA, EM, [tots[0].dot(w) for w in W], k)
        require(ds.min() >= d[0] - 1e-7 * (1 + d[0]), "the best solution %s has distance %.10g, but %s has %.10g: %s", tots[0].tolist(), d[0],
                tots[0].dot(W[int(np.argmin(ds))]).tolist(), ds.min(), what)
        if n == 2 and "maxiter" not in kw and "miniter" not in kw and max(la.cond(EA), la.cond(EM)) < 8:
            f = brute.search(EA, EM, max(d[0], 1e-9), k, dets=vf)
            if f is not None:
                require(f and f[0][0] >= d[0] - 1e-7 * (1 + d[0]), "the best solution %s has distance %.10g, but %s has %s: %s", tots[0].tolist(), d[0],
                        f and f[0][1].tolist(), f and f[0][0], what)
    nh = sum(len(forms_det(v, n)) for v in vf)
    return nh


def hnf_args(c):
    a = {"which": "hnf", "A": c["A"], "M": c["M"], "kw": dict(c["kw"], dim=c["A"]["dim"], disp=0)}
    if c["A"]["dim"] == 3 and c.get("nodim"):
        del a["kw"]["dim"]
    if c.get("how"):
        a["how"] = c["how"]
    return a


def prepare(c):
    """scale the second lattice so that the cells have the wanted volume ratio"""
    A, M = c["A"], dict(c["M"])
    r0 = abs(la.det(g.prim_base(M)) / la.det(g.prim_base(A)))
    n = A["dim"]
    f = (c["ratio"] / r0) ** (1.0 / n)
    nl = {3: [1, 1, 1, 2, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3], 2: [1, 2, 2, 1, 2]}[n][M["id"] - 1]
    M["par"] = [round(p * f, 4) if i < nl else p for i, p in enumerate(M["par"])]
    c = dict(c, M=M)
    return c


def check(ctx, c):
    c = prepare(c)
    r0 = abs(la.det(g.prim_base(c["M"])) / la.det(g.prim_base(c["A"])))
    if not clear_sizes(r0, c["kw"].get("vol_th", 0.1)) or max(la.cond(g.prim_base(c["A"])), la.cond(g.prim_base(c["M"]))) > 20:
        return None
    if sum(len(forms_det(v, c["A"]["dim"])) for v in sizes(r0, c["kw"].get("vol_th", 0.1))) > c.get("maxh", 200):
        return None
    a = hnf_args(c)
    r = ctx.ok("latcor", a)
    require(r["text"] == "", "printed with disp = 0: %s", r["text"][:100])
    nh = judge(c, r)
    for par in c["par"]:
        r2 = ctx.ok("latcor", dict(a, par=par))
        judge(c, r2)
        d1, d2 = [s["d"] for s in r["sols"]], [s["d"] for s in r2["sols"]]
        require(len(d1) == len(d2) and np.allclose(d1, d2, rtol=1e-9, atol=1e-11), "serial: %s, parallel (%s): %s; %s -> %s, %s", d1, par, d2, c["A"], c["M"], c["kw"])
    return nh > 1


def hermite(M):
    """the canonical form of an integer matrix (exact)"""
    A = [[int(x) for x in r] for r in M]
    n = len(A)
    for i in range(n):
        while True:
            nz = [j for j in range(i, n) if A[i][j]]
            j0 = min(nz, key=lambda j: abs(A[i][j]))
            for r in range(n):
                A[r][i], A[r][j0] = A[r][j0], A[r][i]
            if len(nz) == 1:
                break
            for j in range(i + 1, n):
                q = A[i][j] // A[i][i]
                for r in range(n):
                    A[r][j] -= q * A[r][i]
        if A[i][i] < 0:
            for r in range(n):
                A[r][i] = -A[r][i]
        for j in range(i):
            q = -((-A[i][j]) // A[i][i])
            for r in range(n):
                A[r][j] -= q * A[r][i]
    return tuple(x for r in A for x in r)


def orbits(vf, n, G1):
    """the canonical forms of the given sizes, each with a name of its class under the group"""
    name = {}
    for v in vf:
        for h in sorted(forms_det(v, n)):
            if h not in name:
                H = np.array(h).reshape(n, n)
                for a in G1:
                    name[hermite(a.dot(H).tolist())] = h
    return name


def edge_case(n):
    """lattices and thresholds with exact binary fractions, so that a limit of the sizes is exactly an integer"""
    def lat(t):
        i, p = t
        if n == 2:
            return {"dim": 2, "id": 1 + (p[0] != p[1]), "par": [p[0]] if p[0] == p[1] else p[:2]}
        k = len(set(p))
        return {"dim": 3, "id": 1, "par": p[:1]} if k == 1 else {"dim": 3, "id": 8, "par": p} if k == 3 else {"dim": 3, "id": 6, "par": [p[0], 2 * p[0]]}
    l = lambda a: st.tuples(st.just(0), st.lists(st.integers(a, a + 2).map(lambda k: 2.0 ** k), min_size=3, max_size=3)).map(lat)
    p = st.fixed_dictionaries({"words": st.just([np.eye(n, dtype=int).tolist()]), "polls": st.lists(st.integers(0, 3), max_size=5)})
    return st.fixed_dictionaries({"A": l(-2), "M": l(-1), "kw": st.sampled_from([0.5, 0.25, 0.125, 0.75, 0.0]).map(lambda t: {"vol_th": t}), "par": p, "maxh": st.just(300),
                                  "exact": st.just(True)})


def check_cover(ctx, c):
    c = c if c.get("exact") else prepare(c)
    kw = c["kw"]
    th = kw.get("vol_th", 0.1)
    EA, EM = g.prim_base(c["A"]), g.prim_base(c["M"])
    r0 = abs(la.det(EM) / la.det(EA))
    if not (c.get("exact") or clear_sizes(r0, th)) or max(la.cond(EA), la.cond(EM)) > 50:
        return None
    n = len(EA)
    if c.get("exact"):
        r0 = float(np.prod(np.diag(EM)) / np.prod(np.diag(EA)))
        if (r0 - 0.5) % 1 == 0 or not 0.25 < r0 < 40:
            return None
    vf = sizes(r0, th)
    if sum(len(forms_det(v, n)) for v in vf) > c["maxh"]:
        return None
    a = dict(hnf_args(c), par=c["par"])
    r = ctx.ok("latcor", a)
    EA, EM, CA, CM = (np.asarray(r[x]) for x in ("EA", "EM", "CA", "CM"))
    what = "%s -> %s, %s" % (c["A"], c["M"], kw)
    G1, G2 = special_group(c["A"], EA), special_group(c["M"], EM)
    if not (ordinary(c["A"], G1) and ordinary(c["M"], G2)):
        return None
    name = orbits(vf, n, G1)
    k = DIST[kw.get("dist", "Cauchy")]
    asked, cand = {}, []
    for E, E2, ih in r["log"]:
        h = la.inv(EA).dot(E)
        require(np.allclose(h, np.rint(h), atol=1e-6) and np.allclose(E2, EM), "a task is no sublattice of the first and the second lattice: %s", what)
        t = hermite(np.rint(h).astype(int).tolist())
        require(t in name, "a sublattice of size %d was searched, sizes are %s: %s", round(abs(la.det(h))), vf, what)
        require(name[t] not in asked, "the sublattices %s and %s are equivalent, both were searched: %s", t, asked.get(name[t]), what)
        asked[name[t]] = t
        for w in c["par"]["words"]:
            tot = np.rint(h).astype(int).dot(w)
            cand.append((float(vdist(EA, EM, [tot], k)[0]), tot))
    miss = set(name.values()) - set(asked)
    require(not miss, "%d of %d classes of sublattices were not searched, e.g. %s: %s", len(miss), len(set(name.values())), sorted(miss)[:1], what)
    # the merged answer is the best of what the tasks have found
    if k == 2 and c["M"]["id"] != {2: 5, 3: 14}[n]:
        return len(asked) > 1
    cand.sort(key=lambda t: t[0])
    cl = brute.classes(cand, G1, G2)
    nsol = kw.get("nsol", 1)
    sols = r["sols"]
    d = [s["d"] for s in sols]
    tots = [np.asarray(s["h"]).dot(np.asarray(s["l"])) for s in sols]
    for s, t in zip(sols, tots):
        require(canonical(np.asarray(s["h"]).tolist()), "h = %s is no canonical form: %s", np.asarray(s["h"]).tolist(), what)
        record(s, EA, EM, CA, CM, t, k, what)
    want = [x[0] for x in cl[:nsol]]
    require(len(d) >= len(want) and np.allclose(d[:len(want)], want, rtol=1e-7, atol=1e-9), "the tasks found %s, the answer is %s: %s", [x[0] for x in cl[:nsol + 2]], d, what)
    require(len(d) <= nsol or d[-1] <= d[nsol - 1] * (1 + 1e-9) + 1e-9, "%d solutions for nsol = %d that are no ties (%s): %s", len(d), nsol, d, what)
    require(len(brute.classes(list(zip(d, tots)), G1, G2)) == len(d), "equivalent solutions: %s: %s", [t.tolist() for t in tots], what)
    return len(asked) > 1


def cover_case(n):
    def mk(t):
        c, ws, polls, ps, red = t
        p = {"words": [g.unimodular(n, [o for o in w if o[0] != o[1]]) for w in ws], "polls": polls}
        if ps:
            p["poolsize"] = ps
        if red:
            p["reduce"] = red
        return dict(c, par=p)
    b = (lambda: g.bravais3(lo=1.0, hi=2.0, k=20)) if n == 3 else (lambda: g.bravais2(lo=1.0, hi=2.0, k=20))
    kw = st.tuples(st.sampled_from([None, "Cauchy", "strain", "Ericksen"]), st.sampled_from([None, 1, 2, 3, 5, 9]), st.sampled_from([None, 0.05, 0.2, 0.3])).map(
        lambda t: dict((k, v) for k, v in (("dist", t[0]), ("nsol", t[1]), ("vol_th", t[2])) if v is not None))
    ratio = st.sampled_from([0.6, 1.04, 1.9, 2.06, 2.94, 3.1, 3.7, 4.2, 5.03, 6.1, 6.9, 8.1, 9.04] + ([12.1, 15.9, 18.2, 24.3, 30.1, 36.2] if n == 2 else []))
    c = st.fixed_dictionaries({"A": b(), "M": b(), "kw": kw, "ratio": ratio, "how": st.sampled_from([None, "array"]), "nodim": st.booleans(), "maxh": st.just(300)})
    return st.tuples(c, st.lists(g.ops_strategy(n, 3, 1), min_size=1, max_size=4), st.lists(st.integers(0, 5), max_size=12), st.sampled_from([None, 1, 2, 3, 8]),
                     st.sampled_from([None, None, 1, 2, 4])).map(mk)


def par():
    polls = st.lists(st.integers(0, 6), min_size=0, max_size=12)
    return st.one_of(
        st.fixed_dictionaries({"polls": polls, "poolsize": st.integers(1, 6)}),
        st.fixed_dictionaries({"polls": polls, "poolsize": st.integers(1, 6), "reduce": st.just(1)}),
        st.fixed_dictionaries({"polls": polls, "reduce": st.integers(1, 2)}),
        st.fixed_dictionaries({"reduce": st.integers(1, 2)}))


def case(n):
    b = (lambda: g.bravais3(lo=1.0, hi=2.0, k=20)) if n == 3 else (lambda: g.bravais2(lo=1.0, hi=2.0, k=20))
    it = st.sampled_from([{"miniter": 1, "maxiter": 1}, {"miniter": 1, "maxiter": 2}]) if n == 3 else st.sampled_from([{}, {"miniter": 1, "maxiter": 2}, {"miniter": 2, "maxiter": 2}])
    kw = st.tuples(it, st.sampled_from([None, "Cauchy", "strain", "Ericksen"]), st.sampled_from([None, 1, 2, 3, 4]), st.sampled_from([None, 0.05, 0.2, 0.3])).map(
        lambda t: dict(t[0], **dict((k, v) for k, v in (("dist", t[1]), ("nsol", t[2]), ("vol_th", t[3])) if v is not None)))
    ratio = st.sampled_from([0.3, 0.47, 0.93, 1.04, 1.13, 1.52, 1.88, 1.96, 2.03, 2.1, 2.36, 2.93, 3.04, 3.18, 3.6, 4.07, 4.4] +
                            ([4.8, 5.1, 5.7, 6.04, 6.4, 7.1, 8.06, 8.9, 9.2, 12.1] if n == 2 else []))
    return st.fixed_dictionaries({"A": b(), "M": b(), "kw": kw, "ratio": ratio, "par": st.lists(par(), min_size=1, max_size=1),
                                  "how": st.sampled_from([None, "array"]), "nodim": st.booleans(), "maxh": st.just(60 if n == 2 else 36)})


FACETS = [
    Facet("plane", case(2), check, 240, 5000, shards=8),
    Facet("space", case(3), check, 80, 2000, shards=8),
    Facet("cover_plane", cover_case(2), check_cover, 500, 10000),
    Facet("cover_space", cover_case(3), check_cover, 400, 8000),
    Facet("edges_plane", edge_case(2), check_cover, 120, 1500),
    Facet("edges_space", edge_case(3), check_cover, 80, 1500),
    Facet("processes", case(2).map(lambda c: dict(c, par=[{"pool": 3, "reduce": 1}, {"pool": 2}])), check, 3, 100, shards=3,
          examples=[{"A": {"dim": 2, "id": 5, "par": [1.0, 1.3, 70.0]}, "M": {"dim": 2, "id": 2, "par": [1.0, 1.5]}, "kw": {"nsol": 3, "miniter": 1, "maxiter": 2, "vol_th": 0.3}, "ratio": 5.7,
                     "par": [{"pool": 3, "reduce": 1}, {"pool": 2, "poolsize": 2}], "how": None, "nodim": False, "maxh": 60}]),
]
