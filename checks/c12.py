"""C12 - unit cells."""
import itertools

import numpy as np
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("cells: origin and edge vectors in 2D/3D; unit cells: a Bravais lattice and a sequence of operations (move origin, query corners "
        "or edges, copy); non-trivial: 3D cell or a history that moves the origin before a query")


def corners(o, E):
    """E: rows are the edge vectors -> {subset: point}"""
    n = len(E)
    return {s: np.array(o, float) + sum((np.array(E[i], float) for i in range(n) if s[i]), np.zeros(n)) for s in itertools.product((0, 1), repeat=n)}


def label(p, cs, tol):
    hit = [s for s, q in cs.items() if np.abs(q - p).max() < tol]
    return hit[0] if len(hit) == 1 else None


def tol_of(cs):
    pts = list(cs.values())
    d = min(np.abs(a - b).max() for i, a in enumerate(pts) for b in pts[:i])
    return min(1e-7, d / 10)


def check_corners(v, cs, what):
    v = np.asarray(v)
    n = len(next(iter(cs)))
    require(v.shape == (2 ** n, n), "%s: shape %s", what, v.shape)
    t = tol_of(cs)
    labs = [label(p, cs, t) for p in v]
    require(None not in labs, "%s: %s is no corner of the cell", what, v[labs.index(None)].tolist() if None in labs else "")
    require(len(set(labs)) == 2 ** n, "%s: corners missing", what)
    require(labs[0] == (0,) * n, "%s: does not start at the origin", what)


def check_edges(b, cs, what):
    b = np.asarray(b)
    n = len(next(iter(cs)))
    ne = n * 2 ** (n - 1)
    require(b.shape == (ne, 2, n), "%s: shape %s", what, b.shape)
    t = tol_of(cs)
    es = set()
    for p, q in b:
        s, u = label(p, cs, t), label(q, cs, t)
        require(s is not None and u is not None, "%s: ends at no corner: %s %s", what, p.tolist(), q.tolist())
        require(sum(x != y for x, y in zip(s, u)) == 1, "%s: %s-%s is no edge of the cell", what, p.tolist(), q.tolist())
        es.add(frozenset((s, u)))
    require(len(es) == ne, "%s: %d different edges", what, len(es))


def check_cell(ctx, c):
    r = ctx.ok("cell", c)
    cs = corners(c["o"], c["E"])
    check_corners(r["v"], cs, "vertex")
    check_edges(r["b"], cs, "bonds")
    return c["n"] == 3


cell_case = st.sampled_from([2, 3, 3]).flatmap(lambda n: st.fixed_dictionaries({
    "n": st.just(n), "o": st.lists(g.fl(-5, 5, 10), min_size=n, max_size=n), "E": g.wellcond(n), "how": st.sampled_from(["array", "list"])}))


ORTHO = {2: (1, 2, 3), 3: (1, 2, 3, 6, 7, 8, 9, 10, 11)}


def check_points(res, o, E, C, brav, n):
    """getConventional: the corners of the conventional cell, then the corners of the primitive one that lie in it"""
    res = np.asarray(res)
    require(res.ndim == 2 and res.shape[1] == n and len(res) > 2 ** n, "getConventional: shape %s", res.shape)
    check_corners(res[:2 ** n], corners(o, C.T), "getConventional")
    prim = corners(o, E.T)
    t = tol_of(prim)
    labs = [label(p, prim, t) for p in res[2 ** n:]]
    require(None not in labs, "getConventional at %s: %s is neither a corner of the conventional nor of the primitive cell",
            o.tolist(), res[2 ** n + labs.index(None)].tolist() if None in labs else "")
    require(len(set(labs)) == len(labs), "getConventional: a point is listed twice")
    if brav["id"] in ORTHO[n]:
        d = np.diag(C)
        want = {s for s, p in prim.items() if ((p - o > -1e-7) & (p - o < 1.05 * d)).all()}
        require(set(labs) == want, "getConventional at %s: inner points %s, expected %s", o.tolist(), sorted(labs), sorted(want))


def check_uc(ctx, c):
    r = ctx.ok("unit_cell", c)
    o = np.array(c["o"], float)
    moved = False
    nt = False
    for op, res in zip(c["ops"], r["steps"]):
        k = op[0]
        if k == "origin":
            o = np.array(op[1], float)
            moved = True
            continue
        name = op[2] if k == "copy" else k
        B = r["E"].T if name in ("getPrimitive", "getPrimitivebonds") else r["C"].T
        if name == "getConventional":
            at = o + np.array(op[1]) if k == "copy" else o
            check_points(res, at, r["E"], r["C"], c["brav"], len(o))
        elif k == "copy":
            cs = corners(o + np.array(op[1]), B)
            check_corners(res, cs, "copy of %s" % name)
        elif k.endswith("bonds"):
            check_edges(res, corners(o, B), k)
        else:
            check_corners(res, corners(o, B), k)
        nt = nt or moved
    return nt


def uc_case():
    def mk(b):
        n = b["dim"]
        v = st.lists(g.fl(-5, 5, 10), min_size=n, max_size=n)
        q = st.sampled_from(["getPrimitive", "getConventionalVex", "getPrimitivebonds", "getConventionalbonds", "getConventional"]).map(lambda x: [x])
        cp = st.tuples(st.just("copy"), v, st.sampled_from(["getPrimitive", "getConventionalVex", "getConventional"])).map(list)
        mv = st.tuples(st.just("origin"), v).map(list)
        return st.fixed_dictionaries({"brav": st.just(b), "o": v, "ops": st.lists(st.one_of(q, q, cp, mv), min_size=1, max_size=7)})
    return g.bravais().flatmap(mk)


def check_box(ctx, c):
    d = np.array(c["d"])
    r = np.asarray(ctx.ok("box", {"E": np.diag(d).tolist(), "pts": c["pts"], "n": len(d)}))
    ins = [p for p in c["pts"] if all(0 <= x < 1.05 * y for x, y in zip(p, d))]
    if not ins:
        require(r.size == 3 and not np.any(r), "no point lies in the box, got %s", r.tolist())
        return False
    require(r.shape == (len(ins), len(d)) and np.allclose(r, ins), "points in the box %s: %s, expected %s", c["d"], r.tolist(), ins)
    return len(ins) < len(c["pts"])


box_case = st.sampled_from([2, 3]).flatmap(lambda n: st.fixed_dictionaries({
    "d": st.lists(st.integers(1, 4).map(float), min_size=n, max_size=n),
    "pts": st.lists(st.lists(st.integers(-8, 24).map(lambda x: x / 4 + 0.01), min_size=n, max_size=n), min_size=1, max_size=12)}))

FACETS = [
    Facet("corners_and_edges", cell_case, check_cell, 800, 16000),
    Facet("unit_cell_history", uc_case(), check_uc, 600, 12000, examples=[
        {"brav": {"dim": 2, "id": 3, "par": [1.0, 2.0]}, "o": [0.0, 0.0], "ops": [["getPrimitivebonds"], ["origin", [1.0, 2.0]], ["getConventionalbonds"]]}]),
    Facet("points_in_a_box", box_case, check_box, 400, 8000),
]
