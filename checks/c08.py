"""C08 - matrix groups."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a pair of finite matrix groups: closures of random generators inside the cubic, hexagonal, square or 2D "
        "hexagonal group, optionally conjugated by a rotation; non-trivial: the second group has at least two elements")
NAMES = {"CUBIC_LAUE_GROUP": g.CUBIC_ROT, "HEX_LAUE_GROUP": g.HEX_ROT, "SQUARE_GROUP": g.SQUARE_ROT, "SQUARE_EXT_GROUP": g.SQUARE_ALL,
         "HEX2D_GROUP": g.HEX2_ROT, "HEX2D_EXT_GROUP": g.HEX2_ALL}


def check_named(ctx, c):
    r = ctx.ok("named_groups", c)
    for n, want in NAMES.items():
        m = [np.asarray(x, float) for x in r[n]["mats"]]
        require(r[n]["order"] == len(m) == len(want), "%s has order %s", n, r[n]["order"])
        require(g.is_group(m), "%s is not a group", n)
        require(g.same_set(m, [np.asarray(x, float) for x in want], 1e-9), "%s has other elements", n)
    return True


def build(spec):
    """[family, generator indices, conjugation, noise]"""
    base = [np.asarray(x, float) for x in NAMES[spec["fam"]]]
    n = len(base[0])
    G = g.closure([base[i % len(base)] for i in spec["gens"]], n)
    if spec["conj"]:
        R = g.rot_of(spec["conj"]) if n == 3 else g.rodrigues([0, 0, 1], np.radians(spec["conj"][1]))[:2, :2]
        G = [R.dot(x).dot(R.T) for x in G]
    k = spec["roll"] % len(G)
    return G[k:] + G[:k]


def relation(G, H):
    """H subset of G: True/False/None (undecided by tolerance)"""
    if len(G[0]) != len(H[0]):
        return False
    dev = max(min(np.abs(h - x).max() for x in G) for h in H)
    return True if dev < 1e-9 else (False if dev > 1e-3 else None)


def check_sub(ctx, c):
    G = build(c["G"])
    if c["nameG"]:
        G = [np.asarray(x, float) for x in NAMES[c["G"]["fam"]]]
    H = G[:0]
    if c["inside"]:   # a subgroup generated by elements of G
        H = g.closure([G[i % len(G)] for i in c["H"]["gens"]], len(G[0]))
        k = c["H"]["roll"] % len(H)
        H = H[k:] + H[:k]
    else:
        H = build(c["H"])
    want = relation(G, H)
    if want is None:
        return None
    g1 = c["G"]["fam"] if c["nameG"] else [x.tolist() for x in G]
    r = ctx.ok("subgroup", {"G": g1, "H": [x.tolist() for x in H], "how": c["how"]})
    require(r["oG"] == len(G) and r["oH"] == len(H), "orders reported: %s %s", r["oG"], r["oH"])
    require(r["sub"] == want, "group of order %d in group of order %d: hassubgroup gives %s", len(H), len(G), r["sub"])
    return len(H) > 1


def spec(fams):
    return st.fixed_dictionaries({"fam": st.sampled_from(fams), "gens": st.lists(st.integers(0, 23), min_size=0, max_size=3),
                                  "conj": st.one_of(st.none(), st.none(), g.rotation_case()), "roll": st.integers(0, 23)})


def pair(fams):
    return st.fixed_dictionaries({"G": spec(fams), "H": spec(fams), "inside": st.booleans(), "nameG": st.booleans(),
                                  "how": st.sampled_from(["list", "array"])})


def check_err(ctx, c):
    ctx.raises("subgroup_err", c, ["TypeError"])
    return True


FACETS = [
    Facet("predefined", st.just({}), check_named, 1, 1, examples=[{}]),
    Facet("subgroups", st.one_of(pair(["CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP"]),
                                 pair(["SQUARE_GROUP", "SQUARE_EXT_GROUP", "HEX2D_GROUP", "HEX2D_EXT_GROUP"])), check_sub, 800, 16000),
    Facet("other_dimension", st.booleans().flatmap(lambda s: st.tuples(pair(["CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP"]), pair(["SQUARE_EXT_GROUP", "HEX2D_EXT_GROUP"])).map(
        lambda t: dict(t[s], H=t[not s]["H"], inside=False))), check_sub, 100, 2000),
    Facet("not_a_group", st.sampled_from(["list", "array", "none", "int", "str", "lattice"]).map(lambda b: {"bad": b}), check_err, 6, 6),
]
