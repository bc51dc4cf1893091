"""C23 - integer vectors in a ball."""
import itertools
import math

from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a dimension (1-9), a radius (off the lengths of integer vectors, or an integer in 1D/2D) and, to resume, a position in the sequence and a "
        "radius not larger than the first; non-trivial: more than one shell of vectors / resumed at a vector other than the first")


def ball(r2, dim):
    """all integer vectors with |v|^2 <= r2"""
    out = [((), 0)]
    m = math.isqrt(int(math.floor(r2)))
    for _ in range(dim):
        out = [(v + (k,), s + k * k) for v, s in out for k in range(-m, m + 1) if s + k * k <= r2]
    return set(v for v, _ in out)


LIMIT = {1: 400, 2: 300, 3: 60, 4: 14, 5: 8, 6: 6, 7: 5, 8: 4, 9: 4}


def radius(c):
    return math.sqrt(c["n"] + c["frac"]) if c["frac"] else float(c["n"])


def sq(c):
    return c["n"] + c["frac"] if c["frac"] else c["n"] ** 2


def check_full(ctx, c):
    got = ctx.ok("vecgen", {"r": radius(c), "dim": c["dim"]})
    want = ball(sq(c), c["dim"])
    t = [tuple(v) for v in got]
    require(len(t) == len(set(t)), "radius %.6g, dimension %d: %d vectors, %d different ones", radius(c), c["dim"], len(t), len(set(t)))
    require(set(t) == want, "radius %.6g, dimension %d: missing %s, too many %s", radius(c), c["dim"], sorted(want - set(t))[:3], sorted(set(t) - want)[:3])
    return len(want) > 1 + 2 * c["dim"]


def rad(dim, lim=None):
    n = lim or LIMIT[dim]
    s = st.integers(0, n).flatmap(lambda k: st.sampled_from([0.5, 0.25, 0.9]).map(lambda f: {"dim": dim, "n": k, "frac": f}))
    if dim <= 2:
        s = st.one_of(s, st.integers(0, 12).map(lambda k: {"dim": dim, "n": k, "frac": 0}))
    return s


def check_resume(ctx, c):
    full = [tuple(v) for v in ctx.ok("vecgen", {"r": radius(c), "dim": c["dim"]})]
    k = c["k"] % len(full)
    n1 = {"dim": c["dim"], "n": c["n"] - min(c["less"], c["n"]), "frac": c["frac"]}
    got = [tuple(v) for v in ctx.ok("vecgen", {"r": radius(n1), "dim": c["dim"], "x0": list(full[k]), "how": c["how"]})]
    want = set(v for v in full[k:] if sum(x * x for x in v) <= sq(n1) + 1e-9)
    require(len(got) == len(set(got)), "resumed at %s with radius %.6g: repeated vectors", full[k], radius(n1))
    require(set(got) == want, "started with radius %.6g, resumed at %s with radius %.6g: missing %s, too many %s", radius(c), full[k], radius(n1),
            sorted(want - set(got))[:3], sorted(set(got) - want)[:3])
    return k > 0


def resume(dim):
    return rad(dim, min(LIMIT[dim], 40)).flatmap(lambda c: st.fixed_dictionaries({
        "dim": st.just(dim), "n": st.just(c["n"]), "frac": st.just(c["frac"]), "k": st.integers(0, 100000), "less": st.sampled_from([0, 0, 1, 2, 3, 5]),
        "how": st.sampled_from(["list", "array"])}))


FACETS = [
    Facet("whole", st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]).flatmap(rad), check_full, 300, 3000,
          examples=[{"dim": d, "n": n, "frac": 0.5} for d in (1, 2, 3, 4) for n in range(0, 5)]),
    Facet("resumed", st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6, 9]).flatmap(resume), check_resume, 600, 10000),
]
