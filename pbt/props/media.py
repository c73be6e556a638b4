"""C17 dispersion formulas."""
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from ..core import close, fail, require, same, sub


def _tables():
    def mk(n, seed, order):
        rng = np.random.default_rng(seed)
        w = np.cumsum(rng.uniform(1e-8, 3e-7, n))+2e-7
        w = [round(float(a), 12) for a in w]
        ns = [round(float(a), 6) for a in rng.uniform(1.0, 2.5, n)]
        return dict(t="table", w=w, n=ns)
    return G.builds(mk, st.integers(2, 12), G.seeds, st.booleans())


def _sell():
    def mk(B, C):
        # poles outside of the range of wavelengths
        return dict(t="sellmeier", c=B+[C[0]*0.02, C[1]*0.02, 80+C[2]*40])
    return G.builds(mk, st.lists(G.num(0, 1.5), min_size=3, max_size=3),
                    st.lists(G.num(0, 1), min_size=3, max_size=3))


def _sum():
    def mk(a0, a):
        s = [1e-2, 1e-2, 1e-3, 1e-4, 1e-5]
        return dict(t="sumita", c=[a0]+[x*y for x, y in zip(a, s)])
    return G.builds(mk, G.num(1.5, 4), st.lists(G.num(-1, 1), min_size=5,
                                                max_size=5))


def _media():
    return st.one_of(G.medium(), _tables(), _sell(), _sum(),
                     G.builds(lambda p, T, h: dict(t="air", p=p, T=T, h=h),
                              G.num(20, 120), G.num(200, 330), G.num(0, 6)))


def _build(m, how):
    """The different ways of constructing."""
    t = m["t"]
    if t == "sellmeier" and how:
        if how == 1:
            return batoid.SellmeierMedium(m["c"])
        if how == 2:
            return batoid.SellmeierMedium(np.array(m["c"]))
        return batoid.SellmeierMedium(**dict(zip(
            ["B1", "B2", "B3", "C1", "C2", "C3"], m["c"])))
    if t == "sumita" and how:
        if how == 1:
            return batoid.SumitaMedium(tuple(m["c"]))
        if how == 2:
            return batoid.SumitaMedium(np.array(m["c"]))
        return batoid.SumitaMedium(**dict(zip(
            ["A0", "A1", "A2", "A3", "A4", "A5"], m["c"])))
    if t == "table" and how:
        w, n = np.array(m["w"]), np.array(m["n"])
        if how == 1:
            big = np.stack([w, n], axis=-1)
            med = batoid.TableMedium(big[:, 0], big[:, 1])
            big[:] = -1
            return med
        if how == 2:
            d = tempfile.mkdtemp(prefix="pbt-")
            f = os.path.join(d, "t.txt")
            try:
                with open(f, "w") as fh:
                    fh.write("# wavelength n\n")
                    for a, b in zip(m["w"], m["n"]):
                        fh.write(f"{a*1e6!r} {b!r}\n")
                return batoid.TableMedium.fromTxt(f)
            finally:
                os.unlink(f)
                os.rmdir(d)
        return batoid.TableMedium(tuple(m["w"]), tuple(m["n"]))
    if t == "air" and how == 1:
        return batoid.Air(m.get("p", 69.328), m.get("T", 293.15),
                          m.get("h", 1.067))
    return G.build_medium(m)


@sub("C17", "formula", lambda: st.fixed_dictionaries(dict(
        m=_media(), how=st.integers(0, 3), seed=G.seeds,
        n=st.integers(1, 20), form=st.sampled_from(
            ["1d", "2d", "strided", "float32", "reversed", "list", "empty",
             "0d", "T"]))), 8000, rule="the medium is dispersive")
def formula(case, ctx):
    m = case["m"]
    med = _build(m, case["how"])
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    lam = rng.uniform(2.5e-7, 2.2e-6, n)
    if m["t"] == "table":
        lo, hi = m["w"][0], m["w"][-1]
        lam = rng.uniform(lo-0.2*(hi-lo), hi+0.2*(hi-lo), n)
        k = rng.random(n) < 0.3
        lam[k] = rng.choice(m["w"], k.sum())
        # not within rounding of the ends, unless exactly there
        ends = (np.abs(lam-lo) < 1e-18) | (np.abs(lam-hi) < 1e-18)
        if case["how"] == 2:
            lam[ends] = 0.5*(lo+hi)
        lam[ends] = np.where(np.abs(lam[ends]-lo) < 1e-18, lo, hi) \
            if case["how"] != 2 else lam[ends]
    if case["form"] == "float32":
        lam = lam.astype(np.float32).astype(float)
    want = O.index(m, lam)
    if m["t"] == "table":
        near = np.minimum(np.abs(lam-m["w"][0]), np.abs(lam-m["w"][-1]))
        exact = near == 0
        use = (near > 1e-16) | exact
    else:
        use = np.ones(n, bool)
    tol = 1e-11
    single = np.array([med.getN(float(w)) for w in lam])
    close(single[use], want[use], tol, f"index of {med!r}")
    if m["t"] == "table":
        out = (lam < m["w"][0]) | (lam > m["w"][-1])
        require(not np.isfinite(single[out & use]).any(),
                "a number outside of the table")
        ctx.event("outside" if out.any() else "inside")
    form = case["form"]
    if form == "1d":
        got, ref = med.getN(lam), single
    elif form == "2d":
        a = np.stack([lam, lam[::-1]])
        got, ref = med.getN(a), np.stack([single, single[::-1]])
    elif form == "T":
        a = np.stack([lam, lam[::-1]]).T
        got, ref = med.getN(a), np.stack([single, single[::-1]]).T
    elif form == "strided":
        a = np.full((n, 3), 1.0)
        a[:, 1] = lam
        got, ref = med.getN(a[:, 1]), single
    elif form == "reversed":
        got, ref = med.getN(lam[::-1]), single[::-1]
    elif form == "float32":
        got, ref = med.getN(lam.astype(np.float32)), single
    elif form == "list":
        got, ref = np.asarray(med.getN(np.array(lam.tolist()))), single
    elif form == "0d":
        got, ref = np.asarray(med.getN(np.array(lam[0]))), single[0]
    else:
        got, ref = med.getN(np.zeros(0)), np.zeros(0)
    close(np.asarray(got), ref, 1e-13, f"index of an array ({form})")
    require(np.ndim(med.getN(float(lam[0]))) == 0, "index of a scalar is not "
            "a scalar")
    if form != "float32":
        again = np.array([med.getN(float(w)) for w in lam])
        same(again, single, "repeated evaluation")
    ctx.nt(m["t"] != "const")
    ctx.event(m["t"])


@sub("C17", "shipped", lambda: st.fixed_dictionaries(dict(
        file=st.sampled_from(["silica_dispersion.txt",
                              "silicon_dispersion.txt"]),
        full=st.booleans(), seed=G.seeds)), 60,
     rule="always")
def shipped(case, ctx):
    path = os.path.join(batoid.datadir, "media", case["file"])
    tab = []
    for line in open(path):
        t = line.split("#")[0].split()
        if len(t) >= 2:
            tab.append((float(t[0]), float(t[1])))
    tab = np.array(tab)
    med = batoid.TableMedium.fromTxt(path if case["full"] else case["file"])
    rng = np.random.default_rng(case["seed"])
    i = rng.integers(0, len(tab)-1, 50)
    f = rng.uniform(0.01, 0.99, 50)
    lam = (tab[i, 0]*(1-f)+tab[i+1, 0]*f)
    close(np.asarray(med.getN(lam*1e-6)), tab[i, 1]*(1-f)+tab[i+1, 1]*f, 1e-9,
          case["file"])
    ctx.nt()


@sub("C17", "errors", lambda: st.fixed_dictionaries(dict(
        cls=st.sampled_from(["SellmeierMedium", "SumitaMedium"]),
        n=st.sampled_from([0, 2, 3, 5, 7]))), 40, rule="always")
def errors(case, ctx):
    cls = getattr(batoid, case["cls"])
    try:
        cls(*[1.0]*case["n"])
    except (ValueError, TypeError):
        ctx.nt()
    else:
        fail(f"{case['cls']} accepts {case['n']} coefficients")
    try:
        batoid.TableMedium.fromTxt("no_such_file_here.txt")
    except (IOError, FileNotFoundError):
        pass
    else:
        fail("fromTxt of a missing file does not raise")


@sub("C17", "arguments", lambda: st.fixed_dictionaries(dict(
    form=st.sampled_from(G.FORMS), both=st.booleans(), seed=G.seeds,
    n=st.integers(2, 8), ints=st.booleans())), 400,
    rule="the numbers are not handed over as a contiguous float64 array")
def medium_arguments(case, ctx):
    """Tables and coefficients in other containers; wavelengths of whole
    metres, so that every container holds the same numbers."""
    rng = np.random.default_rng(case["seed"])
    f = lambda a: G.form_of(a, case["form"])
    w = np.cumsum(rng.integers(1, 4, case["n"]))
    n = rng.integers(1, 5, case["n"])
    m = batoid.TableMedium(f(w), f(n) if case["both"] else n.astype(float))
    lam = np.concatenate([rng.uniform(w[0], w[-1], 10), w])
    close(m.getN(lam), np.interp(lam, w, n), 1e-12, f"index of {m!r}")
    close([m.getN(int(v) if case["ints"] else float(v)) for v in w], n, 1e-12,
          f"index of {m!r} at its nodes")
    c = rng.integers(1, 4, 6)
    lam = rng.uniform(4e-7, 8e-7, 5)
    for cls, t in ((batoid.SellmeierMedium, "sellmeier"),
                   (batoid.SumitaMedium, "sumita")):
        spec = dict(t=t, c=[float(v) for v in c])
        if t == "sellmeier":
            c2 = c.copy()
            c2[3:] = 0
            spec["c"] = [float(v) for v in c2]
            m = cls(f(c2))
        else:
            # no poles: only the constant and the positive powers
            c2 = c.copy()
            c2[2:] = 0
            spec["c"] = [float(v) for v in c2]
            m = cls(f(c2))
        close(m.getN(lam), O.index(spec, lam), 1e-12, f"index of {m!r}")
    ctx.nt()
    ctx.event(case["form"])
