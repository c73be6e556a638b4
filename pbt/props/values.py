"""C25 values (pickle, copy, repr, ==, hash), C27 projections, C30 lattices,
C33 inputs are not modified."""
import copy
import math
import os
import pickle
import re
import sys

import numpy as np
from hypothesis import strategies as st

import batoid
from batoid import utils

from .. import core
from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from .. import tele as T
from ..core import close, fail, require, same, sub
from .edits import same_optic

# ---------------------------------------------------------------- C27

LIMIT = dict(postel=3.0, zemax=1.5, gnomonic=20.0, stereographic=12.0,
             lambert=1.95, orthographic=0.999)


def _proj_case():
    # polar coordinates of the points, as fractions of the domain
    pt = st.one_of(
        st.just([0.0, 0.0]),
        G.builds(lambda e, m, ph: [m*10.0**e, ph], st.integers(-9, -1),
                 G.num(0.1, 1), G.num(0, 6.28)),
        G.builds(lambda m, ph: [m, ph], G.num(0, 1),
                 st.one_of(G.num(0, 6.28),
                           st.sampled_from([0, math.pi/2, math.pi,
                                            -math.pi/2]))))
    return st.fixed_dictionaries(dict(
        p=st.sampled_from(O.PROJECTIONS), pts=st.lists(pt, max_size=8),
        shape=st.integers(0, 5), scalar=st.sampled_from(["float", "np"]),
        direct=st.booleans()))


def _fns(p, direct):
    if direct:
        return (getattr(utils, p+"ToDirCos"),
                getattr(utils, "dirCosTo"+p[0].upper()+p[1:]))
    return (lambda u, v: utils.fieldToDirCos(u, v, projection=p),
            lambda a, b, c: utils.dirCosToField(a, b, c, projection=p))


def _shape(a, k):
    a = np.array(a, float)
    n = a.size
    return a.reshape([(n,), (n, 1), (1, n), (1, n, 1),
                      (n//2, 2) if n % 2 == 0 and n else (n,),
                      (2, n//2) if n % 2 == 0 and n else (n,)][k])


@sub("C27", "projection", _proj_case, 6000,
     rule="at least one point off the centre")
def projection(case, ctx):
    p = case["p"]
    lim = LIMIT[p]
    q = [[m*lim*math.cos(f), m*lim*math.sin(f)] for m, f in case["pts"]]
    q = np.array(q, float).reshape(-1, 2)
    fwd, inv = _fns(p, case["direct"])
    u, v = _shape(q[:, 0], case["shape"]), _shape(q[:, 1], case["shape"])
    u0, v0 = u.copy(), v.copy()
    a, b, c = fwd(u, v)
    ctx.nt(bool(np.any(u0)))
    want = O.dircos(u0, v0, p)
    rho = np.hypot(u0, v0)
    # the cosine rounds near the centre
    lim = 1e-12 if p != "lambert" else 1e-12+np.minimum(
        3e-8, 1e-15/np.maximum(rho, 1e-12))
    for g, w, nm in zip((a, b, c), want, ("alpha", "beta", "gamma")):
        close(g, w, lim, f"{p}: {nm}")
    close(a*a+b*b+c*c, np.ones(u.shape), 1e-12, f"{p}: length")
    same(u, u0, f"{p}: u modified")
    same(v, v0, f"{p}: v modified")
    # small angles: pointing down and along (u, v)
    small = np.hypot(u, v) < 1.4
    require(np.all(c[small] < 0) or p == "zemax", f"{p}: points up")
    for g, w, nm in ((a, u, "u"), (b, v, "v")):
        require(np.all(g*np.sign(w) >= 0), f"{p}: sign along {nm}")
        k = (np.abs(w) > 1e-300) & (rho > 1e-6)
        require(np.all((g*np.sign(w))[k] > 0), f"{p}: zero along {nm}")
    a0, b0, c0 = a.copy(), b.copy(), c.copy()
    uu, vv = inv(a, b, c)
    tol = 3e-8 if p in ("postel", "stereographic", "lambert") else 1e-12
    # far from the centre the round trip is accurate; near it the cosine
    # rounds to one
    t = np.where(rho > 1e-2, 1e-9, tol) if tol > 1e-9 else tol
    scale = np.maximum(1, rho**2)
    if p == "postel":
        scale = scale/np.maximum(0.02, np.abs(np.sin(rho)))
        scale = np.where(rho < 1, 1, scale)
    if p == "orthographic":
        scale = 1.0
    if p == "lambert":
        scale = 1/np.maximum(1e-3, 1-(rho/2)**2)
    require(np.shape(uu) == u.shape and np.shape(vv) == u.shape,
            f"{p}: shape of the inverse")
    require(np.all(np.abs(uu-u) <= t*scale)
            and np.all(np.abs(vv-v) <= t*scale),
            lambda: f"{p}: round trip of {u!r}, {v!r} gives {uu!r}, {vv!r}")
    for g, w in zip((a, b, c), (a0, b0, c0)):
        same(g, w, f"{p}: direction cosines modified")
    # one by one
    conv = float if case["scalar"] == "float" else np.float64
    for i in range(len(q)):
        s = fwd(conv(q[i, 0]), conv(q[i, 1]))
        for g, w, nm in zip(s, (a0, b0, c0), "abc"):
            require(np.ndim(g) == 0, f"{p}: scalar input, {g!r}")
            close(float(g), w.ravel()[i], 1e-14, f"{p}: scalar/array {nm}")
        back = inv(*[conv(x) for x in s])
        for g, w in zip(back, (uu, vv)):
            close(float(g), w.ravel()[i], 1e-7 if tol > 1e-9 else 1e-12,
                  f"{p}: scalar/array inverse",
                  rtol=1e-7 if tol > 1e-9 else 1e-12)
    # results are new arrays
    a += 1
    b += 1
    same(u, u0, f"{p}: result aliases u")
    same(v, v0, f"{p}: result aliases v")
    uu += 1
    vv += 1
    same(c, c0, f"{p}: result of the inverse aliases its input")
    same(a, a0+1, f"{p}: result of the inverse aliases its input")
    same(b, b0+1, f"{p}: result of the inverse aliases its input")


@sub("C27", "inverse", lambda: st.fixed_dictionaries(dict(
    p=st.sampled_from(O.PROJECTIONS), seed=G.seeds, n=st.integers(1, 8),
    up=st.booleans(), exact=st.lists(st.sampled_from([0, 0, 0, 1, 2, 3]),
                                     max_size=8))), 2000,
     rule="at least two directions")
def inverse(case, ctx):
    """dirCosToField on directions given directly."""
    p = case["p"]
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    ctx.nt(n > 1)
    maxang = dict(postel=2.9, stereographic=2.6, lambert=2.9).get(p, 1.4)
    d = G.cone_dirs(rng, n, maxang if case["up"] else 1.0, -1.0)
    for i, e in enumerate(case["exact"][:n]):
        if e:
            # straight down, with the rounding a normalization may leave
            d[i] = [0, 0, [-1, -1-2e-16, -1+1e-16][e-1]]
    a, b, c = d.T.copy()
    u, v = utils.dirCosToField(a, b, c, projection=p)
    require(np.all(np.isfinite(u)) and np.all(np.isfinite(v)),
            f"{p}: not finite for {d.tolist()}: {u}, {v}")
    want = O.dircos(u, v, p)
    for g, w in zip((a, b, c), want):
        close(w, g, 5e-8, f"{p}: dirCosToField")


@sub("C27", "unknown", lambda: st.fixed_dictionaries(dict(
    p=st.sampled_from(["Postel", "tan", "", "gnomonics", "arc", "zemaxx",
                       "ortho"]),
    u=G.num(-0.1, 0.1), v=G.num(-0.1, 0.1))), 60,
     rule="an unknown projection is requested")
def unknown_projection(case, ctx):
    ctx.nt()
    for f in (lambda: utils.fieldToDirCos(case["u"], case["v"],
                                          projection=case["p"]),
              lambda: utils.dirCosToField(0.0, 0.1, -math.sqrt(0.99),
                                          projection=case["p"])):
        try:
            r = f()
        except ValueError:
            continue
        fail(f"projection {case['p']!r} accepted: {r}")


# ---------------------------------------------------------------- C30

def _lat_case():
    def mk(shape, seed, kind, pv):
        return dict(shape=shape, seed=seed, kind=kind, pv=pv)
    return G.builds(
        mk, st.lists(st.integers(1, 9), min_size=1, max_size=4), G.seeds,
        st.sampled_from(["float", "int", "complex", "masked"]),
        st.sampled_from(["array", "list", "int"]))


@sub("C30", "coords", _lat_case, 4000,
     rule="more than one element, not all sizes equal or more than two "
          "dimensions")
def coords(case, ctx):
    shape = tuple(case["shape"])
    d = len(shape)
    rng = np.random.default_rng(case["seed"])
    pv = rng.uniform(-2, 2, (d, d))
    if case["pv"] == "int":
        pv = rng.integers(-3, 4, (d, d))
    arr = rng.uniform(-1, 1, shape)
    if case["kind"] == "int":
        arr = rng.integers(0, 9, shape)
    elif case["kind"] == "complex":
        arr = arr+1j*rng.uniform(-1, 1, shape)
    elif case["kind"] == "masked":
        arr = np.ma.masked_array(arr, mask=rng.random(shape) < 0.3)
    lat = batoid.Lattice(arr, pv.tolist() if case["pv"] == "list" else pv)
    ctx.nt(len(set(shape)) > 1 or d > 2)
    got = lat.coords
    require(np.shape(got) == shape+(d,), f"shape {np.shape(got)}")
    want = np.zeros(shape+(d,))
    for idx in np.ndindex(*shape):
        for k in range(d):
            want[idx] += (idx[k]-math.floor(shape[k]/2))*np.asarray(
                pv[k], float)
    close(got, want, 1e-12, "coords")
    central = tuple(s//2 for s in shape)
    close(got[central], np.zeros(d), 1e-12, "coordinates of the central element")
    require(lat.array.shape == shape and np.array_equal(lat.array, arr),
            "array changed")
    same(lat.primitiveVectors, pv, "primitive vectors changed")
    same(lat.coords, got, "coords read again")


@sub("C30", "wide", lambda: st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(100, 1000), st.integers(30000, 80000),
                st.sampled_from([255, 256, 257, 65535, 65536, 65537])),
    pos=st.integers(0, 2), d=st.integers(1, 3), big=st.booleans(),
    pv=st.sampled_from(["float", "int", "int8", "int32", "float32"]),
    seed=G.seeds)), 320, rule="a size above 127")
def lattice_wide(case, ctx):
    """Large lattices."""
    d, n = case["d"], case["n"]
    rng = np.random.default_rng(case["seed"])
    shape = [int(i) for i in rng.integers(1, 4, d)]
    shape[case["pos"] % d] = n
    if not case["big"]:
        n = shape[case["pos"] % d] = min(n, 1000)
    ctx.nt(n > 127)
    pv = rng.uniform(-2, 2, (d, d))
    if case["pv"] != "float":
        pv = (50*pv).astype(case["pv"])
    lat = batoid.Lattice(np.zeros(shape, np.float32), pv)
    want = np.zeros(tuple(shape)+(d,))
    for k in range(d):
        i = np.arange(shape[k])-float(shape[k]//2)
        i = i.reshape([-1 if j == k else 1 for j in range(d)]+[1])
        want = want+i*np.asarray(pv[k], float)
    close(lat.coords, want, 1e-12, "coords", rtol=1e-12)


@sub("C30", "errors", lambda: st.fixed_dictionaries(dict(
    d=st.integers(1, 4), n=st.integers(0, 5), m=st.integers(1, 5),
    seed=G.seeds)), 600, rule="the numbers do not match")
def lattice_errors(case, ctx):
    d, n, m = case["d"], case["n"], case["m"]
    rng = np.random.default_rng(case["seed"])
    arr = rng.uniform(-1, 1, (2,)*d)
    pv = rng.uniform(-1, 1, (n, m))
    if n == 0:
        return
    ok = n == d and m == d
    ctx.nt(not ok)
    try:
        lat = batoid.Lattice(arr, pv)
    except ValueError:
        require(not ok, "matching primitive vectors rejected")
        return
    require(ok, f"{n} vectors of {m} components accepted for {d} dimensions")
    require(np.shape(lat.coords) == (2,)*d+(d,), "coords")


# ---------------------------------------------------------------- C25

def _lattice_spec():
    return st.fixed_dictionaries(dict(
        shape=st.lists(st.integers(1, 4), min_size=1, max_size=3),
        seed=G.seeds, d=st.just(0.0)))


def _coord(): return G.frame(5.0, 2)


def _rays_spec():
    return G.builds(lambda s: dict(s, tw=None), G.rayspec(6))


def _value():
    return st.one_of([
        G.builds(lambda s: dict(k="surface", s=s), G.surface()),
        G.builds(lambda s: dict(k="surface", s=s), G.surface()),
        G.builds(lambda s: dict(k="medium", s=s), G.medium()),
        G.builds(lambda s: dict(k="obsc", s=s), G.obsc(1.0, 2)),
        G.builds(lambda s: dict(k="obsc", s=s), G.obsc(1.0, 2)),
        G.builds(lambda a, b: dict(k="coating", s=dict(r=a, t=b)),
                 G.num(0, 1), G.num(0, 1)),
        G.builds(lambda s: dict(k="cs", s=s), _coord()),
        G.builds(lambda a, b: dict(k="ct", s=dict(a=a, b=b)), _coord(),
                 _coord()),
        G.builds(lambda s: dict(k="rays", s=s), _rays_spec()),
        G.builds(lambda s: dict(k="lattice", s=s), _lattice_spec()),
    ])


def _np_scalars(x):
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, dict):
        return {k: v if k in ("seed", "nx", "ny") else _np_scalars(v)
                for k, v in x.items()}
    if isinstance(x, list):
        return [_np_scalars(v) for v in x]
    return x


def _tweaked_bicubic(s):
    xs, ys, zs, dx, dy, dxy = [np.array(a, float) for a in O.bicubic_table(s)]
    tab = [zs, dx, dy, dxy]
    k, i, j = s["tweak"]
    if s.get("deriv") == "default":
        k = 0
    tab[k][j % len(ys), i % len(xs)] += 0.125
    if s.get("deriv") == "default":
        return batoid.Bicubic(xs, ys, zs, nanpolicy=s.get("nan", "nan"))
    return batoid.Bicubic(xs, ys, *tab, nanpolicy=s.get("nan", "nan"))


def make(k, s):
    if k == "surface":
        if s["t"] == "bicubic" and "tweak" in s:
            return _tweaked_bicubic(s)
        if s["t"] == "sum":
            return batoid.Sum([make("surface", i) for i in s["items"]])
        return G.build_surface(s)
    if k == "medium":
        return G.build_medium(s)
    if k == "obsc":
        return G.build_obsc(s)
    if k == "coating":
        return batoid.SimpleCoating(s["r"], s["t"])
    if k == "cs":
        return G.coordsys(s)
    if k == "ct":
        return batoid.CoordTransform(G.coordsys(s["a"]), G.coordsys(s["b"]))
    if k == "rays":
        rv = G.build_rays(s)
        if s.get("tw") and len(rv):
            nm, i = s["tw"]
            a = getattr(rv, nm)
            i = i % len(a)
            a = a.copy()
            a[i] = (not a[i]) if a.dtype == bool else a[i]+0.125
            rv = batoid.RayVector(**{n: a if n == nm else getattr(rv, n)
                                     for n in RAY}, coordSys=rv.coordSys)
        return rv
    if k == "lattice":
        rng = np.random.default_rng(s["seed"])
        d = len(s["shape"])
        arr = rng.uniform(-1, 1, s["shape"])
        pv = rng.uniform(-1, 1, (d, d))
        if s["d"] > 0:
            arr.flat[s["i"] % arr.size] += s["d"]
        elif s["d"] < 0:
            pv.flat[s["i"] % pv.size] += s["d"]
        return batoid.Lattice(arr, pv)
    raise ValueError(k)


RAY = ["x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux",
       "vignetted", "failed"]


def _probe_radius(s):
    return 0.6*G.rmax(s)


def behave(k, obj, s, full):
    """Numbers the object computes (list of arrays)."""
    rng = np.random.default_rng(11)
    if k == "surface":
        x, y = G.disk(rng, 6, _probe_radius(s))
        # away from the lines of a bicubic grid, where rounding decides
        return [obj.sag(x, y), obj.normal(x, y)]
    if k == "medium":
        return [obj.getN(np.array([350e-9, 500e-9, 633e-9, 900e-9]))]
    if k == "obsc":
        x, y = rng.uniform(-1.5, 1.5, (2, 60))
        _, m = O.contains(s, x, y)
        ok = m > 1e-5
        return [obj.contains(x[ok], y[ok]).astype(float)]
    if k == "coating":
        return [np.array(obj.getCoefs(500e-9, 0.5))]
    if k == "cs":
        p = rng.uniform(-1, 1, (5, 3))
        return [obj.toGlobal(p), obj.toLocal(p)]
    if k == "ct":
        p = rng.uniform(-1, 1, (3, 5))
        return [obj.applyForwardArray(*p), obj.applyReverseArray(*p)]
    if k == "rays":
        return [np.asarray(getattr(obj, a), float) for a in RAY]+[
            obj.coordSys.origin, obj.coordSys.rot]
    if k == "lattice":
        return [np.asarray(obj.array), np.asarray(obj.primitiveVectors),
                obj.coords]


NS = {k: getattr(np, k) for k in dir(np) if not k.startswith("_")}
NS.update({k: getattr(batoid, k) for k in dir(batoid)
           if not k.startswith("_")})
NS["np"] = np
NS["batoid"] = batoid


def _equal(a, b, msg, hashable=True):
    require(a == b, f"{msg}: not equal: {a!r} and {b!r}")
    require(b == a, f"{msg}: not equal the other way")
    require(not (a != b), f"{msg}: == and != both true")
    require(type(a) is type(b), f"{msg}: types {type(a)}, {type(b)}")
    if hashable:
        require(hash(a) == hash(b), f"{msg}: equal but hashes differ: {a!r}")


def _unequal(a, b, msg):
    require(not (a == b) and not (b == a) and a != b and b != a,
            lambda: f"{msg}: {a!r} equals {b!r}")


OTHERS = None


def _others():
    global OTHERS
    if OTHERS is None:
        OTHERS = [
            1.0, None, "x", (), batoid.Plane(), batoid.Paraboloid(1.0),
            batoid.Sphere(1.0), batoid.Quadric(1.0, 0.0),
            batoid.ConstMedium(1.0), batoid.ObscCircle(1.0),
            batoid.SimpleCoating(0.0, 1.0), batoid.CoordSys(),
            batoid.Tilted(0.0, 0.0), batoid.ObscRay(1.0, 0.0),
            batoid.CoordTransform(batoid.CoordSys(), batoid.CoordSys()),
            batoid.Lattice(np.zeros(2), [[1.0]]),
            batoid.RayVector([0.], [0.], [0.], [0.], [0.], [1.]),
            batoid.Mirror(batoid.Plane(), name="M"),
            batoid.SumitaMedium(*G.SUMITA[0]),
            batoid.SellmeierMedium(*G.SUMITA[0]), batoid.Air()]
    return OTHERS


NOLEAF = {"seed", "nx", "ny", "amp", "poly", "n", "flags", "shape", "x0b"}


def _leaves(s, path=()):
    """Numeric leaves of a specification whose change must change the value."""
    out = []
    if isinstance(s, dict):
        bic = s.get("t") == "bicubic"
        for k, v in s.items():
            if k in ("nan", "deriv", "tw", "tweak") or isinstance(v, str):
                continue
            if k in NOLEAF and not (k == "n" and s.get("t") in (
                    "const", "table")):
                continue
            if bic and k not in ("x0", "y0", "dx", "dy"):
                continue
            out += _leaves(v, path+(k,))
    elif isinstance(s, list):
        for i, v in enumerate(s):
            out += _leaves(v, path+(i,))
    elif isinstance(s, (int, float)) and not isinstance(s, bool):
        out.append(path)
    return out


def _get(s, path):
    for p in path:
        s = s[p]
    return s


def _set(s, path, v):
    _get(s, path[:-1])[path[-1]] = v


PAIRS = {"x0": "y0", "y0": "x0", "dx": "dy", "dy": "dx", "x": "y", "y": "x",
         "w": "h", "h": "w", "tx": "ty", "ty": "tx", "xo": "yo", "yo": "xo",
         "r": "t", "t": "r"}
SIGNED = {"x0", "y0", "x", "y", "xo", "yo", "coefs", "coef", "o", "th",
          "tx", "ty", "theta", "k", "conic"}


def _partner(s, lv, p):
    """A value which can be exchanged with the one at p, or None."""
    last = p[-1]
    if isinstance(last, int):
        for d in (1, -1):
            q = p[:-1]+(last+d,)
            if q in lv and "rot" not in p and "w" not in p[:-1]:
                return q
        return None
    q = p[:-1]+(PAIRS.get(last),)
    return q if q in lv else None


def _signed(k, s, p):
    return k in ("surface", "obsc", "cs", "ct") and any(
        i in SIGNED for i in p if isinstance(i, str)) and "rot" not in p


def _structural(k, s, path=()):
    """Other changes: (path of the dict, what)."""
    out = []
    if isinstance(s, dict):
        t = s.get("t")
        if k == "surface" and t == "bicubic":
            out += [(path, "tweak"), (path, "nan")]
        if t == "asphere":
            out += [(path, "append coefs"), (path, "imin")]
            if s["coefs"]:
                out.append((path, "drop coefs"))
        if t == "zernike":
            out.append((path, "append coef"))
        if t == "sum":
            out += [(path, "plane"), (path, "swap")]
            if len(s["items"]) > 1:
                out.append((path, "pop"))
        if t == "polygon" and len(s["xs"]) > 3:
            out.append((path, "vertex"))
        if t == "not":
            out.append((path, "unwrap"))
        if t in ("or", "and"):
            out.append((path, "flip"))
            if len(s["items"]) > 1:
                out.append((path, "pop"))
        if k == "obsc":
            out.append((path, "wrap"))
        if t in ("sphere", "parab"):
            out.append((path, "kind"))
        if t == "quadric":
            out.append((path, "asph"))
        if t in ("sellmeier", "sumita"):
            out.append((path, "form"))
        for key, v in s.items():
            out += _structural(k, v, path+(key,))
    elif isinstance(s, list):
        for i, v in enumerate(s):
            out += _structural(k, v, path+(i,))
    return out


def _wrapset(s, path, new):
    if not path:
        return new
    _set(s, path, new)
    return s


def mutate(k, spec, how):
    """-> (changed spec, description) or None."""
    s = copy.deepcopy(spec)
    if k == "rays":
        if spec["n"] == 0 or how % 5 == 0:
            s["cs"]["o"][how % 3] += 0.125
            return s, "coordSys"
        s["tw"] = [RAY[how % len(RAY)], how//16]
        return s, f"{s['tw']}"
    if k == "lattice":
        s["d"] = 0.25 if how % 2 else -0.25
        s["i"] = how//2
        return s, f"{s['d']}, {s['i']}"
    lv = _leaves(s)
    sv = _structural(k, s)
    n = len(lv)+len(sv)
    if n == 0:
        return None
    h = how % n
    named = [i for i in lv if i[-1] in PAIRS]
    if named and how % 3 == 0:
        # not only the many elements of lists
        lv, n = named, len(named)
        h = how//3 % n
    if h < len(lv):
        p = lv[h]
        v = _get(s, p)
        near = (how//n//3) % 6
        q = _partner(s, lv, p)
        if near == 0 and q is not None and _get(s, q) != v:
            # two values of the same kind exchanged
            _set(s, p, _get(s, q))
            _set(s, q, v)
            return s, f"{p} and {q} exchanged: {v}, {_get(s, p)}"
        if p[-1] == "imin":
            new = v+1
        elif p[-1] == "Ri":
            new = v*0.5+0.01
        elif near == 1 and _signed(k, s, p) and v != 0:
            new = -v
        elif near == 2 and "rot" not in p and abs(v) > 1e-6 and not (
                isinstance(v, int)):
            new = v*(1+1e-9)
        elif v != 0 and abs(v) < 1e-3:
            new = v*1.125
        else:
            new = v+0.125
        _set(s, p, new)
        return s, f"{p}: {v} -> {new}"
    p, what = sv[h-len(lv)]
    d = _get(s, p)
    if what == "tweak":
        d["tweak"] = [how % 4, how//4, how//32]
    elif what == "nan":
        d["nan"] = "zero" if d.get("nan", "nan") == "nan" else "nan"
    elif what == "append coefs":
        d["coefs"].append(1e-3)
    elif what == "drop coefs":
        d["coefs"].pop()
    elif what == "imin":
        d["imin"] = d.get("imin", 2)+1
    elif what == "append coef":
        d["coef"].append(1e-3)
    elif what == "plane":
        d["items"].append(dict(t="plane"))
    elif what == "swap":
        if d["items"] == d["items"][::-1]:
            return None
        # order of a sum is part of the value (documented in __eq__)
        d["items"] = d["items"][::-1]
    elif what == "pop":
        d["items"].pop()
    elif what == "vertex":
        d["xs"].pop()
        d["ys"].pop()
    elif what == "unwrap":
        s = _wrapset(s, p, d["item"])
    elif what == "flip":
        d["t"] = "and" if d["t"] == "or" else "or"
    elif what == "wrap":
        s = _wrapset(s, p, dict(t="not", item=copy.deepcopy(d)))
    elif what == "kind":
        d["t"] = "parab" if d["t"] == "sphere" else "sphere"
    elif what == "asph":
        d.update(t="asphere", coefs=[], imin=2)
    elif what == "form":
        d["t"] = "sumita" if d["t"] == "sellmeier" else "sellmeier"
    return s, f"{p}: {what}"


NUMBER = re.compile(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?")


def same_print(a, b, msg):
    """Two printed forms are the same up to the eight digits of arrays (numpy
    may choose another notation for the rounded numbers)."""
    ta, tb = (re.sub(r"\s", "", NUMBER.sub("#", t)).replace("-", "")
              for t in (a, b))
    na, nb = (np.array([float(v) for v in NUMBER.findall(t)])
              for t in (a, b))
    require(ta == tb, lambda: f"{msg}: {a} instead of {b}")
    close(na, nb, 2e-8, msg, rtol=2e-8)


def _spread(i):
    """Small integers are drawn too often to choose evenly with them."""
    return i*2654435761 % 2**32 >> 8


def _as_printed(s):
    """The description s with the digits of its arrays that numpy prints."""
    if isinstance(s, dict):
        return {k: _as_printed(v) for k, v in s.items()}
    if isinstance(s, list):
        if s and isinstance(s[0], (dict, str)):
            return [_as_printed(v) for v in s]
        try:
            a = np.array(s, dtype=float)
        except (TypeError, ValueError):
            return s
        if a.size and a.size <= 1000:
            return eval(repr(a), {"array": np.array, "nan": np.nan,
                                  "inf": np.inf}).tolist()
    return s


@sub("C25", "values", lambda: st.fixed_dictionaries(dict(
    v=_value(), np=st.sampled_from([False, False, True]),
    how=st.lists(st.integers(0, 2**16).map(_spread), min_size=5,
                 max_size=5))), 1600,
     rule="the object has defining values (not a plane)")
def values(case, ctx):
    k, s = case["v"]["k"], case["v"]["s"]
    a = make(k, _np_scalars(s) if case["np"] and k != "rays" and
             k != "lattice" else s)
    ctx.event(k if k not in ("surface", "obsc", "medium") else
              f"{k}/{s['t']}")
    ctx.nt(s != dict(t="plane"))
    hb = k != "rays"
    b = make(k, s)
    _equal(a, a, "itself", hb)
    _equal(a, b, "made twice from the same values", hb)
    if k == "surface" and s["t"] == "bicubic" and "tweak" not in s:
        # the policy may be written in capitals
        _equal(a, make(k, dict(s, nan=s.get("nan", "nan").upper())),
               "policy in capitals", hb)
    r0 = repr(a)
    ref = behave(k, a, s, True)
    for msg, c in ([(f"pickle protocol {p}", pickle.loads(pickle.dumps(a, p)))
                    for p in range(2, pickle.HIGHEST_PROTOCOL+1)]
                   + [("copy", copy.copy(a)), ("deepcopy", copy.deepcopy(a))]
                   + ([("copy()", a.copy())] if hasattr(a, "copy") else [])):
        _equal(a, c, msg, hb)
        require(repr(c) == r0, f"{msg}: repr {c!r} instead of {r0}")
        for g, w in zip(behave(k, c, s, True), ref):
            close(g, w, 1e-13, f"{msg}: behaviour of {r0[:100]}", rtol=1e-13)
    # twice pickled
    _equal(a, pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(a)))),
           "pickled twice", hb)
    # printed form
    e = eval(r0, dict(NS))
    require(type(e) is type(a), f"repr evaluates to {type(e)}")
    same_print(repr(e), r0, "repr of eval(repr)")
    slack = [0.0]*len(ref)
    if k == "surface":
        # arrays are printed to eight digits, which counts for steep terms
        slack = [2*np.abs(np.nan_to_num(np.asarray(w) - np.asarray(p)))
                 for w, p in zip(ref, behave(k, make(k, _as_printed(s)), s,
                                             False))]
    for g, w, d in zip(behave(k, e, s, False), ref, slack):
        close(g, w, 2e-7 + d, f"evaluated repr: behaviour of {r0[:100]}",
              rtol=2e-7)
    if k in ("coating", "cs") or (k == "medium" and s["t"] != "table") or (
            k == "surface" and s["t"] in (
                "plane", "tilted", "parab", "sphere", "quadric")) or (
            k == "obsc" and s["t"] in ("circle", "annulus", "rect", "ray")):
        if k != "cs":
            _equal(a, e, "evaluated repr", hb)
    # other types and values
    for o in _others():
        if type(o) is not type(a):
            _unequal(a, o, "other type")
    for h in case["how"]:
        m = mutate(k, s, h)
        if m is None:
            continue
        ms, what = m
        if k == "obsc" and _canon(ms) == _canon(s):
            continue
        c = make(k, ms)
        _unequal(a, c, f"changed {what}")
        ctx.event("changed" if not what.startswith("(") else
                  "exchanged" if "exch" in what else "number changed")
    # numbers that Python gives the same hash
    lv = [p for p in _leaves(s) if _signed(k, s, p)] if k in (
        "surface", "obsc", "cs", "ct") else []
    if lv:
        p = lv[case["how"][0] % len(lv)]
        two = []
        for v in (-1.0, -2.0):
            c = copy.deepcopy(s)
            _set(c, p, v)
            two.append(make(k, c))
        _unequal(*two, f"{p}: -1 and -2")
    # order of the members of a union does not matter
    if k == "obsc" and s["t"] in ("or", "and"):
        _equal(a, make(k, dict(s, items=s["items"][::-1])),
               "members reversed")


def _canon(s):
    if isinstance(s, dict):
        d = {k: _canon(v) for k, v in s.items()}
        if s.get("t") in ("or", "and"):
            d["items"] = sorted(d["items"], key=repr)
        return d
    if isinstance(s, list):
        return [_canon(i) for i in s]
    return s


# optics

def _set_change(nd, how, rng):
    """Change one thing that defines the optic; returns a description."""
    allnodes = [n for _, n in S.full_names(nd)]
    n = allnodes[how % len(allnodes)]
    kinds = ["name", "origin", "rot", "n1", "n2"]
    if n.items is None:
        kinds += ["surf", "obsc", "surf", "obsc", "kind"]
        if n.kind == "screen":
            kinds += ["screen"]*2
    else:
        kinds += ["drop", "swap", "group"]
    what = kinds[(how//7) % len(kinds)]
    if what == "name":
        n.name += "x"
    elif what == "origin":
        n.frame = O.Frame(n.frame.o+np.array([0, 0.125, 0]), n.frame.rot)
    elif what == "rot":
        n.frame = O.Frame(n.frame.o, n.frame.rot@O.rot_axis("x", 0.3))
    elif what in ("n1", "n2"):
        setattr(n, what, dict(t="const", n=1.4375))
        if n.items is None and n.kind == "screen":
            n.n1 = n.n2 = dict(t="const", n=1.4375)
    elif what == "surf":
        m = mutate("surface", n.surf, how//31)
        if m is None or (m[0]["t"] == "bicubic" and "tweak" in m[0]):
            n.surf = dict(t="parab", R=3.3)
        elif "tweak" in repr(m[0]):
            n.surf = dict(t="parab", R=3.3)
        else:
            n.surf = m[0]
    elif what == "screen":
        n.screen = dict(t="parab", R=33.0)
    elif what == "obsc":
        n.obsc = dict(t="circle", r=0.4321, x=0.0, y=0.0) \
            if n.obsc is None else None
    elif what == "kind":
        if n.kind == "screen":
            n.kind = "iface"
        else:
            n.kind = {"mirror": "det", "det": "baffle", "baffle": "refr",
                      "refr": "iface", "iface": "mirror"}[n.kind]
    elif what == "drop":
        if len(n.items) == 1:
            n.name += "x"
        else:
            n.items = n.items[:-1]
            n.lens = False if n.lens else n.lens
    elif what == "swap":
        if len(n.items) == 1:
            n.name += "x"
        else:
            n.items = n.items[::-1]
    elif what == "group":
        if n.lens or len(n.items) != 2 or n.items[0].n2 != n.items[1].n1:
            n.lens = False
            n.items = n.items+[copy.deepcopy(n.items[0])]
            n.items[-1].name = "extra1"
        else:
            n.lens = True
    for m in allnodes:               # a Lens needs two items sharing a glass
        if m.items is not None and m.lens and (
                len(m.items) != 2 or m.items[0].n2 != m.items[1].n1):
            m.lens = False
    return f"{n.name}: {what}"


@sub("C25", "optics", lambda: st.fixed_dictionaries(dict(
    sys=S.system(S.element(), 1, 4), how=st.lists(
        st.integers(0, 10**5), min_size=3, max_size=3))), 320,
     rule="more than one element")
def optics(case, ctx):
    nd = S.expand(case["sys"])
    a = S.build(nd)
    b = S.build(nd)
    flat = S.flatten(nd, True)
    ctx.nt(len(flat) > 1)
    _equal(a, b, "made twice")
    a.itemDict                       # cached attributes must not matter
    hash(a)
    r0 = repr(a)
    for msg, c in ((f"pickle", pickle.loads(pickle.dumps(a))),
                   ("deepcopy", copy.deepcopy(a)), ("copy", copy.copy(a)),
                   ("pickled before use", pickle.loads(pickle.dumps(b)))):
        _equal(a, c, msg)
        require(repr(c) == r0, f"{msg}: repr")
        same_optic(c, nd, msg)
        for nm in a.itemDict:
            require(c.itemDict[nm] == a.itemDict[nm], f"{msg}: {nm}")
        m = S.make_rays(case["sys"], 4)
        x = S.to_rv(m)
        y = S.to_rv(m)
        a.trace(x)
        c.trace(y)
        for nm in RAY:
            close(np.asarray(getattr(y, nm), float),
                  np.asarray(getattr(x, nm), float), 1e-12, f"{msg}: trace")
    e = eval(r0, dict(NS))
    require(type(e) is type(a), "repr: type")
    same_print(repr(e), r0, "repr of eval(repr)")
    if not any(n.skip for _, n in S.full_names(nd)):
        # skip is not printed
        m = S.make_rays(case["sys"], 4)
        ok = ~m.fail
        x, y = S.to_rv(m), S.to_rv(m)
        a.trace(x)
        e.trace(y)
        good = ok & ~x.failed & ~y.failed
        close(y.r[good], x.r[good], 1e-5, "evaluated repr: traced positions",
              rtol=1e-5)
        ctx.event("repr traced")
    for o in _others():
        _unequal(a, o, "other type")
    rng = np.random.default_rng(case["how"][0])
    for h in case["how"]:
        nd2 = copy.deepcopy(nd)
        before = repr([n.__dict__ for _, n in S.full_names(nd2)])
        what = _set_change(nd2, h, rng)
        c = S.build(nd2)
        _unequal(a, c, f"changed {what}")
    # interfaces on their own
    for _, n in S.full_names(nd):
        x, y = S.build(n), S.build(n)
        _equal(x, y, n.name)


@sub("C25", "telescopes", lambda: T.files(T.FILES), 24,
     rule="a shipped telescope")
def telescope_values(rel, ctx):
    a = batoid.Optic.fromYaml(rel.split("/")[1])
    b = batoid.Optic.fromYaml(rel.split("/")[1])
    ctx.nt()
    _equal(a, b, f"{rel} loaded twice")
    c = pickle.loads(pickle.dumps(a))
    _equal(a, c, f"{rel} pickled")
    same_optic(c, T.node(rel), f"{rel} pickled")
    d = copy.deepcopy(a)
    _equal(a, d, f"{rel} deep copied")
    same_optic(d, T.node(rel), f"{rel} copied")
    r0 = repr(a)
    same_print(repr(eval(r0, dict(NS))), r0, f"{rel}: repr")


# ---------------------------------------------------------------- C33

def _scramble(x, rng):
    """Change a mutable argument in place; -> True if something changed."""
    if isinstance(x, np.ndarray):
        if x.size == 0 or not x.flags.writeable:
            return False
        if x.dtype == bool:
            x[...] = ~x
        else:
            x += np.asarray(rng.choice([1, -2, 3]), x.dtype)
        return True
    if isinstance(x, list):
        if x and isinstance(x[0], (int, float)):
            for i in range(len(x)):
                x[i] += 1.5
            if rng.random() < 0.3:
                x.append(9.0)
            return True
        if x and rng.random() < 0.5:
            x.pop()
        else:
            x.extend(x[:1])
        return bool(x)
    if isinstance(x, (tuple,)):
        return any([_scramble(i, rng) for i in x])
    if isinstance(x, dict):
        return any([_scramble(i, rng) for i in x.values()])
    return False


def _seq(v, how):
    """A sequence argument: list, array, Fortran / strided array, int array."""
    if how == "list":
        return np.asarray(v).tolist()
    a = np.array(v, float)
    if how == "strided":
        b = np.zeros(tuple(2*n for n in a.shape))
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if how == "fortran":
        return np.asfortranarray(a)
    return a


def _rot3(rng):
    return O.rot_list([["x", rng.uniform(-1, 1)], ["z", rng.uniform(-3, 3)],
                       ["y", rng.uniform(-1, 1)]])


def _ctor_list():
    """name -> f(rng, seq) giving (args, kwargs, function, observe)."""
    D = {}

    def surf_obs(r):
        def f(s):
            x, y = G.disk(np.random.default_rng(3), 6, r)
            out = [s.sag(x, y), s.normal(x, y), repr(s)]
            rv = G.rayvec(np.stack([x*0.5, y*0.5, 0*x-1], axis=-1),
                          np.tile([0, 0, 1.0], (6, 1)))
            s.intersect(rv)
            return out+[rv.r.copy(), hash(s)]
        return f

    def asphere(rng, seq):
        return (batoid.Asphere, (5.0, -0.3, seq(rng.uniform(-1, 1, 3)*1e-3)),
                {}, surf_obs(1.0))
    D["Asphere"] = asphere

    def zern(rng, seq):
        return (batoid.Zernike, (seq(rng.uniform(-1, 1, 8)*1e-2),),
                dict(R_outer=2.0), surf_obs(1.0))
    D["Zernike"] = zern

    def bic(rng, seq):
        g = np.linspace(-2, 2, 5)
        t = [seq(rng.uniform(-.1, .1, (5, 5))) for _ in range(4)]
        n = 1 if rng.random() < 0.4 else 4
        return (batoid.Bicubic, (seq(g), seq(g), *t[:n]), {}, surf_obs(1.0))
    D["Bicubic"] = bic

    def summ(rng, seq):
        return (batoid.Sum, ([batoid.Paraboloid(5.0), batoid.Plane(),
                              batoid.Sphere(7.0)],), {}, surf_obs(1.0))
    D["Sum"] = summ

    def table(rng, seq):
        return (batoid.TableMedium, (seq([4e-7, 6e-7, 9e-7]),
                                     seq(rng.uniform(1.4, 1.6, 3))), {},
                lambda m: [m.getN(np.array([5e-7, 7e-7])), repr(m), hash(m)])
    D["TableMedium"] = table

    def sell(rng, seq):
        return (batoid.SellmeierMedium, (seq(G.SELLMEIER[0]),), {},
                lambda m: [m.getN(np.array([5e-7, 7e-7])), repr(m), hash(m)])
    D["SellmeierMedium"] = sell

    def sumita(rng, seq):
        return (batoid.SumitaMedium, (seq(G.SUMITA[0]),), {},
                lambda m: [m.getN(np.array([5e-7, 7e-7])), repr(m), hash(m)])
    D["SumitaMedium"] = sumita

    def obs_obs(o):
        x, y = np.random.default_rng(3).uniform(-1.5, 1.5, (2, 40))
        return [o.contains(x, y), repr(o), hash(o)]

    def poly(rng, seq):
        p = _polygon(rng)
        return batoid.ObscPolygon, (seq(p[0]), seq(p[1])), {}, obs_obs
    D["ObscPolygon"] = poly

    def multi(cls):
        def f(rng, seq):
            return cls, ([batoid.ObscCircle(0.7), batoid.ObscRay(0.4, 0.3),
                          batoid.ObscRectangle(1.0, 0.5)],), {}, obs_obs
        return f
    D["ObscUnion"] = multi(batoid.ObscUnion)
    D["ObscIntersection"] = multi(batoid.ObscIntersection)

    def cs_obs(c):
        return [c.origin.copy(), c.rot.copy(), repr(c), hash(c)]

    def cs(rng, seq):
        return (batoid.CoordSys, (seq(rng.uniform(-1, 1, 3)),
                                  np.asarray(seq(_rot3(rng)))), {}, cs_obs)
    D["CoordSys"] = cs

    def cs_m(name):
        def f(rng, seq):
            c = batoid.CoordSys(rng.uniform(-1, 1, 3), _rot3(rng))
            if name.startswith("shift"):
                args = (np.array(seq(rng.uniform(-1, 1, 3)), float),)
            else:
                args = (np.array(seq(_rot3(rng)), float),
                        seq(rng.uniform(-1, 1, 3)))
            return getattr(c, name), args, {}, cs_obs
        return f
    for m in ("shiftGlobal", "shiftLocal", "rotateGlobal", "rotateLocal"):
        D["CoordSys."+m] = cs_m(m)

    def rays_obs(rv):
        return [np.array(getattr(rv, n)) for n in RAY]+cs_obs(rv.coordSys)

    def rvec(rng, seq):
        n = 5
        kw = {k: seq(rng.uniform(-1, 1, n)) for k in RAY[:9]}
        for k in ("vignetted", "failed"):
            kw[k] = rng.random(n) < 0.3
            if isinstance(kw["x"], list):
                kw[k] = [bool(b) for b in kw[k]]
        pos = [kw.pop(k) for k in RAY[:6]]
        if rng.random() < 0.5:
            kw["coordSys"] = batoid.CoordSys(rng.uniform(-1, 1, 3))
        return batoid.RayVector, tuple(pos), kw, rays_obs
    D["RayVector"] = rvec

    def fac(rng, seq):
        v = rng.uniform(-0.1, 0.1, 2)
        return dict(wavelength=500e-9, backDist=3.0, dirCos=seq(
            [v[0], v[1], -math.sqrt(1-v@v)]))

    def grid(rng, seq):
        kw = fac(rng, seq)
        kw.update(nx=4, dx=seq([0.1, 0.02]), dy=seq([0.01, 0.12]))
        if rng.random() < 0.4:
            del kw["dx"], kw["dy"]
            kw["lx"] = seq([1.0, 0.1])
            kw["ly"] = seq([0.0, 1.1])
        return batoid.RayVector.asGrid, (), kw, rays_obs
    D["asGrid"] = grid

    def polar(rng, seq):
        kw = fac(rng, seq)
        kw.update(outer=1.0, nrad=3, naz=6)
        return batoid.RayVector.asPolar, (), kw, rays_obs
    D["asPolar"] = polar

    def spokes(rng, seq):
        kw = fac(rng, seq)
        if rng.random() < 0.5:
            kw.update(outer=1.0, rings=seq([0.3, 0.6, 1.0]),
                      spokes=seq([0.0, 1.0]))
        else:
            kw.update(outer=1.0, rings=3, spokes=4)
        return batoid.RayVector.asSpokes, (), kw, rays_obs
    D["asSpokes"] = spokes

    def stop(rng, seq):
        kw = fac(rng, seq)
        n = 4
        fl = seq(rng.uniform(0, 1, n)) if rng.random() < .5 else 1.0
        return (batoid.RayVector.fromStop, (
            np.array(seq(rng.uniform(-1, 1, n))),
            np.array(seq(rng.uniform(-1, 1, n)))), dict(kw, flux=fl), rays_obs)
    D["fromStop"] = stop

    def field(rng, seq):
        return (batoid.RayVector.fromFieldAngles, (
            np.array(seq(rng.uniform(-.1, .1, 4))),
            np.array(seq(rng.uniform(-.1, .1, 4)))),
            dict(projection=rng.choice(O.PROJECTIONS), wavelength=500e-9,
                 backDist=2.0), rays_obs)
    D["fromFieldAngles"] = field

    def items(rng):
        return [batoid.Mirror(batoid.Paraboloid(-5.0), name=f"M{i}",
                              coordSys=batoid.CoordSys().shiftGlobal(
                                  [0, 0, float(i)])) for i in range(2)]

    def opt_obs(o):
        return [repr(o), hash(o), len(o.items), sorted(o.itemDict),
                list(o.path)]

    def comp(rng, seq):
        return batoid.CompoundOptic, (items(rng),), dict(name="T"), opt_obs
    D["CompoundOptic"] = comp

    def lens(rng, seq):
        it = [batoid.RefractiveInterface(batoid.Sphere(5.0), name=f"L{i}")
              for i in range(2)]
        return batoid.Lens, (it,), dict(name="L"), opt_obs
    D["Lens"] = lens

    def edit(name):
        def f(rng, seq):
            o = batoid.CompoundOptic(items(rng), name="T")
            if "Shift" in name:
                args = (np.array(seq(rng.uniform(-1, 1, 3)), float),)
            else:
                args = (np.array(seq(_rot3(rng)), float),)
            kw = {}
            if "Rotation" in name and rng.random() < .5:
                kw["rotCenter" if "ly" not in name else "rotCenter"] = seq(
                    rng.uniform(-1, 1, 3))
            if "ly" in name:
                args = ("M1",)+args
            return getattr(o, name), args, kw, opt_obs
        return f
    for m in ("withGlobalShift", "withLocalShift", "withLocalRotation",
              "withGloballyShiftedOptic", "withLocallyShiftedOptic",
              "withLocallyRotatedOptic"):
        D[m] = edit(m)
    return D


def _polygon(rng):
    th = np.sort(rng.uniform(0, 2*np.pi, 6))
    r = rng.uniform(0.3, 1.2, 6)
    return r*np.cos(th), r*np.sin(th)


CTORS = _ctor_list()


def _eq_obs(a, b, msg):
    for x, y in zip(a, b):
        if isinstance(x, (np.ndarray, float)):
            close(np.asarray(x, float), np.asarray(y, float), 1e-12, msg)
        else:
            require(x == y, lambda: f"{msg}: {x!r} instead of {y!r}")


@sub("C33", "construct", lambda: st.fixed_dictionaries(dict(
    c=st.sampled_from(sorted(CTORS)), seed=G.seeds,
    how=st.sampled_from(["array", "array", "list", "strided", "fortran"]))),
    2400, rule="an argument of the call was changed afterwards")
def construct(case, ctx):
    """Calls do not change their arguments, and changing the arguments after
    the call does not change the object."""
    rng = np.random.default_rng(case["seed"])
    f, args, kw, observe = CTORS[case["c"]](
        rng, lambda v: _seq(v, case["how"]))
    a0, k0 = copy.deepcopy(args), copy.deepcopy(kw)
    obj = f(*args, **kw)
    for x, y in list(zip(args, a0))+[(kw[k], k0[k]) for k in kw]:
        if isinstance(x, np.ndarray):
            same(x, y, f"{case['c']}: argument modified")
        else:
            require(x == y, f"{case['c']}: argument {y!r} became {x!r}")
    want = observe(f(*a0, **k0))
    first = observe(obj)
    _eq_obs(first, want, f"{case['c']}: from equal arguments")
    changed = [_scramble(x, rng) for x in list(args)+list(kw.values())]
    if any(changed):
        ctx.nt()
        ctx.event(case["c"])
    _eq_obs(observe(obj), want,
            f"{case['c']}: changed with the argument it was made from")


# Calls on shared objects.

def snapshot(x):
    """The value of any object, as nested tuples."""
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,)+tuple(snapshot(i) for i in x)
    if isinstance(x, dict):
        return ("dict",)+tuple((k, snapshot(x[k])) for k in sorted(x, key=str))
    if isinstance(x, batoid.RayVector):
        return ("rays",)+tuple(snapshot(np.array(getattr(x, n)))
                               for n in RAY)+(snapshot(x.coordSys),)
    if isinstance(x, batoid.Optic):
        d = {k: v for k, v in x.__dict__.items()
             if not k.startswith("_") and k not in ("itemDict",)}
        return (type(x).__name__, snapshot(d))
    if isinstance(x, (batoid.Surface, batoid.Medium, batoid.Obscuration,
                      batoid.Coating, batoid.CoordSys, batoid.CoordTransform)):
        out = (type(x).__name__, snapshot(x.__getstate__()))
        if isinstance(x, batoid.Surface):
            u = np.array([0.0, 0.1, -0.2, 0.3])
            out += (snapshot(x.sag(u, u[::-1].copy())),)
        elif isinstance(x, batoid.Medium):
            out += (snapshot(x.getN(np.array([5e-7, 6e-7]))),)
        return out
    if isinstance(x, np.random.Generator):
        return None
    return repr(x)


class Pool:
    """Shared objects for a history of calls."""
    def __init__(self, seed, rel):
        rng = np.random.default_rng(seed)
        self.rng = rng
        self.tel = batoid.Optic.fromYaml(rel.split("/")[1])
        m = G.builds
        self.surfs = [
            batoid.Plane(), batoid.Paraboloid(9.0), batoid.Sphere(-8.0),
            batoid.Quadric(7.0, -0.5), batoid.Asphere(9.0, -1.0, [1e-4, 1e-5]),
            batoid.Zernike(list(rng.uniform(-1, 1, 8)*1e-3), R_outer=3.0),
            batoid.Tilted(0.1, -0.2),
            batoid.Bicubic(np.linspace(-3, 3, 7), np.linspace(-3, 3, 7),
                           rng.uniform(-1, 1, (7, 7))*1e-3),
            batoid.Sum([batoid.Paraboloid(9.0), batoid.Zernike(
                [0, 0, 0, 0, 1e-3])])]
        self.media = [G.build_medium(s) for s in (
            dict(t="const", n=1.0), dict(t="const", n=1.5),
            dict(t="sellmeier", c=G.SELLMEIER[1]), dict(t="air"),
            dict(t="table", w=[3e-7, 6e-7, 1.2e-6], n=[1.6, 1.5, 1.45]))]
        self.obscs = [batoid.ObscCircle(0.5), batoid.ObscPolygon(
            *_polygon(rng)), batoid.ObscNegation(batoid.ObscAnnulus(0.1, 0.6)),
            batoid.ObscUnion([batoid.ObscRay(0.1, 0.3),
                              batoid.ObscRectangle(0.3, 0.2)])]
        self.coats = [None, batoid.SimpleCoating(0.3, 0.6)]
        self.cs = [batoid.CoordSys(), batoid.CoordSys(
            rng.uniform(-.3, .3, 3), O.rot_list([["x", 0.1], ["z", 0.7]]))]
        n = 6
        x, y = G.disk(rng, n, 0.7)
        self.rays = [G.rayvec(np.stack([x, y, 0*x-1], axis=-1),
                              G.cone_dirs(rng, n, 0.1, 1.0), rng.uniform(
                                  -1, 1, n), rng.choice(G.WAVES, n),
                              rng.uniform(0.5, 1, n), rng.random(n) < 0.2,
                              np.zeros(n, bool), cs)
                     for cs in self.cs]
        self.xy = [np.array(a) for a in G.disk(rng, 5, 0.6)]
        self.p3 = rng.uniform(-0.4, 0.4, (4, 3))
        self.w = rng.choice(G.WAVES, 4)
        self.cfg = copy.deepcopy(T.C.load(rel))

    def everything(self):
        return dict(tel=self.tel, surfs=self.surfs, media=self.media,
                    obscs=self.obscs, coats=self.coats, cs=self.cs,
                    rays=self.rays, xy=self.xy, p3=self.p3, w=self.w,
                    cfg=self.cfg)


def _calls():
    """name -> f(pool, i, j, k); works on copies of rays where the call is
    documented to change them."""
    C = {}

    def pick(seq, i):
        return seq[i % len(seq)]

    def reg(name):
        def deco(f):
            C[name] = f
            return f
        return deco
    S_ = lambda p, i: pick(p.surfs, i)
    reg("sag")(lambda p, i, j, k: S_(p, i).sag(*p.xy))
    reg("normal")(lambda p, i, j, k: S_(p, i).normal(*p.xy))
    reg("intersect")(lambda p, i, j, k: S_(p, i).intersect(
        pick(p.rays, j).copy(), coordSys=pick(p.cs, k),
        coating=pick(p.coats, i+j)))
    reg("reflect")(lambda p, i, j, k: S_(p, i).reflect(
        pick(p.rays, j).copy(), coordSys=pick(p.cs, k),
        coating=pick(p.coats, i+j)))
    reg("refract")(lambda p, i, j, k: S_(p, i).refract(
        pick(p.rays, j).copy(), pick(p.media, k), pick(p.media, i+k),
        coordSys=pick(p.cs, j+k), coating=pick(p.coats, i+j)))
    reg("refractScreen")(lambda p, i, j, k: S_(p, i).refractScreen(
        pick(p.rays, j).copy(), S_(p, i+k), coordSys=pick(p.cs, j+k)))
    reg("rSplit")(lambda p, i, j, k: S_(p, i).rSplit(
        pick(p.rays, j).copy(), pick(p.media, k), pick(p.media, i+k),
        p.coats[1], coordSys=pick(p.cs, j+k)))
    reg("obscure")(lambda p, i, j, k: pick(p.obscs, i).obscure(
        pick(p.rays, j).copy()))
    reg("contains")(lambda p, i, j, k: pick(p.obscs, i).contains(*p.xy))
    reg("containsGrid")(lambda p, i, j, k: p.obscs[1].containsGrid(
        np.sort(p.xy[0]), np.sort(p.xy[1])))
    reg("getN")(lambda p, i, j, k: pick(p.media, i).getN(p.w))
    reg("toGlobal")(lambda p, i, j, k: pick(p.cs, i).toGlobal(p.p3))
    reg("toLocal")(lambda p, i, j, k: pick(p.cs, i).toLocal(p.p3))
    reg("ct arrays")(lambda p, i, j, k: batoid.CoordTransform(
        pick(p.cs, i), pick(p.cs, j)).applyForwardArray(*p.p3.T))
    reg("ct rev arrays")(lambda p, i, j, k: batoid.CoordTransform(
        pick(p.cs, i), pick(p.cs, j)).applyReverseArray(*p.p3.T))
    reg("ct")(lambda p, i, j, k: batoid.CoordTransform(
        pick(p.rays, i).coordSys, pick(p.cs, j)).applyForward(
            pick(p.rays, i).copy()))
    reg("toCoordSys")(lambda p, i, j, k: pick(p.rays, i).copy().toCoordSys(
        pick(p.cs, j)))
    reg("positionAtTime")(lambda p, i, j, k: pick(p.rays, i).positionAtTime(
        0.3*j))
    reg("propagate")(lambda p, i, j, k: pick(p.rays, i).copy().propagate(
        0.3*j))
    reg("phase")(lambda p, i, j, k: pick(p.rays, i).phase(p.p3[j % 4], 0.1*k))
    reg("amplitude")(lambda p, i, j, k: pick(p.rays, i).amplitude(
        p.p3[j % 4], 0.1*k))
    reg("sumAmplitude")(lambda p, i, j, k: pick(p.rays, i).sumAmplitude(
        p.p3[j % 4], 0.1*k, ignoreVignetted=bool(k % 2)))
    reg("k, v, r, omega")(lambda p, i, j, k: [
        pick(p.rays, i).k, pick(p.rays, i).v, pick(p.rays, i).r,
        pick(p.rays, i).omega])
    reg("concatenate")(lambda p, i, j, k: batoid.concatenateRayVectors(
        [pick(p.rays, i), pick(p.rays, j), pick(p.rays, k)]))
    reg("index")(lambda p, i, j, k: pick(p.rays, i)[j % 4:])
    reg("==")(lambda p, i, j, k: pick(p.rays, i) == pick(p.rays, j))
    reg("repr")(lambda p, i, j, k: repr(p.tel) + repr(pick(p.rays, i)))
    reg("hash")(lambda p, i, j, k: [hash(p.tel), hash(S_(p, i))])

    def launch(p, i, j):
        return batoid.RayVector.asPolar(
            optic=p.tel, wavelength=G.WAVES[1+i % 3], theta_x=1e-3*(j % 3),
            theta_y=-5e-4*(i % 2), nrad=2, naz=6)
    reg("asPolar(optic)")(lambda p, i, j, k: launch(p, i, j))
    reg("trace")(lambda p, i, j, k: p.tel.trace(launch(p, i, j)))

    def full(p, i, j, k):
        rv = launch(p, i, j)
        s0 = snapshot(rv)
        out = p.tel.traceFull(rv)
        require(snapshot(rv) == s0, "traceFull changed its input rays")
        return [(n, s["in"], s["out"]) for n, s in out.items()]
    reg("traceFull")(full)

    def names(p):
        return [n.name for n in S.flatten(T.node(p.rel), False)]

    def fullpath(p, i, j, k):
        rv = launch(p, i, j)
        s0 = snapshot(rv)
        path = [e.name for e in p.tel.itemDict.values()
                if isinstance(e, batoid.Interface)][:2+k % 3]
        p0 = list(path)
        p.tel.traceFull(rv, path=path)
        require(snapshot(rv) == s0, "traceFull(path) changed its input rays")
        require(path == p0, "traceFull changed the path")
    reg("traceFull(path)")(fullpath)
    reg("traceSplit")(lambda p, i, j, k: p.tel.traceSplit(
        launch(p, i, j)[:3], minFlux=0.1+0.2*(k % 3)))
    A = dict(nx=8)
    W = 600e-9
    th = lambda i, j: (1e-3*(i % 3), -4e-4*(j % 3))
    ref = lambda k: ["chief", "mean"][k % 2]
    reg("wavefront")(lambda p, i, j, k: batoid.wavefront(
        p.tel, *th(i, j), W, nx=8, reference=ref(k)))
    reg("spot")(lambda p, i, j, k: batoid.spot(
        p.tel, *th(i, j), W, nx=8, reference=ref(k)))
    reg("zernike")(lambda p, i, j, k: batoid.zernike(
        p.tel, *th(i, j), W, nx=12, jmax=8, reference=ref(k)))
    reg("zernikeGQ")(lambda p, i, j, k: batoid.zernikeGQ(
        p.tel, *th(i, j), W, rings=3, jmax=6, reference=ref(k)))
    reg("zernikeTA")(lambda p, i, j, k: batoid.zernikeTA(
        p.tel, *th(i, j), W, nrad=6, naz=30, jmax=6, reference=ref(k)))
    reg("zernikeXY")(lambda p, i, j, k: batoid.zernikeXYAberrations(
        p.tel, *th(i, j), W, nrad=6, naz=30, jmax=6, reference=ref(k)))
    reg("fftPSF")(lambda p, i, j, k: batoid.fftPSF(
        p.tel, *th(i, j), W, nx=8, reference=ref(k)))
    reg("huygensPSF")(lambda p, i, j, k: batoid.huygensPSF(
        p.tel, *th(i, j), W, nx=6, nxOut=4, dx=1e-6, reference=ref(k)))
    reg("drdth")(lambda p, i, j, k: batoid.drdth(
        p.tel, *th(i, j), W, nrad=3, naz=6))
    reg("dthdr")(lambda p, i, j, k: batoid.dthdr(
        p.tel, *th(i, j), W, nrad=3, naz=6))
    reg("dkdu")(lambda p, i, j, k: batoid.analysis.dkdu(
        p.tel, *th(i, j), W, nrad=3, naz=6))
    reg("exitPupilPos")(lambda p, i, j, k: batoid.exitPupilPos(p.tel, W))
    reg("focalLength")(lambda p, i, j, k: batoid.analysis.focalLength(
        p.tel, *th(i, j), W, nrad=3, naz=6))
    reg("doubleZernike")(lambda p, i, j, k: batoid.doubleZernike(
        p.tel, 2e-3, W, rings=2, spokes=5, kmax=4, jmax=5))
    reg("parse")(lambda p, i, j, k: repr(batoid.parse.parse_optic(
        p.cfg["opticalSystem"] if "opticalSystem" in p.cfg else p.cfg)))
    reg("withGlobalShift")(lambda p, i, j, k: p.tel.withGlobalShift(p.p3[0]))
    reg("withLocalRotation")(lambda p, i, j, k: p.tel.withLocalRotation(
        p.cs[1].rot, rotCenter=p.p3[1]))
    reg("optic names")(lambda p, i, j, k: sorted(p.tel.itemDict))

    def mesh(p, i, j, k):
        its = [e for e in p.tel.itemDict.values()
               if isinstance(e, batoid.Interface)]
        return its[i % len(its)].getXZSlice(10)
    reg("getXZSlice")(mesh)
    return C


CALLS = _calls()


def _value_of(x):
    """Comparable value of a result."""
    if isinstance(x, batoid.Lattice):
        return [np.array(x.array), np.array(x.coords)]
    if isinstance(x, (list, tuple)):
        return [_value_of(i) for i in x]
    if isinstance(x, dict):
        return [[k, _value_of(v)] for k, v in x.items()]
    if isinstance(x, batoid.RayVector):
        return [np.array(getattr(x, n)) for n in RAY]
    if isinstance(x, np.ma.MaskedArray):
        return [x.filled(0), np.array(np.ma.getmaskarray(x))]
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, batoid.Optic):
        return repr(x)
    return x


def _same_value(a, b, msg):
    if isinstance(a, list):
        require(isinstance(b, list) and len(a) == len(b), f"{msg}: length")
        for x, y in zip(a, b):
            _same_value(x, y, msg)
    elif isinstance(a, (np.ndarray, float, complex)):
        a = np.asarray(a)
        if a.dtype == object:
            _same_value(a.tolist(), np.asarray(b).tolist(), msg)
            return
        if a.dtype.kind in "fc":
            fin = np.abs(a[np.isfinite(a)])
            s = float(np.max(fin)) if fin.size else 0.0
            close(b, a, 1e-9*s+1e-300, msg)
        else:
            same(b, a, msg)
    else:
        require(a == b, lambda: f"{msg}: {b!r} instead of {a!r}")


POOL_TEL = ["LSST/LSST_r.yaml", "HSC/HSC.yaml", "DECam/DECam.yaml"]


@sub("C33", "calls", lambda: st.fixed_dictionaries(dict(
    seed=G.seeds, tel=st.sampled_from([f for f in POOL_TEL if f in T.FILES]),
    ops=st.lists(st.tuples(st.sampled_from(sorted(CALLS)), st.integers(0, 8),
                           st.integers(0, 8), st.integers(0, 8)).map(list),
                 min_size=1, max_size=6))), 400,
     rule="at least two calls")
def calls(case, ctx):
    """Every call leaves all shared objects as they were, and gives what it
    gives on fresh objects."""
    p = Pool(case["seed"], case["tel"])
    p.rel = case["tel"]
    ctx.nt(len(case["ops"]) > 1)
    s0 = {k: snapshot(v) for k, v in p.everything().items()}
    results = []
    for name, i, j, k in case["ops"]:
        r = CALLS[name](p, i, j, k)
        ctx.event(name)
        for key, v in p.everything().items():
            if snapshot(v) != s0[key]:
                fail(f"{name}({i},{j},{k}) changed the shared {key}")
        results.append((name, r, _value_of(r)))
    # results of earlier calls were not changed by later ones
    for name, r, v in results:
        _same_value(_value_of(r), v, f"result of {name} changed later")
    # and do not depend on the history
    q = Pool(case["seed"], case["tel"])
    q.rel = case["tel"]
    name, i, j, k = case["ops"][-1]
    _same_value(_value_of(CALLS[name](q, i, j, k)), results[-1][2],
                f"{name} after other calls")
    # results do not alias the shared objects
    for name, r, v in results:
        _wreck(r, name)
    for key, v in p.everything().items():
        if snapshot(v) != s0[key]:
            fail(f"changing the results of {[o[0] for o in case['ops']]} "
                 f"changed the shared {key}")


def _wreck(r, name):
    """Change returned arrays (and rays) in place."""
    if name in ("index",):
        return        # a slice of a bundle may share its memory
    if isinstance(r, (list, tuple)):
        for i in r:
            _wreck(i, name)
    elif isinstance(r, dict):
        for i in r.values():
            _wreck(i, name)
    elif isinstance(r, batoid.Lattice):
        _wreck(r.array, name)
        _wreck(r.primitiveVectors, name)
    elif isinstance(r, batoid.RayVector):
        r.propagate(3.0)
    elif isinstance(r, np.ma.MaskedArray):
        r.data[...] = 0
    elif isinstance(r, np.ndarray) and r.dtype.kind in "fcb" \
            and r.flags.writeable and r.size and name != "k, v, r, omega":
        r[...] = 0


# Histories in one process against a process without a past.

def _h_calls():
    """name -> f(telescope, args): args is a dict of small integers which
    choose every argument from a list of similar values."""
    H = {}
    TH = [0.0, 0.6, -0.6, 0.97, -0.97, 0.2]     # fractions of the field
    WL = [500e-9, 700e-9, 620e-9]

    def common(a):
        return dict(theta_x=TH[a["x"]]*a["fov"], theta_y=TH[a["y"]]*a["fov"],
                    wavelength=WL[a["w"]],
                    projection=["postel", "gnomonic"][a["p"]])

    def reg(name, f, **kws):
        def g(t, a):
            kw = common(a)
            for k, v in kws.items():
                kw[k] = v[a["n"] % len(v)] if k != "reference" \
                    else v[a["r"] % 2]
            return f(t, **kw)
        H[name] = g
    ref = ["chief", "mean"]
    reg("wavefront", batoid.wavefront, nx=[8, 9, 10], reference=ref)
    reg("spot", batoid.spot, nx=[8, 9, 10], reference=ref)
    reg("zernike", batoid.zernike, nx=[12, 13, 14], jmax=[8, 9, 6],
        eps=[0.0, 0.3, 0.31], reference=ref)
    reg("zernikeGQ", batoid.zernikeGQ, rings=[3, 4, 3], jmax=[6, 6, 7],
        eps=[0.0, 0.3, 0.31], reference=ref)
    reg("zernikeTA", batoid.zernikeTA, nrad=[6, 6, 5], naz=[30, 24, 30],
        jmax=[6, 7, 6], eps=[0.0, 0.0, 0.3], reference=ref)
    reg("zernikeXY", batoid.zernikeXYAberrations, nrad=[6, 6, 5],
        naz=[30, 24, 30], jmax=[6, 7, 6], eps=[0.0, 0.0, 0.3], reference=ref)
    reg("fftPSF", batoid.fftPSF, nx=[8, 9, 8], pad_factor=[2, 2, 3],
        reference=ref)
    reg("huygensPSF", batoid.huygensPSF, nx=[6, 7, 6], nxOut=[4, 4, 3],
        dx=[None, 1e-6, 1.1e-6], reference=ref)
    reg("drdth", batoid.drdth, nrad=[3, 4, 3], naz=[6, 6, 12])
    reg("dthdr", batoid.dthdr, nrad=[3, 4, 3], naz=[6, 6, 12])
    reg("dkdu", batoid.analysis.dkdu, nrad=[3, 4, 3], naz=[6, 6, 12])
    reg("focalLength", batoid.analysis.focalLength, nrad=[3, 4, 3],
        naz=[6, 6, 12])
    H["exitPupilPos"] = lambda t, a: batoid.exitPupilPos(
        t, WL[a["w"]], smallAngle=[5e-6, 1e-5, 2e-5][a["n"]])
    H["doubleZernike"] = lambda t, a: batoid.doubleZernike(
        t, [2e-3, 7e-3, 1e-2][a["x"] % 3], WL[a["w"]], rings=2,
        spokes=[5, 6, None][a["n"]], kmax=[4, 4, 5][a["y"] % 3], jmax=5,
        reference=ref[a["r"] % 2])

    def rays(t, a):
        kw = common(a)
        m = a["n"]
        f = [batoid.RayVector.asPolar, batoid.RayVector.asGrid,
             batoid.RayVector.asSpokes][a["r"] % 3]
        kw.update([dict(nrad=2+m, naz=6), dict(nx=3+m),
                   dict(rings=2+m, spokes=5, spacing="GQ")][a["r"] % 3])
        return f(optic=t, **kw)
    H["factory"] = rays
    H["trace"] = lambda t, a: t.trace(rays(t, a))
    H["traceFull"] = lambda t, a: [
        (n, s["in"], s["out"]) for n, s in t.traceFull(rays(t, a)).items()]

    def split(t, a):
        return t.traceSplit(rays(t, dict(a, r=0, n=0))[:4],
                            minFlux=[0.01, 0.02, 0.5][a["n"]])
    H["traceSplit"] = split

    def path(t, a):
        names = [e.name for e in t.itemDict.values()
                 if isinstance(e, batoid.Interface)]
        m = 2+a["n"]
        return [(n, s["in"], s["out"]) for n, s in t.traceFull(
            rays(t, a), path=names[:m]+names[:m-1][::-1]).items()]
    H["traceFull(path)"] = path

    def back(t, a):
        rv = t.trace(rays(t, a))
        return batoid.RayVector(
            rv.x, rv.y, rv.z, -rv.vx, -rv.vy, -rv.vz, -rv.t, rv.wavelength,
            rv.flux, rv.vignetted, rv.failed, rv.coordSys), t.trace(
                batoid.RayVector(
                    rv.x, rv.y, rv.z, -rv.vx, -rv.vy, -rv.vz, -rv.t,
                    rv.wavelength, rv.flux, rv.vignetted, rv.failed,
                    rv.coordSys), reverse=True)
    H["reverse"] = back

    def lookup(t, a):
        names = sorted(t.itemDict)
        n = names[(a["x"]*7+a["y"]) % len(names)]
        return [repr(t[n].coordSys), repr(t[n.split(".")[-1]].coordSys)
                if n in names else None]
    H["lookup"] = lookup

    def surf(t, a):
        its = [e for e in t.itemDict.values()
               if isinstance(e, batoid.Interface)]
        e = its[(a["x"]*5+a["y"]) % len(its)]
        u = np.linspace(-0.2, 0.25, 4+a["n"])
        out = [e.surface.sag(u, u[::-1].copy()),
               e.surface.normal(u, u[::-1].copy()),
               e.inMedium.getN(WL[a["w"]]), e.outMedium.getN(WL[a["w"]])]
        if e.obscuration is not None:
            out.append(e.obscuration.contains(3*u, u))
        return out
    H["elements"] = surf
    H["mesh"] = lambda t, a: [
        e.getXZSlice(5+a["n"]) for e in t.itemDict.values()
        if isinstance(e, batoid.Interface)][(a["x"]*5+a["y"]) % 3]
    return H


HIST = _h_calls()
HFOV = dict(HSC=1.3e-2, LSS=3e-2, DEC=1.9e-2)
HTEL = [f for f in ("HSC/HSC.yaml", "LSST/LSST_r.yaml", "LSST/LSST_g.yaml",
                    "DECam/DECam.yaml") if f in T.FILES]


def _h_tel(i, rel, made):
    """The i-th variant of a telescope, made from the telescope itself, which
    may have been used before; variants share their names."""
    if (i, rel) in made:
        return made[i, rel]
    t = batoid.Optic.fromYaml(rel.split("/")[1]) if i == 0 \
        else _h_tel(0, rel, made)
    names = [n for n, e in t.itemDict.items()
             if isinstance(e, batoid.Mirror)]
    if i == 1:
        t = t.withGloballyShiftedOptic(names[0], [1e-4, 2e-4, -1e-4])
    elif i == 2:
        t = t.withLocallyRotatedOptic(names[-1], batoid.RotX(1e-3))
    elif i == 3:
        t = t.withPerturbedSurface(names[0], batoid.Zernike(
            [0]*5+[1e-7, 2e-7], R_outer=4.0))
    elif i == 4:
        t = copy.deepcopy(t)
        t.clearObscuration()
    elif i == 5:
        t = t.withLocalRotation(batoid.RotZ(0.3))
    elif i == 6:
        t = t.withSurface(names[0], batoid.Sum([
            t[names[0]].surface, batoid.Paraboloid(3e5)]))
    made[i, rel] = t
    return t


def in_child(f):
    """f() in a process of its own -> its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except Exception as e:
                out = ("fail", core.classify(e) or f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        fail(f"the process died by signal {os.WTERMSIG(status)}")
    kind, out = pickle.loads(data)
    if kind == "fail":
        fail(out)
    return out


def _h_args():
    i = st.integers(0, 2)
    th = st.sampled_from([1, 2, 3, 4, 5, 0])
    return st.fixed_dictionaries(dict(
        x=th, y=th, w=i, p=st.integers(0, 1), n=i, r=i))


MIRROR = [0, 2, 1, 4, 3, 5]


def _h_change(a, ch, b):
    a = dict(a)
    for k in ch:
        if k in "XY":          # the mirrored field
            a[k.lower()] = MIRROR[a[k.lower()]]
        else:
            a[k] = b[k]
    return a


def _h_ops():
    """Calls, mostly repetitions of one with an argument changed."""
    heavy = ["wavefront", "spot", "zernike", "zernikeGQ", "zernikeTA",
             "zernikeXY", "fftPSF", "drdth", "dkdu", "focalLength", "factory",
             "trace",
             "traceFull"]
    name = st.one_of(st.sampled_from(sorted(HIST)), st.sampled_from(heavy))
    return G.builds(
        lambda n0, a0, t0, rest: [[n0, t0, a0]]+[
            [n if own else n0, t if newt else t0,
             a0 if newt and a["n"] else _h_change(a0, ch, a)]
            for own, n, newt, t, ch, a in rest],
        name, _h_args(), st.one_of(st.just(0), st.integers(0, 6)),
        st.lists(st.tuples(
            st.sampled_from([False, False, False, True]), name,
            st.sampled_from([False, False, True]), st.integers(0, 6),
            st.lists(st.sampled_from("XYXYwpnrxy"), min_size=1, max_size=2),
            _h_args()), min_size=2, max_size=6))


@sub("C33", "history", lambda: st.fixed_dictionaries(dict(
    tel=st.sampled_from(HTEL), ops=_h_ops())), 480,
     rule="some call is made with several arguments or on a changed telescope")
def history(case, ctx):
    """Calls give the same in two new processes, one of which makes them in
    the opposite order."""
    ops = case["ops"]
    ctx.nt(any(o[0] == q[0] and o != q for o in ops for q in ops))
    _both_orders(ops, case["tel"], ctx)


@sub("C33", "variants", lambda: st.fixed_dictionaries(dict(
    tel=st.sampled_from(HTEL), calls=st.lists(
        st.tuples(st.sampled_from(sorted(HIST)), _h_args()).map(list),
        min_size=2, max_size=5),
    to=st.lists(st.integers(1, 6), min_size=1, max_size=2, unique=True))), 360,
    rule="always")
def variants(case, ctx):
    """The same calls on a telescope and then on changed copies of it."""
    _both_orders([[n, t, a] for t in [0]+case["to"] for n, a in case["calls"]],
                 case["tel"], ctx)
    ctx.nt(True)


def _both_orders(ops, rel, ctx):

    def run(order):
        def f():
            made = {}
            out = {}
            for j in order:
                n, i, b = ops[j]
                try:
                    out[j] = ("value", _value_of(HIST[n](
                        _h_tel(i, rel, made), dict(b, fov=HFOV[rel[:3]]))))
                except (ValueError, RuntimeError, np.linalg.LinAlgError) as e:
                    out[j] = ("error", type(e).__name__)
            return out
        return f
    A = in_child(run(range(len(ops))))
    B = in_child(run(range(len(ops)-1, -1, -1)))
    for j, (name, t, a) in enumerate(ops):
        (k1, v1), (k2, v2) = A[j], B[j]
        ctx.event(name)
        ctx.event(k1)
        msg = f"{name}{a} on telescope {t} after other calls"
        require(k1 == k2, lambda: f"{msg}: {k1} {v1!r} or {k2} {v2!r}")
        _same_value(v1, v2, msg)
