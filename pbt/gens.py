"""Hypothesis strategies for case specifications (JSON-able), and functions
that build batoid objects from them."""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from . import oracle as O

# ------------------------------------------------------------------- numbers

def builds(f, *args):
    """st.builds without the signature analysis."""
    return st.tuples(*args).map(lambda t: f(*t))



def num(lo, hi, d=3):
    """Decimal numbers with d digits; shrinks towards 0 (or the nearer end)."""
    s = 10**d
    return st.integers(math.ceil(lo*s), math.floor(hi*s)).map(lambda i: i/s)


def signed(lo, hi, d=3):
    """+-[lo, hi]"""
    return st.tuples(num(lo, hi, d), st.booleans()).map(
        lambda t: -t[0] if t[1] else t[0])


seeds = st.integers(0, 10**6)


def vec3(a, d=3):
    return st.lists(num(-a, a, d), min_size=3, max_size=3)


def angle():
    return st.one_of(num(-3.2, 3.2), num(-0.1, 0.1),
                     st.sampled_from([1e-8, -3e-7, 1e-6, 2e-5, -4e-4]),
                     st.sampled_from([0.0, math.pi/2, -math.pi/2, math.pi]))


def rots(maxn=3):
    return st.lists(
        st.tuples(st.sampled_from("xyz"), angle()).map(list), max_size=maxn)


def rotmat(lst):
    return O.rot_list(lst)


def frame(a=10.0, maxn=3):
    return st.fixed_dictionaries(dict(o=vec3(a), rot=rots(maxn)))


def coordsys(d):
    return batoid.CoordSys(np.array(d["o"], float), O.rot_list(d["rot"]))


# ------------------------------------------------------------------ surfaces

def _parab():
    return st.fixed_dictionaries(dict(t=st.just("parab"), R=signed(0.5, 50)))


def _sphere():
    return st.fixed_dictionaries(dict(t=st.just("sphere"), R=signed(0.5, 50)))


# small offsets of many sizes
tiny = st.sampled_from([s*m*10.0**-e for e in (3, 5, 6, 7, 8, 10)
                        for m in (1, 4) for s in (-1, 1)])


def conic():
    return st.one_of(num(-3, 2), num(-3, 2),
                     st.sampled_from([0.0, -1.0, -0.5, 1.0]),
                     st.tuples(st.sampled_from([-1.0, 0.0]), tiny).map(sum))


def _quadric():
    return st.fixed_dictionaries(
        dict(t=st.just("quadric"), R=signed(0.5, 50), k=conic()))


def _asphere():
    def mk(R, k, raw, imin):
        # coefficient i scaled so that its term is <= ~0.05 |R| at r = 0.4|R|
        a = 0.4*abs(R)
        coefs = [c*0.02*abs(R)/a**(2*(i+imin)) for i, c in enumerate(raw)]
        return dict(t="asphere", R=R, k=k, coefs=coefs, imin=imin)
    return builds(mk, signed(1, 30), conic(),
                     st.lists(num(-1, 1), max_size=4),
                     st.sampled_from([2, 2, 1, 3]))


def _zernike():
    def mk(coef, Ro, eps, x0, y0, amp):
        if len(coef) > 23:
            # no larger monomials within 3 m than a double can add up
            Ro = 2.0+0.6*Ro
            C = np.abs(O.zern_sum_poly(coef, Ro, eps*Ro))
            u = (3+max(abs(x0), abs(y0)))/Ro
            i, j = np.indices(C.shape)
            amp = min(amp, 10/max(np.sum(C*u**(i+j)), 1e-3))
        return dict(t="zernike", coef=[c*amp for c in coef], Ro=Ro,
                    Ri=eps*Ro, x0=x0, y0=y0)
    coefs = st.lists(num(-1, 1), min_size=1, max_size=23)
    # a single term of high order, or many small ones
    high = builds(lambda j, c, d: [d*0.05]*(j-1)+[c], st.integers(24, 80),
                  num(-1, 1), st.sampled_from([0.0, 0.0, 0.3, -0.2]))
    return builds(mk, st.one_of(coefs, coefs, coefs, coefs, high),
                     num(0.5, 5), st.sampled_from([0.0, 0.0, 0.3, 0.61, 0.8]),
                     st.one_of(st.just(0.0), num(-0.3, 0.3)),
                     st.one_of(st.just(0.0), num(-0.3, 0.3)),
                     st.sampled_from([1e-2, 1e-3, 1e-5, 1e-8]))


def _bicubic(nan=True):
    def mk(nx, ny, hx, hy, offx, offy, seed, amp, deriv, nanp):
        # grid centred roughly on the origin
        return dict(t="bicubic", x0=-hx*(nx-1)/2+offx*hx,
                    y0=-hy*(ny-1)/2+offy*hy, dx=hx, dy=hy, nx=nx, ny=ny,
                    seed=seed, amp=amp, deriv=deriv, nan=nanp)
    return builds(mk, st.integers(3, 9), st.integers(3, 9), num(0.2, 1),
                     num(0.2, 1), num(-0.4, 0.4), num(-0.4, 0.4), seeds,
                     st.sampled_from([0.0, 1e-8, 1e-3, 1e-2, 0.05]),
                     st.sampled_from(["given", "default"]),
                     st.sampled_from(["nan", "zero"] if nan else ["nan"]))


def _bicubic_poly():
    def mk(nx, ny, hx, hy, C):
        x0, y0 = -hx*(nx-1)/2, -hy*(ny-1)/2
        s = max(abs(x0), abs(y0))
        C = [[0.02*c/s**(i+j) for j, c in enumerate(row)]
             for i, row in enumerate(C)]
        return dict(t="bicubic", x0=x0, y0=y0, dx=hx, dy=hy, nx=nx, ny=ny,
                    poly=C, deriv="given", nan="nan")
    return builds(mk, st.integers(4, 12), st.integers(4, 12), num(0.2, 1),
                     num(0.2, 1),
                     st.lists(st.lists(num(-1, 1), min_size=4, max_size=4),
                              min_size=4, max_size=4))


def _plane():
    return st.just(dict(t="plane"))


def _tilted(a=0.6):
    return st.fixed_dictionaries(
        dict(t=st.just("tilted"), tx=num(-a, a), ty=num(-a, a)))


_MAKERS = dict(plane=_plane, tilted=_tilted, parab=_parab, sphere=_sphere,
               quadric=_quadric, asphere=_asphere, zernike=_zernike,
               bicubic=_bicubic, bicubic_poly=_bicubic_poly)
SIMPLE = ["plane", "tilted", "parab", "sphere", "quadric", "asphere",
          "zernike", "bicubic", "bicubic_poly"]


def surface(kinds=SIMPLE, with_sum=True, tilted_in_sum=True):
    base = st.one_of([_MAKERS[k]() for k in kinds])
    if not with_sum:
        return base
    inner = base if tilted_in_sum else st.one_of(
        [_MAKERS[k]() for k in kinds if k != "tilted"])
    # (with repeated items now and then; equal ones share one object)
    sums = builds(
        lambda items, rep: dict(t="sum", items=items+items[:rep]),
        st.one_of(*[st.lists(inner, min_size=1, max_size=3)]*4,
                  st.lists(inner, min_size=4, max_size=7)),
        st.sampled_from([0, 0, 0, 1]))
    nested = builds(
        lambda s, i: dict(t="sum", items=[s, i]), sums, inner)
    return st.one_of(base, base, base, base, sums, nested)


def build_surface(s):
    t = s["t"]
    if t == "plane":
        return batoid.Plane()
    if t == "tilted":
        return batoid.Tilted(s["tx"], s["ty"])
    if t == "parab":
        return batoid.Paraboloid(s["R"])
    if t == "sphere":
        return batoid.Sphere(s["R"])
    if t == "quadric":
        return batoid.Quadric(s["R"], s["k"])
    if t == "asphere":
        if s.get("imin", 2) == 2:
            return batoid.Asphere(s["R"], s["k"], s["coefs"])
        return batoid.Asphere(s["R"], s["k"], s["coefs"], imin=s["imin"])
    if t == "zernike":
        return batoid.Zernike(s["coef"], R_outer=s["Ro"], R_inner=s["Ri"],
                              x_origin=s.get("x0", 0.0),
                              y_origin=s.get("y0", 0.0))
    if t == "bicubic":
        xs, ys, zs, dx, dy, dxy = O.bicubic_table(s)
        if s.get("deriv") == "default":
            return batoid.Bicubic(xs, ys, zs, nanpolicy=s.get("nan", "nan"))
        return batoid.Bicubic(xs, ys, zs, dx, dy, dxy,
                              nanpolicy=s.get("nan", "nan"))
    if t == "sum":
        made = []
        for i in s["items"]:
            old = [b for k, b in made if k == i]
            made.append((i, old[0] if old else build_surface(i)))
        return batoid.Sum([b for _, b in made])
    raise ValueError(t)


def rmax(s):
    """Radius within which the surface is real and smooth."""
    t = s["t"]
    if t in ("plane", "tilted"):
        return 10.0
    if t == "parab":
        return 2.0*abs(s["R"])
    if t == "sphere":
        return 0.95*abs(s["R"])
    if t in ("quadric", "asphere"):
        lim = 2.0*abs(s["R"])
        if s["k"] > -1:
            lim = min(lim, 0.95*abs(s["R"])/math.sqrt(1+s["k"]))
        if t == "asphere":
            lim = min(lim, 0.5*abs(s["R"]))
        return lim
    if t == "zernike":
        return s["Ro"]
    if t == "bicubic":
        return 0.97*min(-s["x0"], -s["y0"], s["x0"]+s["dx"]*(s["nx"]-1),
                        s["y0"]+s["dy"]*(s["ny"]-1))
    if t == "sum":
        return min(rmax(i) for i in s["items"])
    raise ValueError(t)


def disk(rng, n, r, inner=0.0):
    rr = np.sqrt(rng.uniform(inner**2, 1, n))*r
    ph = rng.uniform(0, 2*np.pi, n)
    return rr*np.cos(ph), rr*np.sin(ph)


def cone_dirs(rng, n, maxang, sign):
    """Unit vectors within maxang of sign*z."""
    c = rng.uniform(np.cos(maxang), 1, n)
    ph = rng.uniform(0, 2*np.pi, n)
    s = np.sqrt(1-c*c)
    return np.stack([s*np.cos(ph), s*np.sin(ph), c*sign], axis=-1)


# ----------------------------------------------------------------- ray bundles

WAVES = [350e-9, 500e-9, 633e-9, 750e-9, 1.05e-6]


def rayvec(r, v, t=0.0, w=500e-9, f=1.0, vig=None, fail=None, cs=None):
    r = np.atleast_2d(np.asarray(r, float))
    v = np.atleast_2d(np.asarray(v, float))
    n = len(r)

    def full(a, default, dt):
        return np.array(np.broadcast_to(
            np.asarray(default if a is None else a, dt), n))
    rv = batoid.RayVector(
        r[:, 0].copy(), r[:, 1].copy(), r[:, 2].copy(),
        v[:, 0].copy(), v[:, 1].copy(), v[:, 2].copy(),
        t=full(t, 0, float), wavelength=full(w, 0, float),
        flux=full(f, 1, float), vignetted=full(vig, False, bool),
        failed=full(fail, False, bool),
        coordSys=cs if cs is not None else batoid.CoordSys())
    return rv


def rayspec(maxn=12):
    """Bundles for bookkeeping checks: a seed for the values, flags listed."""
    return st.fixed_dictionaries(dict(
        seed=seeds, n=st.integers(0, maxn),
        flags=st.lists(st.sampled_from([0, 0, 0, 1, 2, 3]), max_size=maxn),
        cs=frame()))


def build_rays(d, pos=5.0):
    """Random rays; flags: 1 vignetted, 2 failed, 3 both."""
    n = d["n"]
    rng = np.random.default_rng(d["seed"])
    r = rng.uniform(-pos, pos, (n, 3))
    v = cone_dirs(rng, n, 1.2, 1.0)*np.where(
        rng.integers(0, 2, n) == 0, -1, 1)[:, None]
    v = v/rng.choice([1.0, 1.3, 1.5], n)[:, None]
    t = rng.uniform(-3, 3, n)
    w = rng.choice(WAVES, n)
    f = rng.uniform(0.1, 2, n)
    fl = np.zeros(n, int)
    k = min(n, len(d["flags"]))
    fl[:k] = d["flags"][:k]
    return rayvec(r.reshape(-1, 3), v.reshape(-1, 3), t, w, f,
                  (fl & 1).astype(bool), (fl & 2).astype(bool),
                  coordsys(d["cs"])) if n else empty_rays(coordsys(d["cs"]))


def empty_rays(cs):
    return batoid.RayVector([], [], [], [], [], [], coordSys=cs)


AIR = 1/1.000277


def aimed(s, seed, n, maxang=1.0, speeds=(1.0, 1/1.3, 1/1.52, 1/2.4, AIR),
          smax=10.0, sign=None, frac=1.0, on_surface=0.15):
    """Rays constructed to meet surface spec s.  Returns dict of arrays:
    r, v (start), p (target on the surface), dt (time to get there)."""
    rng = np.random.default_rng(seed)
    x, y = disk(rng, n, frac*rmax(s))
    k = rng.random(n) < 0.08
    x[k] = 0.0
    y[k & (rng.random(n) < 0.7)] = 0.0
    k = (rng.random(n) < 0.1)*rng.uniform(-9, -1, n)
    x *= 10.0**k
    y *= 10.0**k
    z = O.sag(s, x, y)
    sg = (np.where(rng.integers(0, 2, n) == 0, -1.0, 1.0)
          if sign is None else sign)
    ax = cone_dirs(rng, n, maxang, 1.0)
    # some nearly and some exactly parallel to the axis
    k = rng.random(n) < 0.12
    ax[k, :2] *= 10.0**rng.uniform(-7, -1, (int(k.sum()), 1))
    ax[k, 2] = np.sqrt(1-ax[k, 0]**2-ax[k, 1]**2)
    ax[rng.random(n) < 0.1] = [0, 0, 1]
    d = ax*np.reshape(sg, (-1, 1))
    dist = rng.uniform(-smax, smax, n)*rng.choice([1, 0.01, 1], n)
    dist[rng.random(n) < on_surface] = 0.0
    sp = rng.choice(speeds, n)
    p = np.stack([x, y, z], axis=-1)
    v = d*sp[:, None]
    dt = dist/sp
    r = p-d*dist[:, None]
    return dict(r=r, v=v, p=p, dt=dt, w=rng.choice(WAVES, n),
                t=rng.uniform(-5, 5, n), f=rng.uniform(0.1, 2, n))


# --------------------------------------------------------------------- media

def const_medium():
    return builds(lambda n: dict(t="const", n=n), st.one_of(
        num(1.0, 2.0), num(1.0, 2.0), st.sampled_from([1.000277, 1.00001])))


SELLMEIER = [
    [0.6961663, 0.4079426, 0.8974794, 0.0684043**2, 0.1162414**2, 9.896161**2],
    [1.03961212, 0.231792344, 1.01046945,
     0.00600069867, 0.0200179144, 103.560653],
]
SUMITA = [
    [2.0755608, -8.5931e-3, 9.8123e-3, 2.1e-4, -6.5e-6, 5.6e-7],
    [2.2718929, -1.0108077e-2, 1.0592509e-2, 2.0816965e-4, -7.6472538e-6,
     4.9240991e-7],
]


def medium():
    return st.one_of(
        const_medium(),
        st.sampled_from(SELLMEIER).map(lambda c: dict(t="sellmeier", c=c)),
        st.sampled_from(SUMITA).map(lambda c: dict(t="sumita", c=c)),
        st.just(dict(t="air")),
        builds(lambda p, T, h: dict(t="air", p=p, T=T, h=h),
                  num(50, 110), num(250, 310), num(0, 3)),
        builds(lambda a, b, c: dict(
            t="table", w=[300e-9, 500e-9, 800e-9, 1.2e-6],
            n=[1.6+a, 1.5+b, 1.48+c, 1.45]),
            num(0, .1), num(0, .05), num(0, .02)),
    )


def build_medium(m):
    t = m["t"]
    if t == "const":
        return batoid.ConstMedium(m["n"])
    if t == "table":
        return batoid.TableMedium(m["w"], m["n"])
    if t == "sellmeier":
        return batoid.SellmeierMedium(*m["c"])
    if t == "sumita":
        return batoid.SumitaMedium(*m["c"])
    if t == "air":
        kw = {}
        if "p" in m:
            kw["pressure"] = m["p"]
        if "T" in m:
            kw["temperature"] = m["T"]
        if "h" in m:
            kw["h2o_pressure"] = m["h"]
        return batoid.Air(**kw)
    raise ValueError(t)


# --------------------------------------------------------------- obscurations

def obsc(a=1.0, depth=2):
    """Obscurations on a scale a."""
    c = num(-a, a)
    xy = st.one_of(st.just((0.0, 0.0)), st.tuples(c, c))
    th = st.one_of(st.just(0.0), num(-3.2, 3.2))
    circ = builds(lambda r, p: dict(t="circle", r=r*a, x=p[0], y=p[1]),
                     num(0.05, 1.5), xy)
    ann = builds(
        lambda i, w, p: dict(t="annulus", ri=i*a, ro=(i+w)*a, x=p[0], y=p[1]),
        num(0.0, 1), num(0.05, 1), xy)
    rect = builds(
        lambda w, h, p, t: dict(t="rect", w=w*a, h=h*a, x=p[0], y=p[1], th=t),
        num(0.05, 2), num(0.05, 2), xy, th)
    ray = builds(
        lambda w, p, t: dict(t="ray", w=w*a, x=p[0], y=p[1], th=t),
        num(0.02, 1), xy, th)
    poly = builds(
        lambda n, seed, star: _poly(n, seed, star, a),
        st.integers(3, 8), seeds, st.booleans())
    leaf = st.one_of(circ, ann, rect, ray, poly)
    if depth == 0:
        return leaf
    inner = obsc(a, depth-1)
    return st.one_of(
        leaf, leaf,
        builds(lambda i: dict(t="not", item=i), inner),
        builds(lambda t, i: dict(t=t, items=i),
                  st.sampled_from(["or", "and"]),
                  st.lists(inner, min_size=1, max_size=3)))


def _poly(n, seed, star, a):
    rng = np.random.default_rng(seed)
    if star:
        th = np.sort(rng.uniform(0, 2*np.pi, n))
        r = rng.uniform(0.2, 1.3, n)*a
        x, y = r*np.cos(th), r*np.sin(th)
    else:
        x, y = rng.uniform(-a, a, (2, n))
    if rng.random() < 0.5:
        x, y = x[::-1], y[::-1]
    x, y = x.round(4), y.round(4)
    if rng.random() < 0.15:
        # an edge that is nearly, or exactly, along an axis
        e = rng.choice([0.0, 1.0])*10.0**-rng.integers(3, 8)*a
        i = rng.integers(0, n)
        z = x if rng.random() < 0.3 else y
        z[i] = z[i-1]+rng.choice([-1, 1])*e
    return dict(t="polygon", xs=[float(i) for i in x],
                ys=[float(i) for i in y])


def build_obsc(o):
    t = o["t"]
    if t == "circle":
        return batoid.ObscCircle(o["r"], o.get("x", 0.0), o.get("y", 0.0))
    if t == "annulus":
        return batoid.ObscAnnulus(o["ri"], o["ro"], o.get("x", 0.0),
                                  o.get("y", 0.0))
    if t == "rect":
        return batoid.ObscRectangle(o["w"], o["h"], o.get("x", 0.0),
                                    o.get("y", 0.0), o.get("th", 0.0))
    if t == "ray":
        return batoid.ObscRay(o["w"], o["th"], o.get("x", 0.0),
                              o.get("y", 0.0))
    if t == "polygon":
        return batoid.ObscPolygon(o["xs"], o["ys"])
    if t == "not":
        return batoid.ObscNegation(build_obsc(o["item"]))
    if t == "or":
        return batoid.ObscUnion([build_obsc(i) for i in o["items"]])
    if t == "and":
        return batoid.ObscIntersection([build_obsc(i) for i in o["items"]])
    raise ValueError(t)


FORMS = ["list", "tuple", "int", "int32", "float32", "strided", "F",
         "reversed", "readonly"]


def form_of(a, form):
    """The same (integer-valued) numbers in another kind of container."""
    a = np.array(a, float)
    if form == "list":
        return a.tolist()
    if form == "tuple":
        t = a.tolist()
        return tuple(tuple(i) if isinstance(i, list) else i for i in t)
    if form == "int":
        return a.astype(int)
    if form == "int32":
        return a.astype(np.int32)
    if form == "float32":
        return a.astype(np.float32)
    if form == "strided":
        big = np.full(tuple(2*n for n in a.shape), -77.0)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if form == "F":
        return np.asfortranarray(a)
    if form == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if form == "readonly":
        a.flags.writeable = False
        return a
    raise ValueError(form)
