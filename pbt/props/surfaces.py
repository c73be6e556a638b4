"""C04 sag, C05 normals, C06 intersection, C11 equivalent surfaces."""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub

CLOSED = ("plane", "tilted", "parab", "sphere", "quadric")


def _scale(s, x, y):
    """Magnitude that rounding errors of the sag are relative to."""
    t = s["t"]
    r = np.hypot(x, y)
    if t in ("plane",):
        return 1.0+0*r
    if t == "tilted":
        return np.abs(x*s["tx"])+np.abs(y*s["ty"])+1e-300
    if t in ("parab", "sphere", "quadric"):
        return np.abs(O.sag(s, x, y))+abs(s["R"])*1e-2
    if t == "asphere":
        return (np.abs(O.conic_sag(r*r, s["R"], s["k"]))+abs(s["R"])*1e-2
                + sum(abs(a)*(r*r)**(i+s["imin"])
                      for i, a in enumerate(s["coefs"])))
    if t == "zernike":
        C = np.abs(O.zern_sum_poly(s["coef"], s["Ro"], s["Ri"]))
        # coefficient size of each polynomial, before cancellation
        tot = 0*r+1e-300
        u = np.abs(x-s.get("x0", 0))/s["Ro"]
        v = np.abs(y-s.get("y0", 0))/s["Ro"]
        for j, c in enumerate(s["coef"]):
            if j:
                tot = tot+abs(c)*np.polynomial.polynomial.polyval2d(
                    u, v, np.abs(O.zern_poly(j, s["Ri"]/s["Ro"])))
        return tot*30+np.max(C)
    if t == "bicubic":
        if "poly" in s:
            return 1.0+0*r
        return s["amp"]*10+1e-300+0*r
    if t == "sum":
        return sum(_scale(i, x, y) for i in s["items"])
    raise ValueError(t)


# ------------------------------------------------------------------------ C04

def _sag_case():
    return st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds, shape=st.sampled_from(
            [[], [1], [0], [7], [3, 4], [2, 3, 2], [40]]),
        form=st.sampled_from(["C", "F", "strided", "list", "int", "float32",
                              "scalar", "bcast"]),
        beyond=st.booleans()))


def _points(case, spec, rng, shape, beyond):
    n = int(np.prod(shape)) if shape else 1
    rm = G.rmax(spec)
    if beyond:
        x, y = rng.uniform(-2.2*rm, 2.2*rm, (2, n))
    else:
        x, y = G.disk(rng, n, rm)
    k = rng.random(n)
    x[k < 0.08] = 0.0
    y[(k < 0.04) | (k > 0.96)] = 0.0
    # some close to the axis
    k = (rng.random(n) < 0.12)*rng.uniform(-9, -1, n)
    x *= 10.0**k
    y *= 10.0**k
    return x.reshape(shape), y.reshape(shape)


@sub("C04", "formula", _sag_case, 6000,
     rule="the surface is not plane and at least one point is off-axis with a "
          "finite height")
def formula(case, ctx):
    spec = case["surf"]
    s = G.build_surface(spec)
    rng = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    x, y = _points(case, spec, rng, shape, case["beyond"])
    form = case["form"]
    if form == "int":
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    elif form == "float32":
        x, y = x.astype(np.float32), y.astype(np.float32)
    xd, yd = np.array(x, float), np.array(y, float)
    want = O.sag(spec, xd, yd)
    tol = 1e-12*_scale(spec, xd, yd)
    if case["beyond"]:
        # rounding at the very edge of the domain may go either way
        near = _near_edge(spec, xd, yd)
    else:
        near = np.zeros(shape, bool)
        near |= _near_edge(spec, xd, yd)

    def args():
        if form == "F" and shape:
            return np.asfortranarray(x), np.asfortranarray(y)
        if form == "strided":
            bx = np.full(tuple(2*i for i in x.shape), 7.7)
            by = np.full(tuple(3*i for i in x.shape), 7.7)
            sx = tuple(slice(None, None, 2) for _ in x.shape)
            sy = tuple(slice(None, None, 3) for _ in x.shape)
            bx[sx] = x
            by[sy] = y
            return bx[sx], by[sy]
        if form == "list":
            return x.tolist(), y.tolist()
        return x, y
    ax, ay = args()
    x0, y0 = np.array(ax), np.array(ay)
    got = s.sag(ax, ay)
    same(np.array(ax), x0, "sag modified x")
    same(np.array(ay), y0, "sag modified y")
    got = np.asarray(got)
    require(got.shape == shape, f"sag: shape {got.shape} for input {shape}")
    require(got.dtype == float, f"sag: dtype {got.dtype}")
    g = np.where(near, 0, got)
    w = np.where(near, 0, want)
    nan = np.isnan(w)
    require(np.array_equal(np.isnan(g), nan),
            lambda: f"sag is NaN at {np.argwhere(np.isnan(g) != nan)[0]} "
                    "where it should not be, or the reverse")
    if g.size:
        d = np.abs(g-w)
        bad = (d > tol+1e-15) & ~nan
        if bad.any():
            i = tuple(np.argwhere(np.atleast_1d(bad))[0])
            fail(f"sag({np.atleast_1d(xd)[i]!r}, {np.atleast_1d(yd)[i]!r}) = "
                 f"{np.atleast_1d(g)[i]!r}, expected {np.atleast_1d(w)[i]!r}")
    # point by point, exactly
    one = np.array([s.sag(float(a), float(b))
                    for a, b in zip(xd.ravel(), yd.ravel())],
                   float).reshape(shape)
    close(got, one, 0.1*tol+1e-16,
          "sag of an array differs from sag of its points")
    # again: nothing remembered
    same(np.asarray(s.sag(ax, ay)), got, "second evaluation differs")
    # scalar forms
    if xd.size:
        a, b = xd.ravel()[0], yd.ravel()[0]
        z = s.sag(np.float64(a), np.array(b))
        require(np.ndim(z) == 0, "sag of scalars is not a scalar")
        close(z, one.ravel()[0], 0.1*np.ravel(tol)[0]+1e-16,
              "sag of 0-d arguments")
    if form == "bcast" and xd.ndim == 1 and xd.size:
        close(np.asarray(s.sag(xd, yd.ravel()[0])),
              np.array([s.sag(a, yd.ravel()[0]) for a in xd]),
              1e-13*_scale(spec, xd, np.full_like(xd, yd.ravel()[0]))+1e-16,
              "sag of array and scalar")
    ctx.nt(spec["t"] != "plane" and bool(
        np.any(np.isfinite(want) & (np.hypot(xd, yd) > 0))))
    ctx.event(spec["t"])


def _near_edge(s, x, y):
    """Points within rounding of the limit of the domain of the formula, or of
    a cell boundary of a table."""
    out = np.zeros(np.shape(x), bool)
    if s["t"] == "sum":
        for i in s["items"]:
            out |= _near_edge(i, x, y)
    elif s["t"] in ("sphere", "quadric", "asphere"):
        k = 0.0 if s["t"] == "sphere" else s["k"]
        out |= np.abs(1-(1+k)*(x*x+y*y)/s["R"]**2) < 1e-6
    elif s["t"] == "bicubic":
        for v, v0, h in ((x, s["x0"], s["dx"]), (y, s["y0"], s["dy"])):
            f = (v-v0)/h
            out |= np.abs(f-np.round(f)) < 1e-9
    return out


@sub("C04", "nodes", lambda: st.one_of(G._bicubic(), G._bicubic_poly()), 600,
     rule="the table has non-zero heights")
def nodes(case, ctx):
    """A table interpolates its nodes, and is continuous across cells."""
    s = G.build_surface(case)
    xs, ys, zs, dx, dy, dxy = O.bicubic_table(case)
    a = max(np.max(np.abs(zs)), np.max(np.abs(dx)), np.max(np.abs(dy)), 1e-12)
    # just inside / across each interior node
    for sx in (-1, 1):
        for sy in (-1, 1):
            X, Y = np.meshgrid(xs[1:-1]+sx*1e-9*case["dx"],
                               ys[1:-1]+sy*1e-9*case["dy"])
            close(s.sag(X, Y), zs[1:-1, 1:-1], 1e-7*a,
                  "table does not pass through its nodes")
    same(s.xs, xs, "xs")
    same(s.ys, ys, "ys")
    same(s.zs, zs, "zs")
    close(s.dzdxs, dx, 1e-12*a/case["dx"], "dzdxs")
    close(s.dzdys, dy, 1e-12*a/case["dy"], "dzdys")
    close(s.d2zdxdys, dxy, 1e-11*a/case["dx"]/case["dy"], "d2zdxdys")
    ctx.nt(bool(np.any(zs)))


@sub("C04", "arguments", lambda: st.fixed_dictionaries(dict(
    t=st.sampled_from(["asphere", "zernike", "bicubic", "bicubic4"]),
    form=st.sampled_from(G.FORMS), seed=G.seeds, imin=st.integers(1, 3),
    n=st.integers(1, 6), m=st.integers(4, 6), ints=st.booleans())), 900,
    rule="the numbers are not handed over as a contiguous float64 array")
def surface_arguments(case, ctx):
    """The same numbers in other containers describe the same surface."""
    rng = np.random.default_rng(case["seed"])
    n, t = case["n"], case["t"]
    num = int if case["ints"] else float
    f = lambda a: G.form_of(a, case["form"])
    ctx.nt()
    ctx.event(f"{t} {case['form']}")
    if t == "asphere":
        c = rng.integers(-3, 4, n)
        R, k = num(rng.integers(2, 9)), num(rng.integers(-2, 1))
        a = batoid.Asphere(R, k, f(c), imin=case["imin"])
        spec = dict(t="asphere", R=float(R), k=float(k),
                    coefs=[float(i) for i in c], imin=case["imin"])
        lim = 1.0
    elif t == "zernike":
        c = rng.integers(-3, 4, n+1)
        Ro, x0, y0 = num(rng.integers(2, 5)), num(rng.integers(-1, 2)), num(0)
        Ri = num(rng.integers(0, 2))
        a = batoid.Zernike(f(c), R_outer=Ro, R_inner=Ri, x_origin=x0,
                           y_origin=y0)
        spec = dict(t="zernike", coef=[float(i) for i in c], Ro=float(Ro),
                    Ri=float(Ri), x0=float(x0), y0=float(y0))
        lim = 1.0
    else:
        xs, ys = np.arange(n+3)-2, np.arange(case["m"])-2
        X, Y = np.meshgrid(xs, ys)
        cf = rng.integers(-3, 4, 4)
        zs = cf[0]+cf[1]*X+cf[2]*Y+cf[3]*X*Y
        args = [xs, ys, zs]
        if t == "bicubic4":
            args += [cf[1]+cf[3]*Y, cf[2]+cf[3]*X, cf[3]+0*X]
        a = batoid.Bicubic(*[f(v) for v in args])
        spec = None
        lim = 0.9
    x = rng.uniform(-lim, lim, 12)
    y = rng.uniform(-lim, lim, 12)
    if spec is None:
        want = cf[0]+cf[1]*x+cf[2]*y+cf[3]*x*y
        gx, gy = cf[1]+cf[3]*y, cf[2]+cf[3]*x
    else:
        want = O.sag(spec, x, y)
        gx, gy = O.grad(spec, x, y)
    tol = 1e-9*(1+np.max(np.abs(want)))
    close(a.sag(x, y), want, tol, f"sag of {a!r}")
    nrm = np.stack([-gx, -gy, np.ones(12)], -1)
    nrm /= np.sqrt(np.sum(nrm**2, -1))[:, None]
    close(a.normal(x, y), nrm, 1e-9, f"normal of {a!r}")


# ------------------------------------------------------------------------ C05

def _known_slope(s):
    """Slopes implied by what tilted planes report, summed as Sum does."""
    if s["t"] == "tilted":
        n = O.known_tilted_normal(s["tx"], s["ty"])
        with np.errstate(all='ignore'):
            return lambda x, y: (np.full_like(x, -n[0]/n[2]),
                                 np.full_like(x, -n[1]/n[2]))
    if s["t"] == "sum":
        fs = [_known_slope(i) for i in s["items"]]
        return lambda x, y: tuple(
            sum(p) for p in zip(*[f(x, y) for f in fs]))
    return lambda x, y: O.grad(s, x, y)


def _normal_case():
    return st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds,
        shape=st.sampled_from([[], [1], [0], [9], [3, 4], [30]]),
        form=st.sampled_from(["C", "F", "strided", "list", "int"])))


@sub("C05", "normal", _normal_case, 6000,
     rule="the surface has a non-zero slope at one of the points")
def normal(case, ctx):
    spec = case["surf"]
    s = G.build_surface(spec)
    rng = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    x, y = _points(case, spec, rng, shape, False)
    if case["form"] == "int":
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    elif case["form"] == "F" and shape:
        x, y = np.asfortranarray(x), np.asfortranarray(y)
    elif case["form"] == "strided" and shape:
        b = np.zeros(tuple(2*i for i in shape))
        sl = tuple(slice(None, None, 2) for _ in shape)
        b[sl] = x
        x = b[sl]
    xd, yd = np.array(x, float), np.array(y, float)
    x0 = xd.copy()
    if case["form"] == "list":
        got = s.normal(x.tolist(), y.tolist())
    elif not shape:
        got = s.normal(float(x), float(y))
    else:
        got = s.normal(x, y)
    same(np.array(x, float), x0, "normal modified its argument")
    got = np.asarray(got)
    require(got.shape == shape+(3,),
            f"normal: shape {got.shape} for input {shape}")
    skip = _near_edge(spec, xd, yd) | ~np.isfinite(O.sag(spec, xd, yd))
    want = O.normal(spec, xd, yd)
    w, g = want[~skip], got[~skip]
    tol = 1e-11+1e-13*_grad_scale(spec)
    if O.has_tilted(spec):
        with np.errstate(all='ignore'):
            good = np.all(np.abs(g-w) <= tol)
        if not good:
            if spec["t"] == "tilted":
                k = np.broadcast_to(
                    O.known_tilted_normal(spec["tx"], spec["ty"]), got.shape)
            else:
                kx, ky = _known_slope(spec)(xd, yd)
                with np.errstate(all='ignore'):
                    k = np.stack([-kx, -ky, np.ones_like(kx)], axis=-1)
                    k = k/np.sqrt(np.sum(k*k, axis=-1))[..., None]
            close(g, k[~skip], tol, "normal of a tilted plane is neither "
                  "right nor the recorded wrong one")
            ctx.known("tilted-normal", "normal of a surface with a tilted "
                      f"plane: got {g[0].tolist() if len(g) else None}, "
                      f"perpendicular is {w[0].tolist() if len(w) else None}")
            return
    close(np.sum(g*g, axis=-1), np.ones(g.shape[:-1]), 1e-12,
          "normal is not of unit length")
    require(bool(np.all(g[..., 2] > 0)), "normal does not point up")
    close(g, w, tol, "normal is not perpendicular to the surface")
    ctx.nt(bool(np.any(np.abs(w[..., :2]) > 1e-12)))
    ctx.event(spec["t"])


def _grad_scale(s):
    if s["t"] == "sum":
        return sum(_grad_scale(i) for i in s["items"])
    if s["t"] == "zernike":
        tot = 0.0
        for j, c in enumerate(s["coef"]):
            if j:
                tot += abs(c)*np.sum(np.abs(O.zern_poly(j, s["Ri"]/s["Ro"])))
        return tot*100/s["Ro"]
    if s["t"] == "bicubic":
        return 100.0/min(s["dx"], s["dy"])
    return 10.0


@sub("C05", "difference", lambda: st.fixed_dictionaries(dict(
        surf=G.surface([k for k in G.SIMPLE if k != "tilted"],
                       tilted_in_sum=False), seed=G.seeds)), 1500,
     rule="the surface has a slope")
def difference(case, ctx):
    """The reported normal against differences of the reported sag."""
    spec = case["surf"]
    s = G.build_surface(spec)
    rng = np.random.default_rng(case["seed"])
    rm = G.rmax(spec)
    x, y = G.disk(rng, 10, 0.8*rm)
    h = 1e-4*rm
    near = _near_edge(spec, x, y)
    for dx, dy in ((-2*h, 0), (2*h, 0), (0, 2*h), (0, -2*h)):
        near |= _cell(spec, x, y) != _cell(spec, x+dx, y+dy)

    def d(ex, ey):
        f = lambda k: s.sag(x+k*h*ex, y+k*h*ey)
        return (8*(f(1)-f(-1))-(f(2)-f(-2)))/(12*h)
    gx, gy = d(1, 0), d(0, 1)
    n = np.asarray(s.normal(x, y))
    t = 1e-6*(1+np.hypot(gx, gy))
    bad = (np.abs(n[:, 0]+gx*n[:, 2]) > t) | (np.abs(n[:, 1]+gy*n[:, 2]) > t)
    bad &= ~near
    if bad.any():
        i = np.argmax(bad)
        fail(f"normal at ({x[i]!r}, {y[i]!r}) is {n[i].tolist()}, but the sag "
             f"has slopes {gx[i]!r}, {gy[i]!r}")
    ctx.nt(bool(np.any(np.hypot(gx, gy)[~near] > 1e-9)))


def _cell(s, x, y):
    """Which cell of which table."""
    if s["t"] == "sum":
        return sum((k+1)*_cell(i, x, y) for k, i in enumerate(s["items"]))
    if s["t"] == "bicubic":
        return (np.floor((x-s["x0"])/s["dx"])*1000
                + np.floor((y-s["y0"])/s["dy"]))
    return np.zeros(np.shape(x))


# ------------------------------------------------------------------------ C06

def _k(s):
    return dict(parab=-1.0, sphere=0.0).get(s["t"], s.get("k", 0.0))


def _other_root(spec, r, v, dt):
    """For a conic: time to the other point of the quadratic equation, NaN if
    none."""
    cp1, R = _k(spec)+1, spec["R"]
    a = cp1*v[:, 2]**2+v[:, 0]**2+v[:, 1]**2
    p = r+v*dt[:, None]
    b = 2*((cp1*p[:, 2]-R)*v[:, 2]+v[:, 0]*p[:, 0]+v[:, 1]*p[:, 1])
    with np.errstate(all='ignore'):
        return dt-b/a, a, b


def _invariants(spec, rv, m, msg, tol=1e-9):
    """Whatever came out: on the surface and on the line, or failed."""
    failed = np.array(rv.failed)
    vig = np.array(rv.vignetted)
    same(rv.wavelength, m.w, msg+": wavelength changed")
    same(rv.flux, m.f, msg+": flux changed")
    require(bool(np.all(failed >= m.fail)), msg+": failed flag was cleared")
    same(vig, m.vig | (failed & ~m.fail), msg+": vignetted flag")
    r, v, t = np.array(rv.r), np.array(rv.v), np.array(rv.t)
    live = ~failed
    close(v[live], m.v[live], 1e-15, msg+": velocity changed", rtol=1e-14)
    close(t[m.fail], m.t[m.fail], 0, msg+": time of a failed ray changed")
    if live.any():
        require(bool(np.all(np.isfinite(r[live])) and
                     np.all(np.isfinite(t[live]))),
                msg+": a ray that did not fail has no finite position")
        dt = t-m.t
        path = np.abs(dt)*np.sqrt(np.sum(m.v**2, axis=-1))
        s = 1+path+np.max(np.abs(m.r), axis=-1)
        d = np.max(np.abs(r-m.r-m.v*dt[:, None]), axis=-1)
        bad = live & ~(d <= 1e-12*s+1e-15*np.abs(m.t))
        if bad.any():
            i = np.argmax(bad)
            fail(f"{msg}: ray {i} is {d[i]!r} off its line (or its time is)")
        z = O.sag(spec, r[:, 0], r[:, 1])
        with np.errstate(all='ignore'):
            e = np.abs(z-r[:, 2])
            gx, gy = O.grad(spec, r[:, 0], r[:, 1])
            e = e/np.sqrt(1+gx*gx+gy*gy)
        edge = _near_edge(spec, r[:, 0], r[:, 1])
        bad = live & ~(e <= tol*s) & ~edge
        if bad.any():
            i = np.argmax(bad)
            fail(f"{msg}: ray {i} ends at {r[i].tolist()}, {e[i]!r} from the "
                 "surface")
    return live


def _run(s, m, how=0):
    rv = S.to_rv(m)
    if how == 0:
        out = s.intersect(rv)
    elif how == 1:
        out = batoid.intersect(s, rv)
    else:
        itf = batoid.Interface(s, name="s", coordSys=S.make_cs(m.frame))
        out = itf.intersect(rv)
    require(out is rv, "intersect did not return the rays it worked on")
    return out


def _mk(a, flags=None):
    n = len(a["t"])
    fl = np.zeros(n, int)
    if flags:
        k = min(n, len(flags))
        fl[:k] = flags[:k]
    return O.Rays(a["r"], a["v"], a["t"], a["w"], a["f"],
                  (fl & 1).astype(bool), (fl & 2).astype(bool))


def _hit_case():
    return st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds, n=st.integers(1, 10),
        ang=st.sampled_from([0.3, 1.0, 1.5, 1e-3, 1e-4]),
        smax=st.sampled_from([1., 30.]),
        how=st.integers(0, 2),
        flags=st.lists(st.sampled_from([0, 0, 0, 1, 2, 3]), max_size=6)))


@sub("C06", "aimed", _hit_case, 8000,
     rule="a ray that starts off the surface has exactly one point of the "
          "surface on its line and the surface is closed-form")
def aimed(case, ctx):
    spec = case["surf"]
    s = G.build_surface(spec)
    a = G.aimed(spec, case["seed"], case["n"], maxang=case["ang"],
                smax=case["smax"], frac=0.95)
    m = _mk(a, case["flags"])
    # drop targets that have no height (outside a table)
    fin = np.isfinite(a["p"][:, 2])
    if not fin.all():
        return
    rv = _run(s, m, case["how"])
    _invariants(spec, rv, m, "intersect")
    if spec["t"] not in CLOSED:
        ctx.event("iterative")
        return
    n = O.normal(spec, a["p"][:, 0], a["p"][:, 1])
    sp = np.sqrt(np.sum(a["v"]**2, axis=-1))
    ci = np.abs(np.sum(n*a["v"], axis=-1))/sp
    good = (ci > 2e-3) & ~m.fail
    single = good.copy()
    if spec["t"] in ("parab", "sphere", "quadric"):
        dt2, qa, qb = _other_root(spec, a["r"], a["v"], a["dt"])
        with np.errstate(all='ignore'):
            z2 = a["r"][:, 2]+a["v"][:, 2]*dt2
            w = 1-(1+_k(spec))*z2/spec["R"]
            exists = np.isfinite(dt2) & (np.abs(qa) > 1e-13)
            # second crossing is a point of the (half) surface
            single &= ~exists | (w < -1e-6)
            good &= ~exists | (np.abs(w) > 1e-6)
            # far away second roots lose precision, not existence
    failed = np.array(rv.failed)
    if (failed & good).any():
        i = np.argmax(failed & good)
        fail(f"ray {i} from {a['r'][i].tolist()} along {a['v'][i].tolist()} "
             f"meets the surface at {a['p'][i].tolist()} but was marked failed")
    d = np.sqrt(np.sum((np.array(rv.r)-a["p"])**2, axis=-1))
    lim = 1e-10*(1+np.abs(a["dt"])+np.abs(a["p"]).max(axis=-1))/ci**2
    bad = single & ~(d <= lim)
    if bad.any():
        i = np.argmax(bad)
        fail(f"ray {i} from {a['r'][i].tolist()} along {a['v'][i].tolist()} "
             f"meets the surface only at {a['p'][i].tolist()}, but ended at "
             f"{np.array(rv.r)[i].tolist()}")
    tt = a["t"]+a["dt"]
    bad = single & ~(np.abs(np.array(rv.t)-tt) <= 3*lim)
    if bad.any():
        i = np.argmax(bad)
        fail(f"ray {i}: time {rv.t[i]!r} instead of {tt[i]!r}")
    ctx.nt(bool((single & (np.abs(a["dt"]) > 1e-6)).any()))
    ctx.event(spec["t"])


@sub("C06", "grazing", lambda: st.fixed_dictionaries(dict(
        surf=st.one_of(G._plane(), G._tilted()), seed=G.seeds,
        n=st.integers(1, 6), how=st.integers(0, 2))), 1500,
     rule="a ray is within a milliradian of parallel to the plane")
def grazing(case, ctx):
    """Planes are met by every ray that is not parallel to them."""
    spec = case["surf"]
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    x, y = rng.uniform(-3, 3, (2, n))
    p = np.stack([x, y, O.sag(spec, x, y)], axis=-1)
    nn = O.normal(spec, x, y)
    w = rng.normal(size=(n, 3))
    w -= np.sum(w*nn, axis=-1)[:, None]*nn
    w /= np.sqrt(np.sum(w*w, axis=-1))[:, None]
    e = 10.0**rng.uniform(-9, -1, n)
    d = w+(e*rng.choice([-1, 1], n))[:, None]*nn
    d /= np.sqrt(np.sum(d*d, axis=-1))[:, None]
    sp = rng.choice([1.0, 0.7, G.AIR], n)
    dist = rng.uniform(-5, 5, n)
    a = dict(r=p-d*dist[:, None], v=d*sp[:, None], t=rng.uniform(-1, 1, n),
             w=np.full(n, 5e-7), f=np.ones(n))
    m = _mk(a)
    rv = _run(G.build_surface(spec), m, case["how"])
    _invariants(spec, rv, m, "intersect")
    if np.array(rv.failed).any():
        i = np.argmax(np.array(rv.failed))
        fail(f"ray {i} from {a['r'][i].tolist()} along {a['v'][i].tolist()} "
             f"meets the plane at {p[i].tolist()} but was marked failed")
    off = np.sqrt(np.sum((np.array(rv.r)-p)**2, axis=-1))
    bad = ~(off <= 1e-13/e)
    if bad.any():
        i = np.argmax(bad)
        fail(f"ray {i} meets the plane at {p[i].tolist()}, but ended at "
             f"{np.array(rv.r)[i].tolist()}")
    ctx.nt(bool(np.any(e < 1e-3)))
    ctx.event(spec["t"])


def _gentle_case():
    return st.fixed_dictionaries(dict(
        surf=S._gentle(), seed=G.seeds, n=st.integers(1, 8),
        ang=st.sampled_from([0.02, 0.25])))


@sub("C06", "gentle", _gentle_case, 3000,
     rule="the surface is solved by iteration")
def gentle(case, ctx):
    """Weakly curved surfaces and steep rays that start nearby: the target is
    the only crossing and has to be found by the iterative solvers, too."""
    spec = case["surf"]
    s = G.build_surface(spec)
    frac = 1.0/max(G.rmax(spec), 1e-9)*min(1.2, 0.5*G.rmax(spec))
    a = G.aimed(spec, case["seed"], case["n"], maxang=case["ang"], smax=2.0,
                frac=frac)
    m = _mk(a)
    rv = _run(s, m)
    _invariants(spec, rv, m, "intersect")
    if np.array(rv.failed).any():
        i = np.argmax(np.array(rv.failed))
        fail(f"ray {i} from {a['r'][i].tolist()} along {a['v'][i].tolist()} "
             f"meets the surface at {a['p'][i].tolist()} but was marked failed")
    close(np.array(rv.r), a["p"], 1e-10, "intersection point")
    close(np.array(rv.t), a["t"]+a["dt"], 1e-9, "time of intersection")
    ctx.nt(S.is_newton(spec))
    ctx.event(spec["t"])


def _miss_case():
    return st.fixed_dictionaries(dict(
        surf=st.one_of(G._parab(), G._sphere(), G._quadric(), G._plane(),
                       G._tilted(), G._bicubic(nan=False)), seed=G.seeds,
        n=st.integers(1, 6), off=G.num(0.01, 1)))


@sub("C06", "miss", _miss_case, 3000, rule="always")
def miss(case, ctx):
    """Lines that have no point in common with the surface."""
    spec = case["surf"]
    s = G.build_surface(spec)
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    x, y = G.disk(rng, n, 0.9*G.rmax(spec))
    z = O.sag(spec, x, y)
    p = np.stack([x, y, z], axis=-1)
    sp = rng.choice([1.0, 0.7], n)
    t = spec["t"]
    if t == "bicubic":
        # far outside the table, along z
        side = rng.choice([-1, 1], n)
        p[:, 0] += side*(s.xs[-1]-s.xs[0]+1)
        d = np.tile([0, 0, 1.0], (n, 1))*rng.choice([-1, 1], n)[:, None]
        p[:, 2] = rng.uniform(-1, 1, n)
    else:
        nn = O.normal(spec, x, y)
        w = rng.normal(size=(n, 3))
        if t == "plane":
            w[:, 2] = 0
            nn = np.tile([0, 0, 1.0], (n, 1))
        d = w-np.sum(w*nn, axis=-1)[:, None]*nn
        if t == "tilted":
            # exactly representable slopes would be needed: use lines on which
            # the slope cancels exactly
            d = np.tile([0.0, 0.0, 0.0], (n, 1))
            d[:, 0] = spec["ty"]
            d[:, 1] = -spec["tx"]
            if spec["tx"] == 0 and spec["ty"] == 0:
                d[:, 0] = 1.0
            den = d[:, 0]*spec["tx"]+d[:, 1]*spec["ty"]-d[:, 2]
            if np.any(den != 0):
                return
            sp = np.ones(n)
        d = d/np.sqrt(np.sum(d*d, axis=-1))[:, None]
        if t == "tilted":
            den = d[:, 0]*spec["tx"]+d[:, 1]*spec["ty"]-d[:, 2]
            if np.any(den != 0):
                return
        if t == "plane":
            d[:, 2] = 0.0
        # outside of a convex surface, or off a plane
        side = -np.sign(spec["R"]) if "R" in spec else rng.choice([-1, 1], n)
        p = p+np.reshape(side*case["off"], (-1, 1))*nn
        p = p+d*rng.uniform(-2, 2, n)[:, None]
    a = dict(r=p, v=d*sp[:, None], t=rng.uniform(-1, 1, n),
             w=np.full(n, 5e-7), f=np.ones(n))
    m = _mk(a)
    rv = _run(s, m)
    if not np.array(rv.failed).all():
        i = np.argmin(np.array(rv.failed))
        fail(f"ray {i} from {p[i].tolist()} along {a['v'][i].tolist()} has no "
             f"point on the surface but was moved to {rv.r[i].tolist()}")
    require(bool(np.array(rv.vignetted).all()),
            "failed rays are not vignetted")
    ctx.nt()
    ctx.event(t)


def _wild_case():
    return st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds, n=st.integers(1, 12),
        axis=st.booleans()))


@sub("C06", "wild", _wild_case, 4000, rule="a ray came out not failed")
def wild(case, ctx):
    """Arbitrary rays: on the surface and on the line, or failed."""
    spec = case["surf"]
    s = G.build_surface(spec)
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    L = 1.5*min(G.rmax(spec), 20)
    r = rng.uniform(-L, L, (n, 3))
    v = rng.normal(size=(n, 3))
    if case["axis"]:
        v = np.eye(3)[rng.integers(0, 3, n)]*rng.choice([-1., 1.], n)[:, None]
        r[rng.random(n) < 0.3] = 0.0
    v /= np.sqrt(np.sum(v*v, axis=-1))[:, None]
    m = _mk(dict(r=r, v=v, t=rng.uniform(-1, 1, n), w=np.full(n, 5e-7),
                 f=np.ones(n)))
    rv = _run(s, m)
    live = _invariants(spec, rv, m, "intersect", 1e-8)
    ctx.nt(bool(live.any()))
    ctx.event(spec["t"])


# ------------------------------------------------------------------------ C11

def _pairs():
    R = G.signed(2, 30)
    k = G.conic()
    q = lambda R, k: dict(t="quadric", R=R, k=k)
    sp = lambda R: dict(t="sphere", R=R)
    pb = lambda R: dict(t="parab", R=R)
    pl = dict(t="plane")

    def asph(R, k, c, imin=2):
        return dict(t="asphere", R=R, k=k, coefs=c, imin=imin)

    def sm(*i):
        return dict(t="sum", items=list(i))

    def zern(c, Ro=1.0, Ri=0.0, x0=0.0, y0=0.0):
        return dict(t="zernike", coef=c, Ro=Ro, Ri=Ri, x0=x0, y0=y0)

    def zpar(R, Ro, eps):
        # r^2/(2R) over an annulus: Z4 = sqrt3 (2 u - 1 - e^2)/(1-e^2)
        e2 = eps*eps
        c4 = Ro*Ro/(2*R)*(1-e2)/(2*math.sqrt(3))
        c1 = Ro*Ro/(2*R)*(1+e2)/2
        return zern([7.0, c1, 0.0, 0.0, c4], Ro, eps*Ro)

    def bic_par(R, n, h):
        return dict(t="bicubic", x0=-h*(n-1)/2, y0=-h*(n-1)/2, dx=h, dy=h,
                    nx=n, ny=n, nan="nan", deriv="given",
                    poly=[[0, 0, 1/(2*R)], [0, 0, 0], [1/(2*R), 0, 0]])

    def zern_sub(c, Ro, eps):
        """The same polynomial (order <= 3) as circular Zernike, annular
        Zernike and bicubic table."""
        return zern([0.0]+[i*1e-2 for i in c], Ro, eps*Ro)

    eps = st.sampled_from([0.0, 0.25, 0.6])
    smallc = st.lists(G.num(-1, 1), min_size=1, max_size=2).map(
        lambda c: [x*1e-5 for x in c])
    gent = S._gentle()
    return st.one_of(
        G.builds(lambda R: [sp(R), q(R, 0.0)], R),
        G.builds(lambda R: [pb(R), q(R, -1.0)], R),
        G.builds(lambda R, k: [q(R, k), asph(R, k, [])], R, k),
        G.builds(lambda R, k, i: [q(R, k), asph(R, k, [0.0, 0.0], i)], R, k,
                 st.integers(1, 4)),
        G.builds(lambda R, k, a: [asph(R, k, [a*1e-5], 3),
                                  asph(R, k, [0.0, a*1e-5], 2)], R, k,
                 G.num(-1, 1)),
        G.builds(lambda R, k, a, b: [asph(R, k, [a*1e-4, b*1e-5], 2),
                                     asph(R, k, [0.0, a*1e-4, b*1e-5], 1)],
                 R, k, G.num(-1, 1), G.num(-1, 1)),
        # r^2 term of an asphere with conic -1 is a change of R
        G.builds(lambda R, a: [asph(R, -1.0, [a*1e-2], 1),
                               pb(1/(1/R+2*a*1e-2))], R, G.num(-1, 1)),
        st.sampled_from([
            [pl, dict(t="tilted", tx=0.0, ty=0.0)], [pl, sm(pl)],
            [pl, sm(pl, pl)], [pl, zern([0.0, 0.0, 0.0])],
            [pl, zern([3.0])], [pl, zern([0.0]*11, 2.0, 0.5)],
            [pl, dict(t="bicubic", x0=-5., y0=-5., dx=1., dy=2.5, nx=11, ny=5,
                      poly=[[0.0]], deriv="given", nan="nan")],
            [pl, sm(pb(10.0), pb(-10.0))], [pl, sm(sp(9.0), sp(-9.0))],
            [pl, sm(q(9.0, 0.5), q(-9.0, 0.5))]]),
        G.builds(lambda s: [s, sm(s)], gent),
        G.builds(lambda s: [s, sm(s, pl)], gent),
        G.builds(lambda R: [pb(R/2), sm(pb(R), pb(R))], R),
        G.builds(lambda c: [zern([2e-2*i for i in c], 3.0),
                            sm(zern([1e-2*i for i in c], 3.0),
                               zern([1e-2*i for i in c], 3.0))],
                 st.lists(G.num(-1, 1), min_size=2, max_size=6)),
        G.builds(lambda s: [s, sm(pl, s)], gent),
        G.builds(lambda a, b: [sm(a, b), sm(b, a)], gent, gent),
        G.builds(lambda a, b, c: [sm(sm(a, b), c), sm(a, b, c), sm(a, sm(b, c)),
                                  sm(c, b, a)], gent, gent, gent),
        G.builds(lambda a, b: [pb(1/(1/a+1/b)) if abs(1/a+1/b) > 1e-6 else pl,
                               sm(pb(a), pb(b))], R, R),
        G.builds(lambda R, k, a: [asph(R, k, [a*1e-4]),
                                  sm(q(R, k), _r4(a*1e-4, 2.0))], R, k,
                 G.num(-1, 1)),
        G.builds(lambda R, Ro, e: [pb(R), zpar(R, Ro, e)], R, G.num(2, 4),
                 eps),
        G.builds(lambda R, Ro, e: [zpar(R, Ro, e), zpar(R, Ro*1.5, 0.0)], R,
                 G.num(2, 4), eps),
        G.builds(lambda R, n: [pb(R), bic_par(R, n, 6.0/(n-1))], R,
                 st.integers(4, 9)),
        G.builds(lambda c, Ro, e: [zern_sub(c, Ro, e)]
                 + _poly_forms(zern_sub(c, Ro, e)),
                 st.lists(G.num(-1, 1), min_size=1, max_size=10),
                 G.num(2, 4), eps),
        # moved origin of a Zernike = moved polynomial
        G.builds(lambda c, x0, y0: [
            zern([0.0]+[i*1e-2 for i in c], 3.0, 0.0, x0, y0)]
            + _poly_forms(zern([0.0]+[i*1e-2 for i in c], 3.0, 0.0, x0, y0)),
            st.lists(G.num(-1, 1), min_size=1, max_size=6),
            G.num(-0.3, 0.3), G.num(-0.3, 0.3)),
    )


def _r4(a, Ro):
    """a r^4 as Zernike terms 1, 4, 11: Z11 = sqrt5 (6 u^2 - 6 u + 1), u=r2/Ro2."""
    A = a*Ro**4
    c11 = A/(6*math.sqrt(5))
    # A u^2 = c11 Z11 + A u - A/6 ; u = (Z4/sqrt3+1)/2
    c4 = A/(2*math.sqrt(3))
    c1 = A/2-A/6
    return dict(t="zernike", coef=[0.0, c1]+[0.0]*2+[c4]+[0.0]*6+[c11],
                Ro=Ro, Ri=0.0)


def _poly_forms(z):
    """Table and circular-Zernike forms of a low-order Zernike surface."""
    C = O.zern_sum_poly(z["coef"], z["Ro"], z["Ri"])
    n = C.shape[0]
    # expand around the origin
    out = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if C[a, b] == 0:
                continue
            for i in range(a+1):
                for j in range(b+1):
                    out[i, j] += (C[a, b]/z["Ro"]**(a+b)
                                  * math.comb(a, i)*(-z.get("x0", 0))**(a-i)
                                  * math.comb(b, j)*(-z.get("y0", 0))**(b-j))
    forms = []
    if n <= 4:
        forms.append(dict(t="bicubic", x0=-3.0, y0=-3.0, dx=0.75, dy=1.0,
                          nx=9, ny=7, poly=out.tolist(), deriv="given",
                          nan="nan"))
    # least-squares into circular Zernikes of another radius (exact)
    rng = np.random.default_rng(0)
    x, y = rng.uniform(-2, 2, (2, 200))
    jmax = n*(n+1)//2
    B = O.zern_basis(jmax, x, y, 2.5, 0.0)[1:].T
    c = np.linalg.lstsq(B, np.polynomial.polynomial.polyval2d(x, y, out),
                        rcond=None)[0]
    forms.append(dict(t="zernike", coef=[0.0]+c.tolist(), Ro=2.5, Ri=0.0,
                      x0=0.0, y0=0.0))
    return forms


@sub("C11", "equivalent", lambda: st.fixed_dictionaries(dict(
        pair=_pairs(), seed=G.seeds, n=st.integers(1, 6),
        n2=G.const_medium(), ang=st.sampled_from([0.02, 0.25]))), 4000,
     rule="the shape is not plane, or the two types differ")
def equivalent(case, ctx):
    specs = case["pair"]
    surfs = [G.build_surface(s) for s in specs]
    rm = min(0.4*min(S._absR(s), 4.0) for s in specs)
    rm = min([rm]+[0.7*G.rmax(s) for s in specs])
    a = G.aimed(specs[0], case["seed"], case["n"], maxang=case["ang"],
                smax=1.0, frac=rm/G.rmax(specs[0]), speeds=(1.0, 1/1.3, G.AIR))
    x, y = a["p"][:, 0], a["p"][:, 1]
    base = surfs[0]
    m = _mk(a)
    n1 = batoid.ConstMedium(1.0)
    speed = np.sqrt(np.sum(a["v"]**2, axis=-1))
    m2 = G.build_medium(case["n2"])
    ops = [("intersect", lambda s, rv: s.intersect(rv)),
           ("reflect", lambda s, rv: s.reflect(rv))]
    sel = speed > 0.99
    for s, sp in zip(surfs[1:], specs[1:]):
        lab = f"{specs[0]['t']} and {sp['t']}"
        close(s.sag(x, y), base.sag(x, y), 1e-11, lab+": sag")
        close(s.normal(x, y), base.normal(x, y), 1e-10, lab+": normal")
        for name, op in ops:
            p, q = op(base, S.to_rv(m)), op(s, S.to_rv(m))
            same(p.failed, np.zeros(len(p), bool), f"{lab}: {name} failed")
            same(q.failed, np.zeros(len(q), bool), f"{lab}: {name} failed")
            close(q.r, np.array(p.r), 1e-9, f"{lab}: {name} position")
            close(q.v, np.array(p.v), 1e-9, f"{lab}: {name} velocity")
            close(q.t, np.array(p.t), 1e-9, f"{lab}: {name} time")
        if sel.any():
            mm = m.take(sel)
            p = base.refract(S.to_rv(mm), n1, m2)
            q = s.refract(S.to_rv(mm), n1, m2)
            same(q.failed, np.array(p.failed), f"{lab}: refract failed")
            ok = ~np.array(p.failed)
            close(np.array(q.r)[ok], np.array(p.r)[ok], 1e-9,
                  f"{lab}: refract position")
            close(np.array(q.v)[ok], np.array(p.v)[ok], 1e-9,
                  f"{lab}: refract velocity")
    ctx.nt(len({s["t"] for s in specs}) > 1
           or bool(np.any(np.abs(a["p"][:, 2]) > 1e-9)))
    ctx.event("/".join(s["t"] for s in specs[:2]))
    # the + operator
    if specs[0]["t"] == "sum" and len(specs[0]["items"]) == 2:
        u, v = (G.build_surface(i) for i in specs[0]["items"])
        require(u+v == base, "a + b is not Sum([a, b])")
        same(np.asarray((u+v).sag(x, y)), np.asarray(base.sag(x, y)),
             "sag of a + b")
    # every way to call Sum
    if specs[0]["t"] == "sum":
        items = [G.build_surface(i) for i in specs[0]["items"]]
        for how, w in [("Sum(*items)", batoid.Sum(*items)),
                       ("Sum(tuple)", batoid.Sum(tuple(items)))]:
            require(w == base, f"{how} is not Sum([items])")
            same(np.asarray(w.sag(x, y)), np.asarray(base.sag(x, y)),
                 f"sag of {how}")
    for how, one in [("Sum(s)", batoid.Sum(base)),
                     ("Sum([s])", batoid.Sum([base]))]:
        same(np.asarray(one.sag(x, y)), np.asarray(base.sag(x, y)),
             f"sag of {how}")
        close(one.normal(x, y), base.normal(x, y), 1e-10, f"normal of {how}")

