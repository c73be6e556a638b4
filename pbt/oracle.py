"""Reference models, written with numpy from the documented formulas only.

Nothing here calls batoid.
"""
import json
import math

import numpy as np

# ------------------------------------------------------------------ rotations


def rot_axis(axis, th):
    c, s = math.cos(th), math.sin(th)
    if axis == "x":
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]], float)
    if axis == "y":
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]], float)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]], float)


def rot_list(lst):
    """Product of rotations [["x", angle], ...], applied left to right as
    local rotations (R = R1 R2 ...)."""
    R = np.eye(3)
    for ax, th in lst:
        R = R@rot_axis(ax, th)
    return R


class Frame:
    """Origin and axes (columns of rot) in global coordinates."""
    def __init__(self, o=(0, 0, 0), rot=None):
        self.o = np.array(o, float)
        self.rot = np.eye(3) if rot is None else np.array(rot, float)

    @classmethod
    def spec(cls, d):
        return cls(d["o"], rot_list(d["rot"]))

    def to_global(self, r):
        return np.asarray(r, float)@self.rot.T + self.o

    def to_local(self, r):
        return (np.asarray(r, float)-self.o)@self.rot

    def vec_to_global(self, v):
        return np.asarray(v, float)@self.rot.T

    def vec_to_local(self, v):
        return np.asarray(v, float)@self.rot

    def shift_global(self, dr):
        return Frame(self.o+np.asarray(dr, float), self.rot)

    def shift_local(self, dr):
        return Frame(self.o+self.rot@np.asarray(dr, float), self.rot)

    def rotate_global(self, R, pivot=(0, 0, 0)):
        p = np.asarray(pivot, float)
        return Frame(R@(self.o-p)+p, R@self.rot)

    def rotate_local(self, R, pivot=None):
        """Rotate about axes parallel to the own ones through the global point
        pivot (default: own origin)."""
        p = self.o if pivot is None else np.asarray(pivot, float)
        G = self.rot@R@self.rot.T
        return Frame(G@(self.o-p)+p, self.rot@R)


# ----------------------------------------------------------- Zernike (annular)

def noll(j):
    """Noll index -> (n, m), m<0 for sine terms."""
    n, j1 = 0, j-1
    while j1 > n:
        n += 1
        j1 -= n
    m = (-1)**j*((n % 2)+2*int((j1+((n+1) % 2))/2.0))
    return n, m


_rad_cache = {}


def _radial(n, m, eps):
    """Coefficients (of increasing powers r^0..r^n) of the annular radial
    polynomial, normalised so that Z (with its azimuthal factor) has unit mean
    square over the annulus.  By Gram-Schmidt on r^m, r^(m+2), ..., r^n."""
    key = (n, m, eps)
    if key in _rad_cache:
        return _rad_cache[key]
    x, w = np.polynomial.legendre.leggauss(60)
    # integrate over s=r^2, uniform density on [eps^2, 1]
    s = eps*eps+(x+1)/2*(1-eps*eps)
    w = w/2
    r = np.sqrt(s)
    basis = []
    for k in range(m, n+1, 2):
        c = np.zeros(n+1)
        c[k] = 1.0
        for _ in range(2):
            val = np.polynomial.polynomial.polyval(r, c)
            for b in basis:
                bv = np.polynomial.polynomial.polyval(r, b)
                c = c - np.sum(w*val*bv)*b
                val = np.polynomial.polynomial.polyval(r, c)
        val = np.polynomial.polynomial.polyval(r, c)
        c = c/math.sqrt(np.sum(w*val*val))
        basis.append(c)
    c = basis[-1]
    if m > 0:
        c = c*math.sqrt(2.0)
    _rad_cache[key] = c
    return c


_cart_cache = {}


def zern_poly(j, eps):
    """2-D polynomial coefficient array C[a, b] of x^a y^b of annular Zernike
    j over the annulus eps..1."""
    key = (j, eps)
    if key in _cart_cache:
        return _cart_cache[key]
    n, m = noll(j)
    am = abs(m)
    rad = _radial(n, am, eps)
    C = np.zeros((n+1, n+1))
    # r^k cos(m t) = (x^2+y^2)^((k-m)/2) Re[(x+iy)^m]
    for k in range(am, n+1, 2):
        if rad[k] == 0:
            continue
        h = (k-am)//2
        for p in range(h+1):
            cp = math.comb(h, p)
            for q in range(am+1):
                z = math.comb(am, q)*(1j**q)
                part = z.real if m >= 0 else z.imag
                if part:
                    C[2*p+am-q, 2*(h-p)+q] += rad[k]*cp*part
    _cart_cache[key] = C
    return C


def zern_sum_poly(coef, R_outer, R_inner):
    eps = R_inner/R_outer
    n = max((noll(j)[0] for j in range(1, len(coef))), default=0)
    C = np.zeros((n+1, n+1))
    for j in range(1, len(coef)):
        if coef[j]:
            P = zern_poly(j, eps)
            C[:P.shape[0], :P.shape[1]] += coef[j]*P
    return C


def zern_basis(jmax, x, y, R_outer=1.0, R_inner=0.0):
    """[jmax+1, n] values (row 0 is zero)."""
    u = np.asarray(x, float)/R_outer
    v = np.asarray(y, float)/R_outer
    out = [np.zeros_like(u)]
    for j in range(1, jmax+1):
        out.append(np.polynomial.polynomial.polyval2d(
            u, v, zern_poly(j, R_inner/R_outer)))
    return np.array(out)


def zern_basis_grad(jmax, x, y, R_outer=1.0, R_inner=0.0):
    u = np.asarray(x, float)/R_outer
    v = np.asarray(y, float)/R_outer
    gx = [np.zeros_like(u)]
    gy = [np.zeros_like(u)]
    P = np.polynomial.polynomial
    for j in range(1, jmax+1):
        C = zern_poly(j, R_inner/R_outer)
        gx.append(P.polyval2d(u, v, _pdx(C))/R_outer)
        gy.append(P.polyval2d(u, v, _pdy(C))/R_outer)
    return np.array(gx), np.array(gy)


def _pdx(C):
    if C.shape[0] == 1:
        return np.zeros((1, C.shape[1]))
    return C[1:]*np.arange(1, C.shape[0])[:, None]


def _pdy(C):
    if C.shape[1] == 1:
        return np.zeros((C.shape[0], 1))
    return C[:, 1:]*np.arange(1, C.shape[1])[None, :]


# ------------------------------------------------------------------- bicubic

_tab_cache = {}


def bicubic_table(s):
    """Grid arrays of a bicubic spec: xs, ys, zs, dzdx, dzdy, d2zdxdy."""
    key = json.dumps(s, sort_keys=True)
    if key not in _tab_cache:
        if len(_tab_cache) > 50:
            _tab_cache.clear()
        _tab_cache[key] = _bicubic_table(s)
    return tuple(a.copy() for a in _tab_cache[key])


def _bicubic_table(s):
    xs = s["x0"]+s["dx"]*np.arange(s["nx"])
    ys = s["y0"]+s["dy"]*np.arange(s["ny"])
    X, Y = np.meshgrid(xs, ys)
    P = np.polynomial.polynomial
    if "poly" in s:
        C = np.array(s["poly"], float)
        zs = P.polyval2d(X, Y, C)
        dx = P.polyval2d(X, Y, _pdx(C))
        dy = P.polyval2d(X, Y, _pdy(C))
        dxy = P.polyval2d(X, Y, _pdy(_pdx(C)))
    else:
        rng = np.random.default_rng(s["seed"])
        a = s["amp"]
        zs, dx, dy, dxy = (a*rng.uniform(-1, 1, size=X.shape) for _ in range(4))
    if s.get("deriv", "given") == "default":
        gx, gy = abs_diff(zs, s["dx"], 1), abs_diff(zs, s["dy"], 0)
        dx, dy = gx, gy
        dxy = abs_diff(dy, s["dx"], 1)
    return xs, ys, zs, dx, dy, dxy


def abs_diff(a, h, axis):
    """Central differences inside, one-sided at the edges."""
    a = np.moveaxis(a, axis, 0)
    out = np.empty_like(a)
    out[1:-1] = (a[2:]-a[:-2])/(2*h)
    out[0] = (a[1]-a[0])/h
    out[-1] = (a[-1]-a[-2])/h
    return np.moveaxis(out, 0, axis)


def _hermite(u):
    return ((1+2*u)*(1-u)**2, u*(1-u)**2, u*u*(3-2*u), u*u*(u-1))


def _dhermite(u):
    return (6*u*u-6*u, 3*u*u-4*u+1, 6*u-6*u*u, 3*u*u-2*u)


def bicubic_eval(s, x, y):
    """(z, dzdx, dzdy) by the tensor-product Hermite form."""
    xs, ys, zs, zx, zy, zxy = bicubic_table(s)
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    hx, hy = s["dx"], s["dy"]
    fx = np.floor((x-s["x0"])/hx)
    fy = np.floor((y-s["y0"])/hy)
    out = (fx < 0) | (fy < 0) | (fx >= s["nx"]-1) | (fy >= s["ny"]-1) \
        | ~np.isfinite(fx) | ~np.isfinite(fy)
    ix = np.where(out, 0, fx).astype(int)
    iy = np.where(out, 0, fy).astype(int)
    u = (x-xs[ix])/hx
    v = (y-ys[iy])/hy
    A, dA = _hermite(u), _dhermite(u)
    B, dB = _hermite(v), _dhermite(v)

    def comb(A, B):
        r = 0
        for i in (0, 1):
            for j in (0, 1):
                a0, a1 = A[2*i], A[2*i+1]*hx
                b0, b1 = B[2*j], B[2*j+1]*hy
                k = (iy+j, ix+i)
                r = r+a0*b0*zs[k]+a1*b0*zx[k]+a0*b1*zy[k]+a1*b1*zxy[k]
        return r
    fillv = 0.0 if s.get("nan", "nan") == "zero" else np.nan
    z = np.where(out, fillv, comb(A, B))
    gx = np.where(out, fillv, comb(dA, B)/hx)
    gy = np.where(out, fillv, comb(A, dB)/hy)
    return z, gx, gy


# ------------------------------------------------------------------ surfaces

def sag(s, x, y):
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    t = s["t"]
    with np.errstate(all='ignore'):
        if t == "plane":
            return np.zeros(np.broadcast(x, y).shape)
        if t == "tilted":
            return x*s["tx"]+y*s["ty"]
        r2 = x*x+y*y
        if t == "parab":
            return r2/(2*s["R"])
        if t == "sphere":
            return conic_sag(r2, s["R"], 0.0)
        if t == "quadric":
            return conic_sag(r2, s["R"], s["k"])
        if t == "asphere":
            z = conic_sag(r2, s["R"], s["k"])
            for i, a in enumerate(s["coefs"]):
                z = z+a*r2**(i+s.get("imin", 2))
            return z
        if t == "zernike":
            C = zern_sum_poly(s["coef"], s["Ro"], s["Ri"])
            return np.polynomial.polynomial.polyval2d(
                (x-s.get("x0", 0.0))/s["Ro"], (y-s.get("y0", 0.0))/s["Ro"], C)
        if t == "bicubic":
            return bicubic_eval(s, x, y)[0]
        if t == "sum":
            return sum(sag(i, x, y) for i in s["items"])
    raise ValueError(t)


def conic_sag(r2, R, k):
    return r2/(R*(1+np.sqrt(1-(1+k)*r2/R**2)))


def grad(s, x, y):
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    t = s["t"]
    zero = np.zeros(np.broadcast(x, y).shape)
    with np.errstate(all='ignore'):
        if t == "plane":
            return zero, zero.copy()
        if t == "tilted":
            return zero+s["tx"], zero+s["ty"]
        r2 = x*x+y*y
        if t == "parab":
            return x/s["R"], y/s["R"]
        if t in ("sphere", "quadric", "asphere"):
            k = 0.0 if t == "sphere" else s["k"]
            # dz/d(r^2) * 2
            g = 1/(s["R"]*np.sqrt(1-(1+k)*r2/s["R"]**2))
            if t == "asphere":
                for i, a in enumerate(s["coefs"]):
                    p = i+s.get("imin", 2)
                    g = g+2*a*p*r2**(p-1)
            return x*g, y*g
        if t == "zernike":
            C = zern_sum_poly(s["coef"], s["Ro"], s["Ri"])
            u = (x-s.get("x0", 0.0))/s["Ro"]
            v = (y-s.get("y0", 0.0))/s["Ro"]
            P = np.polynomial.polynomial
            return (P.polyval2d(u, v, _pdx(C))/s["Ro"],
                    P.polyval2d(u, v, _pdy(C))/s["Ro"])
        if t == "bicubic":
            return bicubic_eval(s, x, y)[1:]
        if t == "sum":
            gs = [grad(i, x, y) for i in s["items"]]
            return sum(g[0] for g in gs), sum(g[1] for g in gs)
    raise ValueError(t)


def normal(s, x, y):
    gx, gy = grad(s, x, y)
    n = np.stack([-gx, -gy, np.ones_like(gx)], axis=-1)
    return n/np.sqrt(np.sum(n*n, axis=-1))[..., None]


def has_tilted(s):
    return s["t"] == "tilted" or (
        s["t"] == "sum" and any(has_tilted(i) for i in s["items"]))


def known_tilted_normal(tx, ty):
    """What the code reports for tilted planes (recorded finding)."""
    with np.errstate(all='ignore'):
        return np.array([-tx, -ty, np.sqrt(1-np.float64(tx)**2-np.float64(ty)**2)])


# -------------------------------------------------------------------- optics

def reflect(v, n):
    return v-2*np.sum(v*n, axis=-1)[..., None]*n


def refract(v, n, n2):
    """v: velocities (|v|=1/n1).  NaN where totally reflected."""
    n1 = 1/np.sqrt(np.sum(v*v, axis=-1))
    d = v*n1[..., None]
    c1 = np.sum(d*n, axis=-1)
    sgn = np.where(c1 > 0, 1.0, -1.0)
    n = n*sgn[..., None]
    c1 = np.abs(c1)
    eta = n1/n2
    with np.errstate(all='ignore'):
        # tangential part scales by eta
        tang = (d-c1[..., None]*n)*np.asarray(eta)[..., None]
        c2 = np.sqrt(1-np.sum(tang*tang, axis=-1))
        out = tang+c2[..., None]*n
    return out/np.asarray(n2)[..., None]


# -------------------------------------------------------------------- media

def index(m, lam):
    lam = np.asarray(lam, float)
    t = m["t"]
    with np.errstate(all='ignore'):
        if t == "const":
            return np.full(lam.shape, float(m["n"]))
        if t == "table":
            return np.interp(lam, m["w"], m["n"], left=np.nan, right=np.nan)
        if t == "sellmeier":
            B1, B2, B3, C1, C2, C3 = m["c"]
            x = (lam*1e6)**2
            return np.sqrt(1+B1*x/(x-C1)+B2*x/(x-C2)+B3*x/(x-C3))
        if t == "sumita":
            A = m["c"]
            x = (lam*1e6)**2
            return np.sqrt(A[0]+A[1]*x+A[2]/x+A[3]/x**2+A[4]/x**3+A[5]/x**4)
        if t == "air":
            # Filippenko 1982 (Edlen; mmHg, Celsius)
            P = m.get("p", 69.328)*7.50061683
            T = m.get("T", 293.15)-273.15
            W = m.get("h", 1.067)*7.50061683
            s2 = (1/(lam*1e6))**2
            n = 64.328+29498.1/(146.-s2)+255.4/(41.-s2)
            n = n*P*(1+(1.049-0.0157*T)*1e-6*P)/(720.883*(1+0.003661*T))
            n = n-(0.0624-0.000680*s2)/(1+0.003661*T)*W
            return 1+n*1e-6
    raise ValueError(t)


# -------------------------------------------------------------- obscurations

def _rotated(o, x, y):
    th = o.get("th", 0.0)
    dx = np.asarray(x, float)-o.get("x", 0.0)
    dy = np.asarray(y, float)-o.get("y", 0.0)
    c, s = math.cos(th), math.sin(th)
    return c*dx+s*dy, -s*dx+c*dy


def contains(o, x, y):
    """(inside, margin): margin is a lower bound of the distance to the
    boundary of the region."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    t = o["t"]
    if t == "circle":
        h = np.hypot(x-o.get("x", 0.0), y-o.get("y", 0.0))
        return h < o["r"], np.abs(h-o["r"])
    if t == "annulus":
        h = np.hypot(x-o.get("x", 0.0), y-o.get("y", 0.0))
        return (h >= o["ri"]) & (h < o["ro"]), np.minimum(
            np.abs(h-o["ri"]), np.abs(h-o["ro"]))
    if t == "rect":
        u, v = _rotated(o, x, y)
        a, b = np.abs(u)-o["w"]/2, np.abs(v)-o["h"]/2
        return (a < 0) & (b < 0), np.minimum(np.abs(a), np.abs(b))
    if t == "ray":
        u, v = _rotated(o, x, y)
        b = np.abs(v)-o["w"]/2
        return (u > 0) & (b < 0), np.minimum(np.abs(u), np.abs(b))
    if t == "polygon":
        px = np.array(o["xs"], float)
        py = np.array(o["ys"], float)
        X, Y = x[..., None], y[..., None]
        qx, qy = np.roll(px, -1), np.roll(py, -1)
        # winding angle (even-odd by crossing of a ray toward +x)
        up = (py <= Y) & (qy > Y)
        dn = (py > Y) & (qy <= Y)
        with np.errstate(all='ignore'):
            xi = px+(Y-py)/(qy-py)*(qx-px)
        cross = (up | dn) & (xi > X)
        inside = np.sum(cross, axis=-1) % 2 == 1
        # distance to segments
        ex, ey = qx-px, qy-py
        L2 = ex*ex+ey*ey
        with np.errstate(all='ignore'):
            tt = np.clip(((X-px)*ex+(Y-py)*ey)/np.where(L2 > 0, L2, 1), 0, 1)
        d = np.hypot(X-px-tt*ex, Y-py-tt*ey)
        return inside, np.min(d, axis=-1)
    if t == "not":
        i, m = contains(o["item"], x, y)
        return ~i, m
    if t in ("or", "and"):
        parts = [contains(i, x, y) for i in o["items"]]
        ins = np.stack([p[0] for p in parts])
        mar = np.min(np.stack([p[1] for p in parts]), axis=0)
        return (ins.any(axis=0) if t == "or" else ins.all(axis=0)), mar
    raise ValueError(t)


# ------------------------------------------------------------- reference rays

class Rays:
    """Plain array model of a ray bundle."""
    F = ("r", "v", "t", "w", "f", "vig", "fail")

    def __init__(self, r, v, t, w, f, vig, fail, frame=None):
        self.r, self.v, self.t, self.w, self.f = r, v, t, w, f
        self.vig, self.fail = vig, fail
        self.frame = frame if frame is not None else Frame()

    @classmethod
    def of(cls, rv):
        """Snapshot of a batoid RayVector."""
        return cls(np.array(rv.r), np.array(rv.v), np.array(rv.t),
                   np.array(rv.wavelength), np.array(rv.flux),
                   np.array(rv.vignetted), np.array(rv.failed),
                   Frame(rv.coordSys.origin, rv.coordSys.rot))

    def copy(self):
        return Rays(*[np.array(getattr(self, k)) for k in self.F], self.frame)

    def __len__(self):
        return len(self.t)

    def take(self, idx):
        return Rays(*[getattr(self, k)[idx] for k in self.F], self.frame)

    def to(self, frame):
        """Express in another frame (ignores the failed flag; positions of
        failed rays are compared nowhere)."""
        out = self.copy()
        out.r = frame.to_local(self.frame.to_global(self.r))
        out.v = frame.vec_to_local(self.frame.vec_to_global(self.v))
        out.frame = frame
        return out


def newton(s, r, v, dt0, iters=60):
    """Solve for the travel time along each ray to the surface, from dt0."""
    dt = np.array(dt0, float)
    with np.errstate(all='ignore'):
        for _ in range(iters):
            p = r+v*dt[:, None]
            f = p[:, 2]-sag(s, p[:, 0], p[:, 1])
            gx, gy = grad(s, p[:, 0], p[:, 1])
            fp = v[:, 2]-gx*v[:, 0]-gy*v[:, 1]
            step = f/fp
            dt = dt-step
            if not np.any(np.abs(step) > 1e-15):
                break
        p = r+v*dt[:, None]
        res = np.abs(p[:, 2]-sag(s, p[:, 0], p[:, 1]))
    return dt, res


def intersect(s, rays):
    """Reference intersection of rays (in the surface's frame) with a gentle
    surface, starting at the vertex plane.  Returns new Rays; rays that do not
    converge are marked failed."""
    out = rays.copy()
    ok = ~rays.fail
    with np.errstate(all='ignore'):
        dt0 = -rays.r[:, 2]/rays.v[:, 2]
    dt, res = newton(s, rays.r, rays.v, dt0)
    good = ok & (res < 1e-11)
    out.r[good] = (rays.r+rays.v*dt[:, None])[good]
    out.t[good] = (rays.t+dt)[good]
    out.fail = rays.fail | (ok & ~good)
    out.vig = rays.vig | (ok & ~good)
    return out


# --------------------------------------------------------------- projections

PROJECTIONS = ["postel", "zemax", "gnomonic", "stereographic", "lambert",
               "orthographic"]


def dircos(u, v, projection="postel"):
    """Direction cosines of field angles, from the geometry of the
    projection: (u, v) is the azimuth direction times a function of the angle
    theta from the axis."""
    u, v = np.broadcast_arrays(np.asarray(u, float), np.asarray(v, float))
    if projection == "zemax":
        d = np.stack([np.tan(u), np.tan(v), -np.ones_like(u)])
        return d/np.sqrt(np.sum(d*d, axis=0))
    rho = np.hypot(u, v)
    with np.errstate(all='ignore'):
        th = dict(postel=lambda: rho, gnomonic=lambda: np.arctan(rho),
                  stereographic=lambda: 2*np.arctan(rho/2),
                  lambert=lambda: 2*np.arcsin(rho/2),
                  orthographic=lambda: np.arcsin(rho))[projection]()
        s = np.where(rho > 0, np.sin(th)/np.where(rho > 0, rho, 1), 1.0)
        # cos from the half angle
        return np.stack([u*s, v*s, 2*np.sin(th/2)**2-1])


# ------------------------------------------------------------ pupil sampling

def grid_points(nx, ny, lx, ly):
    """Points of an nx x ny grid on the parallelogram lx, ly (2-vectors): odd
    sizes reach both edges, even sizes have an extra row before the start."""
    def steps(n):
        if n <= 2:
            return np.arange(n)/n-0.5*(n == 2)
        m = n-1 if n % 2 else n-2
        return (np.arange(n)-n//2)/m
    out = []
    for b in steps(ny):
        for a in steps(nx):
            out.append([a*lx[0]+b*ly[0], a*lx[1]+b*ly[1]])
    return np.array(out).reshape(-1, 2)


def hexapolar_points(outer, inner, nrad, naz, kfold):
    out = []
    for i in range(nrad):
        rho = outer+(inner-outer)*i/(nrad-1) if nrad > 1 else outer
        if inner == 0.0 and i == nrad-1:
            out.append([0.0, 0.0])
            continue
        n = kfold*max(1, int(naz*rho/outer//kfold))
        for k in range(n):
            th = 2*np.pi*k/n
            out.append([rho*math.cos(th), rho*math.sin(th)])
    return np.array(out).reshape(-1, 2)


def gq_rings(outer, inner, rings):
    """Radii and fluxes per unit of 1/spokes for quadrature over the annulus
    in units of the outer radius."""
    L, w = np.polynomial.legendre.leggauss(rings)
    eps = inner/outer
    s = eps**2+(1+L)/2*(1-eps**2)
    return outer*np.sqrt(s), np.pi*(1-eps**2)*w/2


def start_points(P, d, backDist):
    """Points on the lines through P along unit vector d, on the plane
    perpendicular to d that lies backDist before the origin."""
    return P-np.outer(P@d+backDist, d)
