"""C28 wavefronts and Zernike fits, C29 PSFs, C31 first-order quantities, C32
transverse and double Zernikes."""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import focus as F
from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub

A = batoid.analysis
REFS = st.sampled_from(["chief", "chief", "mean"])


def _ref(case):
    return F.Ref(case)


def _kw(case, ref, *names):
    kw = dict(ref.kw)
    for n in names:
        if n == "reference":
            if case["reference"] != "chief" or case["explicit"]:
                kw[n] = case["reference"]
        elif case.get(n) is not None:
            kw[n] = case[n]
    return kw


def _radius(case, ref, kw):
    if case["sphere"] is not None:
        kw["sphereRadius"] = ref.ex["sphereRadius"]*case["sphere"]
        return kw["sphereRadius"]
    return ref.ex["sphereRadius"]


def _wf_case(**kw):
    return st.fixed_dictionaries(dict(
        F.beam(), reference=REFS, explicit=st.booleans(),
        sphere=st.one_of(st.none(), st.none(), G.num(0.3, 3)), **kw))


# ------------------------------------------------------------------------ C28

@sub("C28", "wavefront", lambda: _wf_case(nx=st.one_of(
        st.none(), st.integers(3, 24), st.integers(3, 24))), 500,
     rule="at least 20 rays are not vignetted and the wavefront is not flat")
def wavefront(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "reference", "nx")
    R = _radius(case, ref, kw)
    nx = case["nx"] or 32
    rv, xy = ref.grid(nx)
    want = ref.wavefront(nx, case["reference"], R, rv)
    if want is None:
        ctx.event("skipped")
        return
    waves, mask, rays = want
    wf = A.wavefront(*ref.args, **kw)
    require(isinstance(wf, batoid.Lattice), "not a Lattice")
    require(wf.array.shape == (nx, nx), "shape of the wavefront")
    m = np.ma.getmaskarray(wf.array).ravel()
    same(m, mask, "mask of the wavefront")
    close(np.asarray(wf.array.data).ravel()[~mask], waves[~mask], 3e-5,
          "wavefront (waves)", rtol=1e-7)
    du = ref.D/(nx-1 if nx % 2 else nx-2)
    close(wf.primitiveVectors, du*np.eye(2), 1e-12, "lattice of the wavefront")
    # every ray crosses the stop at its lattice point (arrays are [y, x])
    c = wf.coords
    close(np.stack([c[..., 0].T.ravel(), c[..., 1].T.ravel()], -1), xy, 1e-9,
          "lattice coordinates against pupil points")
    ctx.nt((~mask).sum() > 20 and np.ptp(waves[~mask]) > 0.01)
    ctx.event(ref.fam)
    ctx.event(case["reference"])


def _fit(basis, b, rows=None):
    """Least squares with its conditioning."""
    a = basis.T
    if len(a) == 0:
        return None, math.inf, 0
    u, s, vt = np.linalg.svd(a, full_matrices=False)
    if len(s) == 0 or s[0] == 0:
        return None, math.inf, 0
    cond = s[0]/s[-1] if s[-1] > 0 and len(a) >= a.shape[1] else math.inf
    rank = int((s > s[0]*1e-8).sum())
    if cond > 1e8:
        return None, cond, rank
    return vt.T@((u.T@b)/s), cond, rank


@sub("C28", "zernike", lambda: _wf_case(
        nx=st.one_of(st.none(), st.integers(3, 24), st.integers(8, 24)),
        jmax=st.one_of(st.none(), st.integers(1, 28)),
        eps=st.one_of(st.none(), st.sampled_from([0.2, 0.4, 0.612]))), 400,
     rule="the fit is well conditioned with more than 3 terms")
def zernike(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "reference", "nx", "jmax", "eps")
    R = _radius(case, ref, kw)
    nx = case["nx"] or 32
    jmax = case["jmax"] or 22
    eps = case["eps"] or 0.0
    rv, xy = ref.grid(nx)
    want = ref.wavefront(nx, case["reference"], R, rv)
    if want is None:
        ctx.event("skipped")
        return
    waves, mask, _ = want
    p = xy[~mask]
    basis = O.zern_basis(jmax, p[:, 0], p[:, 1], ref.D/2, eps*ref.D/2)[1:]
    b = waves[~mask]
    coef, cond, rank = _fit(basis, b)
    if coef is None:
        if len(p) < jmax:
            try:
                A.zernike(*ref.args, **kw)
            except RuntimeError:
                ctx.event("rank deficient")
                return
            fail(f"{len(p)} rays suffice for {jmax} coefficients")
        return
    if cond > 1e6:
        return
    z = A.zernike(*ref.args, **kw)
    require(z.shape == (jmax+1,), f"shape {z.shape} of the coefficients")
    tol = 3e-5*(1+cond/10)
    close(z[1:], coef, tol, "least-squares coefficients", rtol=1e-6)
    same(z[0], 0.0, "coefficient 0")
    # residual orthogonal to the basis
    res = b-basis.T@z[1:]
    close(basis@res/len(b), np.zeros(jmax), tol, "residual and basis",
          rtol=0)
    ctx.nt(cond < 1e3 and jmax > 3)
    ctx.event(ref.fam)


@sub("C28", "GQ", lambda: _wf_case(
        rings=st.one_of(st.none(), st.integers(1, 8)),
        spokes=st.one_of(st.none(), st.integers(1, 14)),
        jmax=st.one_of(st.none(), st.integers(1, 28)),
        eps=st.one_of(st.none(), st.sampled_from([0.2, 0.4, 0.612]))), 500,
     rule="coefficients beyond the tilts, at least 10 rays")
def gq(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "reference", "rings", "spokes", "jmax", "eps")
    R = _radius(case, ref, kw)
    rings = case["rings"] or 6
    spokes = case["spokes"] or 2*rings+1
    jmax = case["jmax"] or 22
    eps = case["eps"] or 0.0
    want = ref.gq(rings, spokes, eps, jmax, case["reference"], R)
    if want is None:
        ctx.event("skipped")
        return
    if isinstance(want, str):
        try:
            A.zernikeGQ(*ref.args, **kw)
        except ValueError:
            ctx.event("failed rays")
            return
        fail("zernikeGQ used failed rays")
    z = A.zernikeGQ(*ref.args, **kw)
    require(z.shape == (jmax+1,), f"shape {z.shape} of the coefficients")
    close(z[1:], want[1:], 3e-5, "quadrature coefficients", rtol=1e-7)
    ctx.nt(jmax > 3 and rings*spokes > 9)
    ctx.event(ref.fam)
    ctx.event(case["reference"])


@sub("C28", "agree", lambda: st.fixed_dictionaries(dict(
        optic=F.generated(("mirror", "cass"), obsc=True),
        th=F.field(), lam=st.sampled_from([450e-9, 900e-9]),
        proj=st.sampled_from([None]+O.PROJECTIONS), jmax=st.integers(11, 28),
        nx=st.integers(30, 41))), 60,
     rule="the wavefront has terms above 0.02 waves")
def agree(case, ctx):
    case = dict(case, optic=dict(case["optic"], clear=True, stop=0.0, ball=0.0,
                                 sdec=None))
    ref = _ref(case)
    jmax = case["jmax"]
    kw = dict(ref.kw, jmax=jmax, eps=case["optic"]["eps"])
    z = A.zernike(*ref.args, nx=case["nx"], **kw)
    g = A.zernikeGQ(*ref.args, rings=8, spokes=17, **kw)
    # piston apart: both relative to their own sample of the chief ray
    close(z[2:], g[2:], 2e-3, "zernike against zernikeGQ", rtol=1e-3)
    ctx.nt(np.max(np.abs(g[4:])) > 0.02)


@sub("C28", "known terms", lambda: st.fixed_dictionaries(dict(
        D=G.num(0.3, 4, 2), F=st.integers(4, 15), lam=st.sampled_from(
            [450e-9, 900e-9]),
        coef=st.lists(G.num(-0.5, 0.5), min_size=1, max_size=19),
        eps=st.sampled_from([0.0, 0.3, 0.6]), method=st.sampled_from(
            ["zernike", "GQ"]), reference=REFS, h=G.num(0, 0.2))), 150,
     rule="a term above 0.05 waves beyond the tilts")
def known_terms(case, ctx):
    D, lam = case["D"], case["lam"]
    f = case["F"]*D
    co = [0.0]*4+case["coef"]
    jmax = len(co)-1
    Ri = case["eps"]*D/2
    ann = batoid.ObscNegation(
        batoid.ObscAnnulus(Ri, D/2*1.0001) if Ri
        else batoid.ObscCircle(D/2*1.0001))
    scr = batoid.OPDScreen(
        batoid.Plane(), batoid.Zernike([c*lam for c in co], R_outer=D/2,
                                       R_inner=Ri),
        obscuration=ann, name="S",
        coordSys=batoid.CoordSys([0, 0, case["h"]*D]))
    opt = batoid.CompoundOptic(
        [scr, batoid.Mirror(batoid.Paraboloid(2*f), name="M"),
         batoid.Detector(batoid.Plane(), name="D",
                         coordSys=batoid.CoordSys([0, 0, f]).rotateLocal(
                             batoid.RotX(np.pi)))],
        name="T", backDist=4*f, pupilSize=D, sphereRadius=f,
        stopSurface=batoid.Interface(batoid.Plane(), name="stop",
                                     coordSys=batoid.CoordSys(
                                         [0, 0, case["h"]*D])))
    kw = dict(jmax=jmax, eps=case["eps"], reference=case["reference"])
    if case["method"] == "GQ":
        z = A.zernikeGQ(opt, 0, 0, lam, rings=8, spokes=17, **kw)
    else:
        if jmax > 20:
            return
        z = A.zernike(opt, 0, 0, lam, nx=40, **kw)
    # longer travel: later arrival
    amp = sum(abs(c)*(1+abs(O.noll(j)[1])+O.noll(j)[0])
              for j, c in enumerate(co) if c)
    # second order: displaced rays times slope
    tol = 1e-3+30*amp**2*lam*f/D**2
    close(z[4:], -np.array(co[4:]), tol, "terms of the screen")
    ctx.nt(max(map(abs, co)) > max(0.05, 3*tol))


# ------------------------------------------------------------------------ C29

def _huy_case():
    return st.fixed_dictionaries(dict(
        F.beam(), reference=REFS, explicit=st.booleans(),
        nx=st.integers(3, 11), nxOut=st.one_of(st.none(), st.integers(1, 10)),
        lattice=st.one_of(
            st.none(), st.just("dx"), st.just("dxdy"), st.just("vec")),
        scale=G.num(0.2, 2), skew=st.lists(G.num(-1, 1), min_size=3,
                                           max_size=3)))


def _amplitude(rays, pts):
    """Sum of the plane waves of unvignetted rays at points, at time of the
    first ray."""
    ok = ~rays.vig
    r, v, t, w = rays.r[ok], rays.v[ok], rays.t[ok], rays.w[ok]
    k = (2*np.pi/w/np.sum(v*v, axis=-1))[:, None]*v
    om = 2*np.pi/w
    # differences first: the phases are large
    t0 = t.mean()
    ph = pts@k.T-np.sum(k*r, axis=-1)+om*(t-t0)
    return np.sum(rays.f[ok]*np.exp(1j*ph), axis=-1)


def _dkdu(ref, nrad=6, naz=36):
    rv, u = ref.polar(nrad, naz)
    rays = ref.trace(rv)
    ok = ~rays.vig
    if ok.sum() < 6:
        return None
    v = rays.v[ok]
    k = (2*np.pi/rays.w[ok]/np.sum(v*v, axis=-1))[:, None]*v
    a = np.concatenate([np.ones((ok.sum(), 1)), u[ok]], axis=1)
    # centred, for accuracy
    a[:, 1:] -= a[:, 1:].mean(axis=0)
    sol = np.linalg.lstsq(a, k[:, :2], rcond=None)[0]
    return sol[1:]


def _recip(K, N):
    """Vectors X with X_i . K_j = 2 pi/N delta_ij (rows)."""
    return 2*np.pi/N*np.linalg.inv(K).T


@sub("C29", "huygens", _huy_case, 400, rule="several rays and output points")
def huygens(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "reference", "nx", "nxOut")
    nx = case["nx"]
    rv, xy = ref.grid(nx)
    rays = ref.trace(rv)
    ok = ~rays.vig
    if ok.sum() < 2:
        ctx.event("skipped")
        return
    c = (nx//2)*nx+nx//2 if nx % 2 == 0 else (nx*nx-1)//2
    if case["reference"] == "chief":
        if rays.fail[c]:
            return
        point = rays.r[c]
    else:
        point = rays.r[ok].mean(axis=0)
    f = abs(ref.ex["sphereRadius"])
    s = case["scale"]*ref.lam*f/ref.D/3
    lat = case["lattice"]
    n = case["nxOut"] or nx
    if lat is None:
        K = _dkdu(ref)
        if K is None:
            return
        du = ref.D/(nx-1 if nx % 2 else nx-2)
        X = _recip(K*du, 2*nx)
        n *= 2
    elif lat == "dx":
        kw["dx"] = s
        X = s*np.eye(2)
    elif lat == "dxdy":
        kw["dx"] = s
        kw["dy"] = s*1.37
        X = np.diag([s, s*1.37])
    else:
        X = s*np.array([[1.0, case["skew"][0]],
                        [case["skew"][1]*0.9, 1.1+0.5*case["skew"][2]]])
        kw["dx"], kw["dy"] = X[0].copy(), list(X[1])
    psf = A.huygensPSF(*ref.args, **kw)
    require(psf.array.shape == (n, n), f"shape {psf.array.shape} of the PSF")
    close(psf.primitiveVectors, X, 1e-5*np.max(np.abs(X)), "lattice of the PSF")
    i = np.arange(n)-n//2
    # array[iy, ix]
    iy, ix = np.meshgrid(i, i, indexing="ij")
    X = np.array(psf.primitiveVectors)
    pts = point[:2]+ix[..., None]*X[0]+iy[..., None]*X[1]
    pts = np.concatenate([pts, np.zeros((n, n, 1))], axis=-1)
    I = np.abs(_amplitude(rays, pts))**2
    tot = rays.f[ok].sum()**2
    close(psf.array, I, 2e-4*tot, "intensities of the PSF")
    ctx.nt(ok.sum() > 5 and n > 2)
    ctx.event(ref.fam)
    ctx.event(str(lat))


@sub("C29", "fft", lambda: _wf_case(
        nx=st.one_of(st.none(), st.integers(3, 20), st.integers(3, 20)),
        pad_factor=st.one_of(st.none(), st.integers(1, 4))), 400,
     rule="at least 10 rays are not vignetted")
def fft(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "reference", "nx", "pad_factor")
    R = _radius(case, ref, kw)
    nx = case["nx"] or 32
    N = nx*(case["pad_factor"] or 2)
    rv, xy = ref.grid(nx)
    want = ref.wavefront(nx, case["reference"], R, rv)
    if want is None:
        ctx.event("skipped")
        return
    waves, mask, _ = want
    K = _dkdu(ref)
    if K is None:
        return
    psf = A.fftPSF(*ref.args, **kw)
    require(psf.array.shape == (N, N), f"shape {psf.array.shape} of the PSF")
    P = np.where(mask, 0, np.exp(2j*np.pi*np.where(mask, 0, waves))).reshape(
        nx, nx)
    k = np.arange(N)-N//2
    m = np.arange(nx)-nx//2
    W = np.exp(-2j*np.pi*np.outer(k, m)/N)
    I = np.abs(W@P@W.T)**2
    cnt = (~mask).sum()
    close(psf.array, I, 5e-4*cnt**2, "intensities of the PSF")
    close(psf.array.sum(), N*N*cnt, 1e-6*N*N*cnt, "Parseval's theorem")
    du = ref.D/(nx-1 if nx % 2 else nx-2)
    X = np.array(psf.primitiveVectors)
    close(X@(K*du).T, 2*np.pi/N*np.eye(2), 1e-5*2*np.pi/N,
          "lattice of the PSF against that of the pupil")
    ctx.nt(cnt >= 10)
    ctx.event(ref.fam)


@sub("C29", "same image", lambda: st.fixed_dictionaries(dict(
        F.beam(), optic=F.generated(("mirror", "cass", "lens")),
        reference=REFS, nx=st.integers(11, 16))), 150,
     rule="the image is not symmetric about its centre")
def same_image(case, ctx):
    ref = _ref(case)
    nx = case["nx"]
    rv, _ = ref.grid(nx)
    want = ref.wavefront(nx, case["reference"], ref.ex["sphereRadius"], rv)
    if want is None:
        return
    waves, mask, _ = want
    w = np.where(mask, np.nan, waves).reshape(nx, nx)
    d = [np.nanmax(np.abs(np.diff(w, axis=a))) for a in (0, 1)]
    if max(d) > 1 or (~mask).sum() < 30:
        return
    kw = dict(ref.kw, nx=nx, reference=case["reference"])
    h = A.huygensPSF(*ref.args, **kw)
    f = A.fftPSF(*ref.args, **kw)
    close(h.primitiveVectors, f.primitiveVectors, 1e-12, "lattices")
    a, b = h.array/h.array.max(), f.array/f.array.max()
    # the sums differ by the curvature of k(u)
    close(a, b, 0.02+0.12*max(d), "Huygens and FFT images")
    ctx.nt(np.max(np.abs(b-np.roll(b[::-1, ::-1], 1, axis=(0, 1)))) > 0.1)


# ------------------------------------------------------------------------ C31

def _centroid(ref, nrad, naz, th, mask):
    rv, _ = ref.polar(nrad, naz, th)
    rays = ref.trace(rv)
    return rays, None if mask is None else rays.r[mask, :2].mean(axis=0)


def _drdth(ref, nrad, naz):
    rays, _ = _centroid(ref, nrad, naz, ref.th, None)
    w = ~rays.vig
    if w.sum() < 4:
        return None
    h = 2e-5
    out = np.zeros((2, 2))
    mid = rays.r[w, :2].mean(axis=0)
    bend = 0.0
    for i in (0, 1):
        c = []
        for s in (1, -1):
            th = list(ref.th)
            th[i] += s*h
            r, m = _centroid(ref, nrad, naz, th, w)
            if r.fail[w].any():
                return None
            c.append(m)
        out[:, i] = (c[0]-c[1])/(2*h)
        bend = max(bend, np.max(np.abs(c[0]+c[1]-2*mid))/h**2)
    # (what steps of up to 5e-5 may differ by)
    return out, 5e-5*bend


def _focal(J, slack):
    """sqrt(det J) and how far the focal length may be from it, relatively"""
    s = np.max(np.abs(J))
    tol = min(5e-4*s, 2e-6*s+slack)
    return (math.sqrt(np.linalg.det(J)),
            min(1e-3, 2*tol*np.max(np.abs(np.linalg.inv(J)))))


def _polar_case(**kw):
    return st.fixed_dictionaries(dict(
        F.beam(), nrad=st.one_of(st.none(), st.integers(2, 7)),
        naz=st.one_of(st.none(), st.integers(6, 40)), **kw))


def _hinged(ref, nrad, naz):
    from .rays import _hinges
    eps = ref.ex.get("pupilObscuration", 0.0)
    return _hinges(ref.D/2, ref.D/2*eps, nrad, naz, 6)


@sub("C31", "drdth", _polar_case, 250, rule="the Jacobian is not diagonal")
def drdth(case, ctx):
    ref = _ref(case)
    if "pupilObscuration" not in ref.ex:
        return
    kw = _kw(case, ref, "nrad", "naz")
    nrad, naz = case["nrad"] or 6, case["naz"] or 36
    if _hinged(ref, nrad, naz):
        return
    J = _drdth(ref, nrad, naz)
    if J is None:
        ctx.event("skipped")
        return
    J, slack = J
    got = A.drdth(*ref.args, **kw)
    s = np.max(np.abs(J))
    tol = min(5e-4*s, 2e-6*s+slack)
    close(got, J, tol, "drdth")
    inv = A.dthdr(*ref.args, **kw)
    close(inv@got, np.eye(2), 1e-6, "dthdr is not inverse to drdth")
    det = np.linalg.det(J)
    if det > 0:
        fl, rtol = _focal(J, slack)
        close(A.focalLength(*ref.args, **kw), fl, rtol*fl, "focalLength")
    ctx.nt(abs(J[0, 1]-J[1, 0]) > 0.01*s)
    ctx.event(ref.fam)


@sub("C31", "dkdu", _polar_case, 400, rule="always")
def dkdu(case, ctx):
    ref = _ref(case)
    if "pupilObscuration" not in ref.ex:
        return
    kw = _kw(case, ref, "nrad", "naz")
    nrad, naz = case["nrad"] or 6, case["naz"] or 36
    if _hinged(ref, nrad, naz):
        return
    K = _dkdu(ref, nrad, naz)
    if K is None:
        ctx.event("skipped")
        return
    got = A.dkdu(*ref.args, **kw)
    close(got, K, 1e-6*np.max(np.abs(K)), "dkdu")
    ctx.nt()
    ctx.event(ref.fam)


@sub("C31", "spot", lambda: st.fixed_dictionaries(dict(
        F.beam(), nx=st.one_of(st.none(), st.integers(1, 24)),
        reference=st.sampled_from(["chief", "mean", "zero", "chief"]),
        explicit=st.booleans())), 400, rule="at least 10 rays are not vignetted")
def spot(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "nx", "reference")
    nx = case["nx"] or 32
    rv, _ = ref.grid(nx)
    rays = ref.trace(rv)
    ok = ~rays.vig
    if not ok.any():
        ctx.event("skipped")
        return
    c = (nx//2)*nx+nx//2 if nx % 2 == 0 else (nx*nx-1)//2
    p = np.zeros(3)
    if case["reference"] == "chief":
        if rays.fail[c]:
            return
        p = rays.r[c]
    elif case["reference"] == "mean":
        p = rays.r[ok].mean(axis=0)
    x, y = A.spot(*ref.args, **kw)
    require(len(x) == ok.sum() and len(y) == ok.sum(),
            f"{len(x)} rays in the spot instead of {ok.sum()}")
    close(np.stack([x, y], -1), (rays.r[ok]-p)[:, :2], 2e-10, "spot")
    ctx.nt(ok.sum() >= 10)
    ctx.event(ref.fam)
    ctx.event(case["reference"])


@sub("C31", "exit pupil", lambda: st.fixed_dictionaries(dict(
        optic=st.one_of(F.shipped(amps=(0.0, 1e-4)), F.generated(
            rigid=False)),
        lam=st.sampled_from([450e-9, 750e-9]),
        proj=st.sampled_from([None]+O.PROJECTIONS),
        small=st.one_of(st.none(), st.sampled_from([1e-6, 1e-4, 1e-3])))),
     250, rule="always")
def exit_pupil(case, ctx):
    o = dict(case["optic"], rigid=None)
    if "sdec" in o:
        o["sdec"] = None
    ref = _ref(dict(case, optic=o, th=[0.0, 0.0]))
    kw = dict(ref.kw)
    if case["small"] is not None:
        kw["smallAngle"] = case["small"]
    s = case["small"] or math.radians(1/3600)
    ps, sens = [], 0.0
    for th in ([0, s], [0, -s], [s, 0], [-s, 0]):
        d = ref.dircos(th)
        P = ref.stop.o
        rays = O.Rays((P-d*ref.ex["backDist"])[None], (d/ref.n0)[None],
                      np.zeros(1), np.array([ref.lam]), np.ones(1),
                      np.zeros(1, bool), np.zeros(1, bool))
        stt, _ = S.trace(ref.elements, S.State(rays), start=False)
        # apertures do not matter
        fin = stt.rays
        if fin.fail.any():
            return
        g = fin.to(O.Frame())
        r, u = g.r[0], g.v[0]/np.linalg.norm(g.v[0])
        # closest point of the line to the z axis: minimise the xy distance
        q = u[0]**2+u[1]**2
        if q < 1e-13:
            return
        ps.append((r-u*(r[0]*u[0]+r[1]*u[1])/q))
        # accuracy of the closest approach
        sens = max(sens, (1e-13/q**0.5+1e-15/q)*(1+np.abs(r).max()))
    got = A.exitPupilPos(ref.opt, ref.lam, **kw)
    want = np.mean(ps, axis=0)
    close(got, want, 1e-7+10*sens, "exit pupil", rtol=1e-5)
    ctx.nt()
    ctx.event(ref.fam)


# ------------------------------------------------------------------------ C32

def _ta(ref, case):
    nrad, naz = case["nrad"] or 6, case["naz"] or 36
    if "pupilObscuration" not in ref.ex or _hinged(ref, nrad, naz):
        return None
    rv, xy = ref.polar(nrad, naz)
    rays = ref.trace(rv)
    ok = ~rays.vig
    if ok.sum() < 3:
        return None
    if case["reference"] == "mean":
        p = rays.r[ok].mean(axis=0)
    else:
        ch = ref.trace(ref.chief())
        if ch.fail[0]:
            return None
        p = ch.r[0]
    return xy, (rays.r-p)[:, :2], ok, rays.fail


def _ta_case(**kw):
    return _polar_case(reference=REFS, explicit=st.booleans(),
                       jmax=st.one_of(st.none(), st.integers(2, 28)),
                       eps=st.one_of(st.none(), st.sampled_from(
                           [0.2, 0.4, 0.612])), **kw)


@sub("C32", "zernikeTA", lambda: _ta_case(focal=st.one_of(
        st.none(), G.num(0.5, 30), G.num(-3, 3).map(lambda e: 10.0**e))),
     350,
     rule="the fit is well conditioned with more than 3 terms")
def zernike_ta(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "nrad", "naz", "reference", "jmax", "eps")
    got = _ta(ref, case)
    if got is None:
        ctx.event("skipped")
        return
    xy, d, ok, _ = got
    jmax = case["jmax"] or 22
    eps = case["eps"] or 0.0
    gx, gy = O.zern_basis_grad(jmax, xy[ok, 0], xy[ok, 1], ref.D/2,
                               eps*ref.D/2)
    basis = np.concatenate([gx, gy], axis=1)[2:]
    b = np.concatenate([d[ok, 0], d[ok, 1]])
    coef, cond, rank = _fit(basis, b)
    fl, rtol = case["focal"], 1e-6
    if fl is not None:
        kw["focal_length"] = fl
    elif coef is not None:
        J = _drdth(ref, 6, 36)
        if J is None or np.linalg.det(J[0]) <= 0:
            return
        fl, rtol = _focal(*J)
    if coef is None:
        if 2*ok.sum() < jmax-1:
            kw["focal_length"] = fl or 1.0
            try:
                A.zernikeTA(*ref.args, **kw)
            except RuntimeError:
                ctx.event("rank deficient")
                return
            fail(f"{ok.sum()} rays suffice for {jmax} coefficients")
        return
    if cond > 1e6:
        return
    z = A.zernikeTA(*ref.args, **kw)
    require(z.shape == (jmax+1,), f"shape {z.shape} of the coefficients")
    want = -coef/fl/ref.lam
    # 1e-12 m of ray error
    tol = 1e-5+1e-12*cond*ref.D/abs(fl)/ref.lam+rtol*np.max(np.abs(want))
    close(z[2:], want, tol, "coefficients")
    same(z[0], 0.0, "coefficient 0")
    close(z[1], 0.0, 1e-9, "piston")
    ctx.nt(cond < 1e3 and jmax > 3)
    ctx.event(ref.fam)


@sub("C32", "zernikeXY", lambda: _ta_case(
        include_vignetted=st.sampled_from([None, True, False])), 350,
     rule="the fit is well conditioned with more than 3 terms")
def zernike_xy(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "nrad", "naz", "reference", "jmax", "eps",
             "include_vignetted")
    got = _ta(ref, case)
    if got is None:
        ctx.event("skipped")
        return
    xy, d, ok, failed = got
    if case["include_vignetted"]:
        if failed.any():
            return
        ok = np.ones(len(ok), bool)
    jmax = case["jmax"] or 22
    eps = case["eps"] or 0.0
    basis = O.zern_basis(jmax, xy[ok, 0], xy[ok, 1], ref.D/2,
                         eps*ref.D/2)[1:]
    cx, cond, rank = _fit(basis, d[ok, 0])
    cy, _, _ = _fit(basis, d[ok, 1])
    if cx is None:
        if ok.sum() < jmax:
            try:
                A.zernikeXYAberrations(*ref.args, **kw)
            except RuntimeError:
                ctx.event("rank deficient")
                return
            fail(f"{ok.sum()} rays suffice for {jmax} coefficients")
        return
    if cond > 1e6:
        return
    x, y = A.zernikeXYAberrations(*ref.args, **kw)
    tol = 1e-11*(1+cond)+1e-7*np.max(np.abs(d[ok]))
    for g, w, n in ((x, cx, "x"), (y, cy, "y")):
        require(g.shape == (jmax+1,), f"shape {g.shape} of the coefficients")
        close(g[1:], w, tol, f"{n} coefficients")
        same(g[0], 0.0, "coefficient 0")
    ctx.nt(cond < 1e3 and jmax > 3)
    ctx.event(ref.fam)
    ctx.event(f"vignetted {case['include_vignetted']}")


@sub("C32", "double", lambda: st.fixed_dictionaries(dict(
        optic=F.anyoptic(), lam=st.sampled_from([450e-9, 750e-9]),
        th=st.just([1.0, 0.0]), proj=st.sampled_from([None]+O.PROJECTIONS),
        field=G.num(0.1, 1), rings=st.integers(1, 4),
        spokes=st.one_of(st.none(), st.integers(1, 7)),
        kmax=st.one_of(st.none(), st.integers(1, 22)),
        jmax=st.one_of(st.none(), st.integers(1, 22)),
        eps=st.one_of(st.none(), st.sampled_from([0.2, 0.612])),
        reference=REFS, explicit=st.booleans(),
        sphere=st.one_of(st.none(), st.none(), G.num(0.3, 3)))), 100,
     rule="more than one field point")
def double(case, ctx):
    ref = _ref(case)
    kw = _kw(case, ref, "reference", "jmax", "eps", "spokes", "kmax")
    R = _radius(case, ref, kw)
    rings = case["rings"]
    spokes = case["spokes"] or 2*rings+1
    field = ref.th[0]*case["field"]
    jmax = case["jmax"] or 22
    kmax = case["kmax"] or 22
    L, w = np.polynomial.legendre.leggauss(rings)
    rr = np.sqrt((1+L)/2)*field
    out = np.zeros((kmax+1, jmax+1))
    for i in range(spokes):
        a = 2*np.pi*i/spokes
        for r, wi in zip(rr, w):
            th = [r*math.cos(a), r*math.sin(a)]
            z = ref.gq(rings, spokes, case["eps"] or 0.0, jmax,
                       case["reference"], R, th)
            if z is None or isinstance(z, str):
                ctx.event("skipped")
                return
            B = O.zern_basis(kmax, np.array([th[0]]), np.array([th[1]]),
                             field)[:, 0]
            out += np.outer(B, z)*wi/(2*spokes)
    got = A.doubleZernike(ref.opt, field, ref.lam, rings=rings, **kw)
    require(got.shape == (kmax+1, jmax+1), f"shape {got.shape}")
    close(got[1:, 1:], out[1:, 1:], 1e-4, "double Zernike coefficients",
          rtol=1e-6)
    ctx.nt(rings*spokes > 1)
    ctx.event(ref.fam)


@sub("C32", "reproduces", lambda: st.fixed_dictionaries(dict(
        optic=F.generated(("mirror", "cass"), obsc=False),
        lam=st.just(750e-9), proj=st.none(), th=F.field(),
        eps=st.sampled_from([0.0, 0.4]))), 25,
     rule="a coefficient changes by more than 0.05 waves over the field")
def reproduces(case, ctx):
    th = [0.5*t for t in case["th"]]
    ref = _ref(dict(case, th=th))
    field = math.radians(0.1)
    kw = dict(jmax=15, eps=case["eps"], reference="chief")
    dz = A.doubleZernike(ref.opt, field, ref.lam, rings=6, kmax=28, **kw)
    z = A.zernikeGQ(*ref.args, rings=6, **kw)
    B = O.zern_basis(28, np.array([ref.th[0]]), np.array([ref.th[1]]),
                     field)[:, 0]
    rec = B@dz
    scale = np.max(np.abs(dz[1:, 4:]))
    close(rec[4:], z[4:], 2e-3+1e-3*scale, "coefficients from the double "
          "Zernikes against those at the field point")
    ctx.nt(np.max(np.abs(dz[2:, 4:])) > 0.05)
