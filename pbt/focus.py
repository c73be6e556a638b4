"""Focusing systems with a stop (shipped telescopes and generated ones) and a
reference for the rays that the analysis functions trace through them."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from . import gens as G
from . import oracle as O
from . import sysgen as S
from . import tele
from .core import close, require

# ----------------------------------------------------------------- strategies


def shipped(pool=None, amps=(0.0, 0.0, 1e-5, 1e-4)):
    return st.fixed_dictionaries(dict(
        file=tele.files(pool), seed=G.seeds, amp=st.sampled_from(amps),
        rigid=st.one_of(st.none(), st.none(), G.frame(5.0, 2)),
        roll=st.one_of(st.just(0.0), st.just(0.0), G.num(-3, 3))))


def generated(kinds=("mirror", "mirror", "cass", "lens"), rigid=True,
              obsc=True, aberr=True, tilts=True):
    """One mirror, two mirrors or a slow singlet, with a detector near the
    focus."""
    tl = G.num(-2e-3, 2e-3, 5) if tilts else st.just(0.0)
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds), D=G.num(0.1, 4, 2),
        F=st.integers(6, 15),
        k=G.num(-1.4, -0.6) if aberr else st.just(-1.0),
        m0=st.one_of(st.just(1.0), st.just(1.0), G.num(1.0, 1.3)),
        stop=st.one_of(st.just(0.0), G.num(-0.3, 0.3)),
        sdec=st.one_of(st.none(), st.lists(G.num(-0.1, 0.1), min_size=3,
                                           max_size=3)) if tilts
        else st.none(),
        eps=st.sampled_from([0.0, 0.0, 0.2, 0.4] if obsc else [0.0]),
        clear=st.booleans() if obsc else st.just(True),
        defocus=st.one_of(st.just(0.0), G.num(-3, 3)) if aberr
        else st.just(0.0),
        tilt=st.lists(tl, min_size=2, max_size=2),
        droll=st.one_of(st.just(0.0), G.num(-3, 3)) if tilts
        else st.just(0.0),
        dtilt=st.lists(G.num(-0.05, 0.05), min_size=2, max_size=2) if tilts
        else st.just([0.0, 0.0]),
        # a detector facing the other way: the default reference sphere then
        # lies behind it
        dflip=st.sampled_from([False, False, False, True]) if tilts
        else st.just(False),
        srad=st.sampled_from([1.0, 1.0, 0.5, 2.0]),
        # a ball in the beam that some rays miss: these rays fail
        ball=st.sampled_from([0.0]*9+[0.35, 0.6]) if obsc else st.just(0.0),
        zern=st.one_of(st.none(), st.lists(G.num(-1, 1), min_size=1,
                                           max_size=11)) if aberr
        else st.none(),
        rigid=st.one_of(st.none(), G.frame(5.0, 2)) if rigid
        else st.none()))


def anyoptic(pool=None):
    return st.one_of(shipped(pool), generated())


def field(pool=None):
    """Field angles in units of the system's field."""
    f = st.one_of(G.num(-1, 1), st.just(0.0))
    return st.lists(f, min_size=2, max_size=2)


def beam(pool=None):
    return dict(
        optic=anyoptic(pool), th=field(),
        lam=st.sampled_from([450e-9, 620e-9, 750e-9, 900e-9]),
        proj=st.sampled_from([None]+O.PROJECTIONS))


FIELD = dict(LSST=1.6, HSC=0.7, DECam=0.9, DESI=1.2, SDSS=1.0, AuxTel=0.05,
             PFS=1.5)


# ------------------------------------------------------------------- builders

def moved(nd, F):
    """The whole tree, its own frame and its stop, moved rigidly."""
    def mv(f):
        return O.Frame(F.to_global(f.o), F.rot@f.rot)

    def go(n):
        n.frame = mv(n.frame)
        ss = getattr(n, "extra", {}).get("stopSurface")
        if ss is not None:
            go(ss)
        for i in n.items or []:
            go(i)
    nd = copy.deepcopy(nd)
    go(nd)
    return nd


def gen_node(c):
    """Light comes from +z towards -z."""
    D, F = c["D"], float(c["F"])
    n0 = c["m0"]
    m0 = dict(t="const", n=n0)
    kw = dict(skip=False, fc=None, rc=None, items=None, screen=None)
    kind = c["kind"]
    T = O.rot_list([["x", c["tilt"][0]], ["y", c["tilt"][1]]])
    ob = None
    if c["eps"] and c["clear"]:
        ob = dict(t="not", item=dict(t="annulus", ri=c["eps"]*D/2*1.0001,
                                     ro=D/2*1.0001, x=0.0, y=0.0))
    elif c["eps"]:
        ob = dict(t="circle", r=c["eps"]*D/2*1.0001, x=0.0, y=0.0)
    elif c["clear"]:
        ob = dict(t="not", item=dict(t="circle", r=D/2*1.0001, x=0.0, y=0.0))

    def el(kind, name, z, surf, R=None, n1=m0, n2=m0, obsc=None):
        return S.Node(kind=kind, name=name, surf=surf, n1=n1, n2=n2, obsc=obsc,
                      frame=O.Frame([0, 0, z], R), extra={}, **kw)

    def add(surf):
        if c["zern"] is None:
            return surf
        z = dict(t="zernike", coef=[0.0]+[a*3e-8 for a in c["zern"]],
                 Ro=D/2, Ri=0.0)
        return dict(t="sum", items=[surf, z])
    if kind == "mirror":
        f = F*D
        els = [el("mirror", "M1", 0.0, add(
            dict(t="quadric", R=2*f, k=c["k"])), T, obsc=ob)]
        foc = f
    elif kind == "cass":
        f1 = 3*D
        m = F/3+1
        # secondary 0.75 f1 above the primary, magnification m
        d = 0.75*f1
        p = f1-d
        q = m*p
        R2 = -2*p*q/(q-p)
        k2 = -((m+1)/(m-1))**2
        # concave for light travelling -z then +z: hyperboloid, convex towards
        # the primary
        els = [el("mirror", "M1", 0.0, add(
                   dict(t="parab", R=2*f1)), T, obsc=ob),
               el("mirror", "M2", d, dict(t="quadric", R=-R2, k=k2))]
        foc = d-q
        f = m*f1
    else:
        f = F*5*D
        n = 1.5*n0
        g = dict(t="const", n=n)
        t = 0.05*D
        els = [el("refr", "L_e", 0.0, add(
                   dict(t="sphere", R=-f*(n/n0-1))), T, m0, g, ob),
               el("refr", "L_x", -t, dict(t="plane"), None, g, m0)]
        foc = -(f-t*n0/n)-t
    Rd = O.rot_list([["z", c["droll"]], ["x", c["dtilt"][0]],
                     ["y", c["dtilt"][1]]])
    Fe = f/D
    # the sphere lies where the light comes from
    up = kind == "lens"
    if up == c["dflip"]:
        Rd = O.rot_axis("x", math.pi)@Rd
    if c.get("ball"):
        els.insert(0, el("baffle", "ball", 1.0*D, dict(
            t="sphere", R=c["ball"]*D)))
    # defocus in units of about a wave
    els.append(el("det", "D", foc+c["defocus"]*8*Fe**2*500e-9,
                  dict(t="plane"), Rd))
    stop = el("iface", "stop", c["stop"]*D, dict(t="plane"))
    if c["sdec"] is not None:
        a = np.array(c["sdec"])
        stop.frame = O.Frame(stop.frame.o+[0.05*D*a[0], 0.05*D*a[1], 0.0],
                             O.rot_list([["z", 20*a[2]], ["x", 0.3*a[0]]]))
    nd = S.Node(kind="group", name="sys", items=els, skip=False, lens=False,
                frame=O.Frame(), n1=m0, n2=m0, extra=dict(
                    backDist=2.0*D+F*D, sphereRadius=f*c["srad"], pupilSize=D,
                    pupilObscuration=c["eps"], stopSurface=stop))
    nd.focal = f
    return nd


class Ref:
    """A case's system and beam, with reference rays."""
    def __init__(self, case):
        oc = case["optic"]
        if "file" in oc:
            nd = tele.node(oc["file"])
            if oc["amp"]:
                nd = tele.misaligned(nd, oc["seed"], oc["amp"])
            else:
                nd = copy.deepcopy(nd)
            last = S.flatten(nd)[-1]
            if oc["roll"]:
                last.frame = O.Frame(last.frame.o, last.frame.rot
                                     @ O.rot_axis("z", oc["roll"]))
            fam = oc["file"].split("/")[0]
            scale = math.radians(FIELD[fam])
            if "ComCam" in oc["file"]:
                scale /= 5
            self.fam = fam
        else:
            nd = gen_node(oc)
            scale = math.radians(0.1)
            self.fam = "generated "+oc["kind"]
        if oc["rigid"] is not None:
            nd = moved(nd, O.Frame.spec(oc["rigid"]))
        self.nd = nd
        self.opt = S.build(nd)
        self.elements = S.flatten(nd)
        self.th = [scale*t for t in case["th"]]
        self.lam = case["lam"]
        self.proj = case["proj"]
        self.kw = {} if self.proj is None else dict(projection=self.proj)
        self.ex = nd.extra
        self.D = self.ex["pupilSize"]
        self.stop = self.ex["stopSurface"].frame
        self.n0 = float(O.index(nd.n1, self.lam))

    @property
    def args(self):
        return (self.opt, self.th[0], self.th[1], self.lam)

    def dircos(self, th=None):
        th = self.th if th is None else th
        d = O.dircos(th[0], th[1], self.proj or "postel")
        if self.proj == "lambert":
            # its arithmetic is good to about 1e-8 near the centre only
            c = np.array(batoid.utils.fieldToDirCos(
                th[0], th[1], projection="lambert"))
            close(c, d, 1e-7, "direction cosines")
            return c
        return d

    # ------------------------------------------------------------- launching
    def launch(self, xy, th=None, flux=None):
        """Reference rays through the stop points."""
        xy = np.atleast_2d(xy)
        d = self.dircos(th)
        P = self.stop.to_global(np.concatenate(
            [xy, np.zeros((len(xy), 1))], axis=1))
        P = self.nd.frame.to_local(P)
        r = O.start_points(P, d, self.ex["backDist"])
        n = len(r)
        z = np.zeros(n, bool)
        return O.Rays(r, np.tile(d/self.n0, (n, 1)), np.zeros(n),
                      np.full(n, self.lam),
                      np.ones(n) if flux is None else np.array(flux), z,
                      z.copy(), self.nd.frame)

    def same_launch(self, rv, rays, what):
        """The rays the code's factory makes are the reference ones: the
        traces of both agree in what hinges on rounding."""
        require(len(rv) == len(rays), f"{what}: number of rays")
        close(np.array(rv.r), rays.r, 1e-8, what+": r")
        close(np.array(rv.v), rays.v, 1e-12, what+": v")

    def trace(self, rv):
        """Final reference rays of a bundle; what is ill-defined for the
        reference (edges of apertures) is taken from tracing the bundle."""
        rays = O.Rays.of(rv)
        stt, _ = S.trace(self.elements, S.State(rays), start=False)
        tr = self.opt.trace(rv.copy())
        S.compare(tr, stt, "trace", tol=1e-8)
        got = O.Rays.of(tr)
        out = stt.rays
        for k in O.Rays.F:
            a = getattr(out, k)
            a[stt.bad] = getattr(got, k)[stt.bad]
        out.bad = stt.bad
        return out

    def grid(self, nx, th=None):
        xy = O.grid_points(nx, nx, [self.D, 0.0], [0.0, self.D])
        th = self.th if th is None else th
        rv = batoid.RayVector.asGrid(
            optic=self.opt, wavelength=self.lam, nx=nx, theta_x=th[0],
            theta_y=th[1], **self.kw)
        self.same_launch(rv, self.launch(xy, th), "grid of rays")
        return rv, xy

    def polar(self, nrad, naz, th=None):
        th = self.th if th is None else th
        eps = self.ex.get("pupilObscuration", 0.0)
        xy = O.hexapolar_points(self.D/2, self.D/2*eps, nrad, naz, 6)
        rv = batoid.RayVector.asPolar(
            optic=self.opt, wavelength=self.lam, nrad=nrad, naz=naz,
            theta_x=th[0], theta_y=th[1], **self.kw)
        self.same_launch(rv, self.launch(xy, th), "polar rays")
        return rv, xy

    def spokes(self, rings, spokes, eps, th=None):
        th = self.th if th is None else th
        rr, w = O.gq_rings(self.D/2, eps*self.D/2, rings)
        az = 2*np.pi*np.arange(spokes)/spokes
        xy = np.array([[r*math.cos(a), r*math.sin(a)] for a in az for r in rr])
        flux = np.tile(w/spokes, spokes)
        rays = self.launch(xy, th, flux)
        rv = batoid.RayVector.asSpokes(
            optic=self.opt, wavelength=self.lam, inner=eps*self.D/2,
            rings=rings, spokes=spokes, spacing="GQ", theta_x=th[0],
            theta_y=th[1], **self.kw)
        self.same_launch(rv, rays, "spokes of rays")
        close(np.array(rv.flux), flux, 1e-12, "quadrature weights")
        return rv, xy

    def chief(self, th=None):
        return S.to_rv(self.launch([[0.0, 0.0]], th))

    # ------------------------------------------------------------ wavefronts
    def on_sphere(self, rays, point, radius):
        """Travel times of final rays to the reference sphere centred on
        point."""
        fr = rays.frame.shift_local(np.asarray(point)+[0, 0, radius])
        loc = rays.to(fr)
        keep = loc.fail.copy()
        loc.fail[:] = False
        out = O.intersect(dict(t="sphere", R=-radius), loc)
        t = np.where(keep | out.fail, np.nan, out.t)
        return t

    def wavefront(self, nx, reference, radius, rv):
        """(waves, mask) on the grid, flattened; None where undefined."""
        rays = self.trace(rv)
        ok = ~rays.vig
        if ok.sum() < 5:
            return None
        c = (nx//2)*nx+nx//2 if nx % 2 == 0 else (nx*nx-1)//2
        if rays.fail[c] and reference == "chief":
            return None
        point = rays.r[c] if reference == "chief" else rays.r[ok].mean(axis=0)
        t = self.on_sphere(rays, point, radius)
        t0 = t[c] if reference == "chief" else t[ok].mean()
        if not np.isfinite(t0) or not np.all(np.isfinite(t[ok])):
            return None
        return (t0-t)/self.lam, rays.vig, rays

    def gq(self, rings, spokes, eps, jmax, reference, radius, th=None):
        """Zernike coefficients by quadrature; "failed" if rays fail; None
        where undefined."""
        rv, xy = self.spokes(rings, spokes, eps, th)
        flux = np.array(rv.flux)
        rays = self.trace(rv)
        if rays.fail.any():
            return "failed"
        ok = ~rays.vig
        if reference == "mean":
            if not ok.any():
                return None
            point = rays.r[ok].mean(axis=0)
        else:
            ch = self.trace(self.chief(th))
            if ch.fail[0]:
                return None
            point = ch.r[0]
        t = self.on_sphere(rays, point, radius)
        if reference == "mean":
            t0 = t[ok].mean()
        else:
            t0 = self.on_sphere(ch, point, radius)[0]
        basis = O.zern_basis(jmax, xy[:, 0], xy[:, 1], self.D/2, eps*self.D/2)
        return basis@((t0-t)/self.lam*flux)/(np.pi*(1-eps**2))
