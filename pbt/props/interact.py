"""C07 reflection, C08 refraction, C09 splitting and coatings, C10 screens,
C15 independence of rays, C16 flags."""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub


def _setup(case, maxang=None, speeds=(1.0,)):
    """Aimed rays on case['surf'] in the frame of the surface, plus optional
    frame of the surface and of the rays."""
    spec = case["surf"]
    s = G.build_surface(spec)
    a = G.aimed(spec, case["seed"], case["n"],
                maxang=case.get("ang", 1.0) if maxang is None else maxang,
                smax=case.get("smax", 5.0), frac=0.8, speeds=speeds)
    return spec, s, a


def _rays(a, case, frame=None):
    n = len(a["t"])
    fl = np.zeros(n, int)
    f = case.get("flags", [])
    k = min(n, len(f))
    fl[:k] = f[:k]
    m = O.Rays(a["r"], a["v"], a["t"], a["w"], a["f"],
               (fl & 1).astype(bool), (fl & 2).astype(bool),
               frame or O.Frame())
    return m


def _frames(case):
    """(surface frame, ray frame) or (None, None)"""
    if case.get("cs") is None:
        return None, None
    return O.Frame.spec(case["cs"][0]), O.Frame.spec(case["cs"][1])


def _to_input(m, case):
    """Model rays in the surface's frame -> batoid rays as handed in, and the
    keyword for the coordinate system."""
    fs, fr = _frames(case)
    if fs is None:
        return S.to_rv(m), {}
    m = m.copy()
    m.frame = fs
    return S.to_rv(m.to(fr)), dict(coordSys=S.make_cs(fs))


def _oracle_normal(spec, s, r):
    """Unit normal at the points; for tilted planes the vector the code
    reports (recorded finding of C05)."""
    if O.has_tilted(spec):
        return np.asarray(s.normal(r[:, 0], r[:, 1])).reshape(-1, 3)
    return O.normal(spec, r[:, 0], r[:, 1])


def _frame_opt():
    return st.one_of(st.none(), st.none(),
                     st.tuples(G.frame(5.0, 2), G.frame(5.0, 2)).map(list))


def _surfs():
    # tilted planes alone or in sums keep their recorded normal; slopes that
    # make it undefined are of no interest here
    return G.surface()


def _case(extra=None, surf=None):
    d = dict(surf=surf if surf is not None else _surfs(), seed=G.seeds,
             n=st.integers(1, 8), ang=st.sampled_from([0.3, 1.0, 1.4]),
             smax=st.sampled_from([0.5, 5.0]),
             flags=st.lists(st.sampled_from([0, 0, 0, 1, 3]), max_size=5),
             cs=_frame_opt(),
             coat=st.one_of(st.none(), st.lists(G.num(0, 1), min_size=2,
                                                max_size=2)),
             how=st.integers(0, 2))
    d.update(extra or {})
    return st.fixed_dictionaries(d)


def _coat(case):
    return None if case["coat"] is None else batoid.SimpleCoating(*case["coat"])


def _bookkeeping(out, m, base, factor, msg):
    """Everything of an interaction that is not the velocity: position, time,
    flags and flux against a plain intersection `base` (both in the surface's
    frame)."""
    same(out.wavelength, m.w, msg+": wavelength changed")
    bf = np.array(base.failed)
    of = np.array(out.failed)
    require(bool(np.all(of >= bf)), msg+": ray that misses is not failed")
    live = ~bf
    want = np.where(live, m.f*factor, m.f)
    close(np.array(out.flux), want, 1e-14, msg+": flux", rtol=1e-13)
    close(np.array(out.r)[live], np.array(base.r)[live], 1e-10,
          msg+": position is not that of the intersection")
    close(np.array(out.t)[live], np.array(base.t)[live], 1e-10,
          msg+": time is not that of the intersection")
    close(np.array(out.t)[m.fail], m.t[m.fail], 0,
          msg+": time of failed ray changed")
    same(np.array(out.vignetted), m.vig | (of & ~m.fail),
         msg+": vignetted flag")
    return live


def _cond(a, nrm, spec, base):
    """Rays well away from grazing incidence."""
    sp = np.sqrt(np.sum(a["v"]**2, axis=-1))
    with np.errstate(all='ignore'):
        return np.abs(np.sum(a["v"]*nrm, axis=-1))/sp > 0.05


# ------------------------------------------------------------------------ C07

@sub("C07", "law", lambda: _case(), 6000,
     rule="a ray that has not failed is reflected at a sloped point or "
          "obliquely")
def reflect(case, ctx):
    spec, s, a = _setup(case, speeds=(1.0, 1/1.3, 1/1.52, G.AIR, 1/1.03))
    m = _rays(a, case)
    coat = _coat(case)
    rv, kw = _to_input(m, case)
    base = s.intersect(_to_input(m, case)[0], **kw)
    if coat is not None:
        kw["coating"] = coat
    if case["how"] == 0 or coat is not None:
        out = s.reflect(rv, **kw)
    elif case["how"] == 1:
        out = batoid.reflect(s, rv, **kw)
    else:
        mir = batoid.Mirror(s, name="m", coordSys=kw.get(
            "coordSys", batoid.CoordSys()))
        out = [mir.reflect, mir.trace, lambda r: mir.rSplit(r)[1],
               lambda r: mir.interact(r, reverse=True)][case["seed"] % 4](rv)
    live = _bookkeeping(out, m, base,
                        coat.reflectivity if coat is not None else 1.0,
                        "reflect")
    same(np.array(out.failed), np.array(base.failed), "reflect: failed flag")
    p = np.array(base.r)
    nrm = _oracle_normal(spec, s, p)
    ok = live & np.all(np.isfinite(nrm), axis=-1)
    want = O.reflect(m.v, nrm)
    v = np.array(out.v)
    sp = np.sqrt(np.sum(m.v**2, axis=-1))
    close(np.sqrt(np.sum(v**2, axis=-1))[ok], sp[ok], 1e-13, "reflect: speed")
    close(v[ok], want[ok], 1e-9, "reflect: velocity")
    # tangential part kept, normal part reversed (against the code's normal)
    cn = np.asarray(s.normal(p[:, 0], p[:, 1])).reshape(-1, 3)
    close(np.sum(v*cn, axis=-1)[ok], -np.sum(m.v*cn, axis=-1)[ok], 1e-10,
          "reflect: normal component")
    # again at the same point
    again = s.reflect(out.copy())
    af = np.array(again.failed)
    gr = ok & ~af & (np.abs(np.sum(m.v*cn, axis=-1)) > 0.05)
    gr &= np.all(np.abs(np.array(again.r)-p) < 1e-9, axis=-1)
    close(np.array(again.v)[gr], m.v[gr], 1e-8,
          "reflecting twice does not restore the velocity")
    ctx.nt(bool((ok & (np.sqrt(np.sum(np.cross(m.v, nrm)**2, axis=-1))
                       > 1e-6)).any()))
    ctx.event(spec["t"])


# ------------------------------------------------------------------------ C08

@sub("C08", "law", lambda: _case(dict(m1=G.medium(), m2=st.one_of(
        G.medium(), G.medium(), st.just(None)))), 8000,
     rule="a ray is refracted obliquely between different media")
def refract(case, ctx):
    spec, s, a = _setup(case)
    m1s = case["m1"]
    m2s = case["m2"] if case["m2"] is not None else case["m1"]
    i1, i2 = O.index(m1s, a["w"]), O.index(m2s, a["w"])
    a["v"] = a["v"]/i1[:, None]
    m = _rays(a, case)
    coat = _coat(case)
    m1, m2 = G.build_medium(m1s), G.build_medium(m2s)
    rv, kw = _to_input(m, case)
    base = s.intersect(_to_input(m, case)[0], **kw)
    if coat is not None:
        kw["coating"] = coat
    if case["how"] == 0 or coat is not None:
        out = s.refract(rv, m1, m2, **kw)
    elif case["how"] == 1:
        out = batoid.refract(s, rv, m1, m2, **kw)
    else:
        cs = kw.get("coordSys", batoid.CoordSys())
        if case["seed"] % 2:
            itf = batoid.RefractiveInterface(s, name="i", coordSys=cs,
                                             inMedium=m1, outMedium=m2)
            rev = False
        else:
            itf = batoid.RefractiveInterface(s, name="i", coordSys=cs,
                                             inMedium=m2, outMedium=m1)
            rev = True
        out = [itf.trace, itf.refract, itf.interact][case["seed"] % 3](
            rv, reverse=rev)
    live = _bookkeeping(out, m, base,
                        coat.transmissivity if coat is not None else 1.0,
                        "refract")
    p = np.array(base.r)
    nrm = _oracle_normal(spec, s, p)
    ok = live & np.all(np.isfinite(nrm), axis=-1)
    v, of = np.array(out.v), np.array(out.failed)
    want = O.refract(m.v, nrm, i2)
    d1 = m.v*i1[:, None]
    c1 = np.sum(d1*nrm, axis=-1)
    sin2 = np.maximum(1-c1*c1, 0)*(i1/i2)**2
    ok &= np.abs(c1) > 1e-6
    tir = ok & (sin2 > 1+1e-7)
    if (tir & ~of & np.isfinite(v).all(axis=-1)).any():
        i = np.argmax(tir & ~of & np.isfinite(v).all(axis=-1))
        fail(f"ray {i} is beyond the critical angle but got velocity "
             f"{v[i].tolist()}")
    thru = ok & (sin2 < 1-1e-7)
    bad = thru & (of | ~np.isfinite(v).all(axis=-1))
    if bad.any():
        i = np.argmax(bad)
        fail(f"ray {i} can be refracted (sin^2 = {sin2[i]!r}) but failed "
             f"or has velocity {v[i].tolist()}")
    amp = 1/np.sqrt(np.maximum(1-sin2, 1e-7))
    sp = np.sqrt(np.sum(v**2, axis=-1))
    close(sp[thru], (1/i2)[thru], 1e-11, "refract: speed is not 1/n2")
    d = np.max(np.abs(v-want), axis=-1)
    bad = thru & ~(d <= 1e-9*amp)
    if bad.any():
        i = np.argmax(bad)
        fail(f"refract: ray {i} got velocity {v[i].tolist()} instead of "
             f"{want[i].tolist()} (n1={i1[i]!r}, n2={i2[i]!r}, normal "
             f"{nrm[i].tolist()})")
    # Snell's law as vectors: n x (n2 d2 - n1 d1) = 0, and same side
    with np.errstate(all='ignore'):
        d2 = v*i2[:, None]
        cr = np.cross(nrm, i2[:, None]*d2-i1[:, None]*d1)
        close(cr[thru], np.zeros_like(cr)[thru], 1e-8, "Snell's law")
        require(bool(np.all((np.sum(d2*nrm, axis=-1)*c1)[thru] > 0)),
                "refracted ray stays on the near side")
    if case["m2"] is None:
        close(v[thru], m.v[thru], 1e-9, "equal media deflect")
    ctx.nt(bool((thru & (sin2 > 1e-8)).any()) and case["m2"] is not None)
    ctx.event("total reflection" if tir.any() else "through")
    # the way back, through the same surface
    if thru.any():
        back = out.copy()
        t0 = np.array(back.t)
        idx = np.flatnonzero(thru & (sin2 < 0.98) & (np.abs(c1) > 0.1))
        if len(idx):
            r = np.array(back.r)[idx]
            bv = G.rayvec(r, -v[idx], 0.0, m.w[idx], 1.0)
            bout = s.refract(bv, m2, m1)
            k = ~np.array(bout.failed)
            k &= np.all(np.abs(np.array(bout.r)-r) < 1e-9, axis=-1)
            close(np.array(bout.v)[k], -m.v[idx][k], 1e-7,
                  "refracting back does not restore the direction")


# ------------------------------------------------------------------------ C09

@sub("C09", "split", lambda: _case(dict(
        m1=G.medium(), m2=G.medium(), coat=st.lists(
            G.num(0, 1), min_size=2, max_size=2))), 5000,
     rule="a ray is split with a coating other than 0/1")
def split(case, ctx):
    spec, s, a = _setup(case)
    i1 = O.index(case["m1"], a["w"])
    a["v"] = a["v"]/i1[:, None]
    m = _rays(a, case)
    m1, m2 = G.build_medium(case["m1"]), G.build_medium(case["m2"])
    coat = _coat(case)
    R, T = case["coat"]
    rv, kw = _to_input(m, case)

    def fresh():
        return _to_input(m, case)[0]
    base = s.intersect(fresh(), **kw)
    bf = np.array(base.failed)
    if case["how"] == 1:
        p, q = batoid.rSplit(s, rv, m1, m2, coat, **kw)
    elif case["how"] == 2:
        itf = batoid.RefractiveInterface(
            s, name="i", coordSys=kw.get("coordSys", batoid.CoordSys()),
            inMedium=m1, outMedium=m2, reverseCoating=coat,
            forwardCoating=batoid.SimpleCoating(0.11, 0.13))
        p, q = itf.rSplit(rv)
    else:
        p, q = s.rSplit(rv, m1, m2, coat, **kw)
    require(p is not q and not np.shares_memory(p.r, q.r)
            and not np.shares_memory(p.flux, q.flux),
            "the two parts share their data")
    wp = s.refract(fresh(), m1, m2, **kw)
    wq = s.reflect(fresh(), **kw)
    for got, ref, fac, lab in ((p, wp, T, "refracted"), (q, wq, R, "reflected")):
        same(np.array(got.failed), np.array(ref.failed), lab+": failed")
        same(np.array(got.vignetted), np.array(ref.vignetted),
             lab+": vignetted")
        same(got.wavelength, m.w, lab+": wavelength")
        lv = ~np.array(ref.failed)
        close(np.array(got.r)[lv], np.array(ref.r)[lv], 1e-12, lab+": position")
        close(np.array(got.v)[lv], np.array(ref.v)[lv], 1e-12, lab+": velocity")
        close(np.array(got.t)[lv], np.array(ref.t)[lv], 1e-12, lab+": time")
        require(got.coordSys == ref.coordSys, lab+": coordSys")
        # flux of every ray that met the surface and goes on
        close(np.array(got.flux)[lv], (m.f*fac)[lv], 1e-14, lab+": flux",
              rtol=1e-13)
        close(np.array(got.flux)[bf], m.f[bf], 0, lab+": flux of a ray that "
              "missed changed")
    if abs(R+T-1) < 1e-12:
        lv = ~np.array(wp.failed)
        close((np.array(p.flux)+np.array(q.flux))[lv], m.f[lv], 1e-12,
              "flux is not conserved")
    ctx.nt(bool((~np.array(wp.failed)).any()) and 0 < R < 1 and 0 < T < 1)
    # the same coating on single interactions
    for lab, out, fac in (
            ("intersect", s.intersect(fresh(), coating=coat, **kw), T),
            ("refract", s.refract(fresh(), m1, m2, coating=coat, **kw), T),
            ("reflect", s.reflect(fresh(), coating=coat, **kw), R)):
        ref = dict(intersect=base, refract=wp, reflect=wq)[lab]
        close(np.array(out.flux), np.where(bf, m.f, m.f*fac), 1e-14,
              lab+" with coating: flux", rtol=1e-13)
        same(np.array(out.failed), np.array(ref.failed),
             lab+" with coating: failed")
        same(np.array(out.vignetted), np.array(ref.vignetted),
             lab+" with coating: vignetted")
        lv = ~np.array(ref.failed)
        close(np.array(out.r)[lv], np.array(ref.r)[lv], 1e-14,
              lab+" with coating: position")
        close(np.array(out.v)[lv], np.array(ref.v)[lv], 1e-14,
              lab+" with coating: velocity")
        close(np.array(out.t)[lv], np.array(ref.t)[lv], 1e-14,
              lab+" with coating: time")
        close(np.array(ref.flux), m.f, 0, lab+" without coating changes flux")


@sub("C09", "coating", lambda: st.fixed_dictionaries(dict(
        R=G.num(0, 1), T=G.num(0, 1), lam=G.num(300, 2000),
        c=G.num(-1, 1))), 300, rule="always")
def coating(case, ctx):
    c = batoid.SimpleCoating(case["R"], case["T"])
    lam, cc = case["lam"]*1e-9, case["c"]
    close(c.getReflect(lam, cc), case["R"], 0, "getReflect")
    close(c.getTransmit(lam, cc), case["T"], 0, "getTransmit")
    close(c.getCoefs(lam, cc), (case["R"], case["T"]), 0, "getCoefs")
    c2 = batoid.SimpleCoating(reflectivity=case["R"], transmissivity=case["T"])
    require(c == c2, "keyword construction")
    ctx.nt()


def _itf_case():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["refr", "mirror", "baffle", "det", "iface",
                              "screen"]),
        surf=S._gentle(), seed=G.seeds, n=st.integers(1, 6), cs=G.frame(5., 2),
        fc=st.one_of(st.none(), st.lists(G.num(0, 1), min_size=2, max_size=2)),
        rc=st.one_of(st.none(), st.lists(G.num(0, 1), min_size=2, max_size=2)),
        m1=G.const_medium(), m2=G.const_medium(), reverse=st.booleans(),
        obsc=st.one_of(st.none(), S._small_obsc())))


# which coating meets which side, and the documented defaults (R, T)
DEFAULTS = dict(refr=(0.0, 1.0), mirror=(1.0, 0.0), baffle=(0.0, 1.0),
                det=(0.0, 1.0))


@sub("C09", "interface", _itf_case, 3000,
     rule="the interface splits and has a coating other than its default")
def interface(case, ctx):
    """rSplit of every kind of interface: right coating, right parts; tracing
    ignores coatings."""
    kind = case["kind"]
    s = G.build_surface(case["surf"])
    rmx = G.rmax(case["surf"])
    a = G.aimed(case["surf"], case["seed"], case["n"], maxang=0.2, smax=1.0,
                frac=min(1.0, 0.5*rmx)/rmx, speeds=(1.0,))
    F = O.Frame.spec(case["cs"])
    m1, m2 = case["m1"], case["m2"]
    rev = case["reverse"]
    if kind != "refr":
        m2 = m1
    a["v"] = a["v"]/O.index(m2 if rev else m1, a["w"])[:, None]
    m = O.Rays(a["r"], a["v"], a["t"], a["w"], a["f"],
               np.zeros(len(a["t"]), bool), np.zeros(len(a["t"]), bool), F)
    nd = S.Node(kind=kind, name="i", frame=F, surf=case["surf"], n1=m1, n2=m2,
                obsc=case["obsc"], fc=case["fc"], rc=case["rc"], skip=False,
                screen=dict(t="parab", R=90.0), items=None)
    itf = S.build(nd)
    cs = S.make_cs(F)
    M1, M2 = G.build_medium(m1), G.build_medium(m2)
    if rev:
        M1, M2 = M2, M1
    # tracing never changes flux
    tr = itf.trace(S.to_rv(m), reverse=rev)
    close(np.array(tr.flux), m.f, 0, "trace changed the flux")
    if kind == "iface":
        return
    if kind == "det" and rev:
        return
    if kind == "screen":
        p, q = itf.rSplit(S.to_rv(m))
        require(q is None, "screens do not reflect")
        w = s.refractScreen(S.to_rv(m), G.build_surface(nd.screen),
                            coordSys=cs)
        parts = [(p, w, 1.0, "transmitted")]
    else:
        fc = case["fc"] if case["fc"] is not None else DEFAULTS[kind]
        rc = case["rc"] if case["rc"] is not None else DEFAULTS[kind]
        R, T = fc if (rev or kind == "det") else rc
        p, q = itf.rSplit(S.to_rv(m), reverse=rev)
        refl = s.reflect(S.to_rv(m), coordSys=cs)
        if kind == "mirror":
            require(p is None, "mirrors do not transmit")
            parts = [(q, refl, R, "reflected")]
        elif kind == "baffle":
            require(q is None, "baffles do not reflect")
            parts = [(p, s.intersect(S.to_rv(m), coordSys=cs), T,
                      "transmitted")]
        else:
            parts = [(p, s.refract(S.to_rv(m), M1, M2, coordSys=cs), T,
                      "transmitted"), (q, refl, R, "reflected")]
    for got, ref, fac, lab in parts:
        lab = f"{kind} {lab}"
        same(np.array(got.failed), np.array(ref.failed), lab+": failed")
        lv = ~np.array(ref.failed)
        close(np.array(got.r)[lv], np.array(ref.r)[lv], 1e-12, lab+": position")
        close(np.array(got.v)[lv], np.array(ref.v)[lv], 1e-12, lab+": velocity")
        close(np.array(got.t)[lv], np.array(ref.t)[lv], 1e-12, lab+": time")
        close(np.array(got.flux)[lv], (m.f*fac)[lv], 1e-14, lab+": flux",
              rtol=1e-13)
    ctx.nt(kind != "screen" and (case["fc"] is not None
                                 or case["rc"] is not None))
    ctx.event(kind+(" reverse" if rev else ""))


# ------------------------------------------------------------------------ C10

def _screens():
    return st.one_of(
        st.just(dict(t="plane")),
        G.num(-1, 1).map(lambda c: dict(t="zernike", coef=[0.0, c*1e-3],
                                        Ro=1.0, Ri=0.0)),
        G.signed(3, 300).map(lambda R: dict(t="parab", R=R)),
        G.builds(lambda R, k: dict(t="quadric", R=R, k=k), G.signed(20, 300),
                 G.conic()),
        G.builds(lambda c, e: dict(t="zernike", coef=[0.0]+[i*1e-2 for i in c],
                                   Ro=4.0, Ri=e*4.0),
                 st.lists(G.num(-1, 1), min_size=1, max_size=15),
                 st.sampled_from([0.0, 0.5])),
        G.builds(lambda seed, n: dict(
            t="bicubic", x0=-60., y0=-60., dx=120./(n-1), dy=120./(n-1), nx=n,
            ny=n, seed=seed, amp=0.02, deriv="given", nan="nan"), G.seeds,
            st.integers(3, 9)),
        # steep: some rays have no outgoing direction
        G.signed(0.5, 3).map(lambda R: dict(t="parab", R=R)),
    )


@sub("C10", "screen", lambda: _case(dict(
        screen=_screens(), surf=G.surface(
            [k for k in G.SIMPLE if k != "tilted"], tilted_in_sum=False))),
     6000, rule="a ray is deflected by the screen")
def screen(case, ctx):
    spec, s, a = _setup(case, speeds=(1.0, 1/1.3, 1/1.52, G.AIR, 1/1.03))
    m = _rays(a, case)
    scr = G.build_surface(case["screen"])
    rv, kw = _to_input(m, case)
    base = s.intersect(_to_input(m, case)[0], **kw)
    if case["how"] == 0:
        out = s.refractScreen(rv, scr, **kw)
    elif case["how"] == 1:
        out = batoid.trace.refractScreen(s, rv, scr, **kw)
    else:
        itf = batoid.OPDScreen(s, scr, name="s", coordSys=kw.get(
            "coordSys", batoid.CoordSys()))
        out = [itf.trace, itf.refract, itf.interact][case["seed"] % 3](
            rv, reverse=bool(case["seed"] & 8))
    bf = np.array(base.failed)
    of = np.array(out.failed)
    live = ~bf
    p = np.array(base.r)
    nrm = O.normal(spec, p[:, 0], p[:, 1])
    gx, gy = O.grad(case["screen"], p[:, 0], p[:, 1])
    fin = np.isfinite(gx) & np.all(np.isfinite(nrm), axis=-1)
    v, opd, evan = S.screen(case["screen"], m.v, nrm, p)
    sp = np.sqrt(np.sum(m.v**2, axis=-1))
    with np.errstate(all='ignore'):
        tang = (m.v/sp[:, None])
        c = np.sum(tang*nrm, axis=-1)
        tn = tang-c[:, None]*nrm
        g3 = np.stack([gx, gy, np.zeros_like(gx)], axis=-1)
        gt = g3-np.sum(g3*nrm, axis=-1)[:, None]*nrm
        q = 1-np.sum((tn+gt)**2, axis=-1)
    live &= np.abs(c) > 1e-6
    same(out.wavelength, m.w, "screen: wavelength")
    close(np.array(out.flux), m.f, 0, "screen: flux changed")
    require(bool(np.all(of >= bf)), "screen: ray that misses is not failed")
    same(np.array(out.vignetted), m.vig | (of & ~m.fail), "screen: vignetted")
    close(np.array(out.t)[m.fail], m.t[m.fail], 0,
          "screen: time of failed ray changed")
    ev = live & fin & (q < -1e-9)
    require(bool(np.all(of[ev])),
            "a ray without a real direction after the screen is not failed")
    ok = live & fin & (q > 1e-9)
    if (ok & of).any():
        fail(f"ray {np.argmax(ok & of)} failed at a screen that it can cross")
    close(np.array(out.r)[ok], p[ok], 1e-12, "screen: position")
    close(np.array(out.t)[ok], (np.array(base.t)+opd)[ok], 1e-10,
          "screen: optical path is not increased by the height of the screen")
    got = np.array(out.v)
    close(np.sqrt(np.sum(got**2, axis=-1))[ok], sp[ok], 1e-11,
          "screen: speed changed")
    require(bool(np.all((np.sum(got*nrm, axis=-1)*c)[ok] > 0)),
            "screen: sense of travel changed")
    gtan = got/sp[:, None]
    gtan = gtan-np.sum(gtan*nrm, axis=-1)[:, None]*nrm
    close(gtan[ok], (tn+gt)[ok], 1e-11,
          "screen: tangential direction cosines")
    d = np.max(np.abs(got-v), axis=-1)*np.sqrt(np.maximum(q, 1e-9))
    close(d[ok], np.zeros(ok.sum()), 1e-9, "screen: velocity")
    if case["screen"]["t"] == "plane" or (
            case["screen"]["t"] == "zernike"
            and len(case["screen"]["coef"]) <= 2):
        close(got[ok], m.v[ok], 1e-10, "constant screen deflects")
    ctx.nt(bool((ok & (np.sqrt(np.sum(gt**2, axis=-1)) > 1e-6)).any()))
    ctx.event("evanescent" if ev.any() else case["screen"]["t"])


@sub("C10", "weak", lambda: st.fixed_dictionaries(dict(
        e=G.num(-14, -5), kind=st.sampled_from(["tilt", "parab", "zernike"]),
        n=st.sampled_from([1.0, 1.3, G.AIR]), up=st.booleans(),
        surf=st.sampled_from(["plane", "parab", "sphere"]), seed=G.seeds)), 900,
     rule="the slope of the screen is resolved by the direction cosines")
def weak(case, ctx):
    """However small the slope of a screen, the direction cosines along the
    surface change by it: seen as the difference between the same rays behind
    the screen and behind a constant one."""
    rng = np.random.default_rng(case["seed"])
    amp = 10.0**case["e"]
    scr = dict(
        tilt=lambda: dict(t="zernike", coef=[0.0, 0.0]
                          + list(amp*rng.uniform(-1, 1, 2)), Ro=2.0, Ri=0.0),
        parab=lambda: dict(t="parab", R=float(1/amp*rng.choice([-1, 1]))),
        zernike=lambda: dict(t="zernike", coef=[0.0]
                             + list(amp*rng.uniform(-1, 1, 10)), Ro=2.0,
                             Ri=0.5))[case["kind"]]()
    spec = dict(plane=dict(t="plane"), parab=dict(t="parab", R=10.0),
                sphere=dict(t="sphere", R=-9.0))[case["surf"]]
    s = G.build_surface(spec)
    sg = 1.0 if case["up"] else -1.0
    r = np.concatenate([rng.uniform(-1, 1, (6, 2)), np.full((6, 1), -sg)],
                       axis=1)
    r = r.round(3)
    d = G.cone_dirs(rng, 6, 0.3, sg)
    if case["seed"] % 4 == 0:
        d[:] = [0.0, 0.0, sg]

    def rays():
        return G.rayvec(r, d/case["n"], np.zeros(6), 5e-7)

    base = s.refractScreen(rays(), batoid.Plane())
    out = s.refractScreen(rays(), G.build_surface(scr))
    p = np.array(base.r)
    close(np.array(out.r), p, 1e-14, "weak screen: position")
    nrm = O.normal(spec, p[:, 0], p[:, 1])
    g = np.stack([*O.grad(scr, p[:, 0], p[:, 1]), np.zeros(6)], axis=-1)
    gt = g-np.sum(g*nrm, axis=-1)[:, None]*nrm
    diff = (np.array(out.v)-np.array(base.v))*case["n"]
    tan = diff-np.sum(diff*nrm, axis=-1)[:, None]*nrm
    size = float(np.max(np.abs(gt)))
    close(tan, gt, 2e-14+1e-9*size,
          "weak screen: change of the tangential direction cosines")
    h = O.sag(scr, p[:, 0], p[:, 1])
    close(np.array(out.t)-np.array(base.t), h,
          1e-14+1e-9*float(np.max(np.abs(h))),
          "weak screen: optical path")
    ctx.nt(size > 1e-13)
    ctx.event(f"slope 1e{int(np.floor(np.log10(size+1e-300)))}")


@sub("C10", "malus", lambda: st.fixed_dictionaries(dict(
        screen=st.one_of(
            G.signed(20, 300).map(lambda R: dict(t="parab", R=R)),
            G.builds(lambda c: dict(t="zernike", coef=[0.0]+[i*1e-3 for i in c],
                                    Ro=2.0, Ri=0.0),
                     st.lists(G.num(-1, 1), min_size=2, max_size=10))),
        up=st.booleans(), seed=G.seeds)), 600,
     rule="the screen has a slope")
def malus(case, ctx):
    """Rays behind a screen stay perpendicular to surfaces of equal time: for
    neighbouring rays of a plane wave in vacuum, dr.v = dt.  (In a medium the
    documented rule, direction cosines plus gradient, is not Malus's.)"""
    rng = np.random.default_rng(case["seed"])
    scr = G.build_surface(case["screen"])
    sg = 1.0 if case["up"] else -1.0
    x, y = rng.uniform(-1, 1, 2)
    h = 1e-5
    P = np.array([[x, y], [x+h, y], [x-h, y], [x, y+h], [x, y-h]])
    d = G.cone_dirs(rng, 1, 0.3, sg)[0]
    # plane wave through the origin at t=0: t = n d.r on each start point
    r = np.concatenate([P, np.full((5, 1), -sg)], axis=1)
    rv = G.rayvec(r, np.tile(d, (5, 1)), r@d, 5e-7)
    out = batoid.Plane().refractScreen(rv, scr)
    q, v, t = np.array(out.r), np.array(out.v), np.array(out.t)
    close((t[1]-t[2]), (q[1]-q[2])@v[0], 1e-11,
          "rays and wavefronts behind the screen disagree (x)")
    close((t[3]-t[4]), (q[3]-q[4])@v[0], 1e-11,
          "rays and wavefronts behind the screen disagree (y)")
    ctx.nt(any(np.hypot(*O.grad(case["screen"], q[:, 0], q[:, 1])) > 1e-7))


# ------------------------------------------------------------------------ C15

def _indep_case():
    return st.fixed_dictionaries(dict(
        sys=S.system(S.element(), 1, 5), nbig=st.sampled_from([3, 17, 64, 257]),
        perm=G.seeds, cut=G.num(0, 1),
        threads=st.sampled_from([2, 3, 5, 8, 16, 0])))


def _arrs(rv):
    return [np.array(rv.r), np.array(rv.v), np.array(rv.t),
            np.array(rv.wavelength), np.array(rv.flux),
            np.array(rv.vignetted), np.array(rv.failed)]


NAMES7 = ["position", "velocity", "time", "wavelength", "flux", "vignetted",
          "failed"]


def _cmp(a, b, msg, tol=1e-12):
    """a, b: lists of arrays as from _arrs.  Failed rays: only flags, flux,
    time."""
    same(a[6], b[6], msg+": failed")
    same(a[5], b[5], msg+": vignetted")
    lv = ~a[6]
    for i in (0, 1, 2, 3, 4):
        if i < 3:
            close(a[i][lv], b[i][lv], tol, f"{msg}: {NAMES7[i]}")
        else:
            close(a[i], b[i], 1e-30, f"{msg}: {NAMES7[i]}", rtol=tol)


class _threads:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = getattr(batoid.global_vars, "_batoid_max_threads", 1)
        batoid.global_vars._batoid_max_threads = self.n

    def __exit__(self, *a):
        batoid.global_vars._batoid_max_threads = self.old


@sub("C15", "system", _indep_case, 1200,
     rule="the system has elements and at least 10 rays")
def independent(case, ctx):
    root = S.expand(case["sys"])
    opt = S.build(root)
    n = case["nbig"]
    rays = S.make_rays(case["sys"], n=n, radius=1.0, ang=0.1)
    rng = np.random.default_rng(case["perm"])

    def trace(m):
        return _arrs(opt.trace(S.to_rv(m)))
    with _threads(1):
        base = trace(rays)
        again = trace(rays)
    for i in range(7):
        same(again[i], base[i], f"second trace: {NAMES7[i]}")
    threads = case["threads"] or max(1, n+3)
    with _threads(threads):
        many = trace(rays)
        _cmp(many, base, f"{threads} threads")
        same(trace(rays)[2], many[2], "second threaded trace: time")
    # alone
    for i in rng.permutation(n)[:4]:
        one = trace(rays.take([i]))
        _cmp(one, [b[[i]] for b in base], f"ray {i} alone")
    # permuted, with duplicates
    perm = rng.permutation(n)
    perm = np.concatenate([perm, perm[:3]])
    with _threads(threads):
        _cmp(trace(rays.take(perm)), [b[perm] for b in base], "permuted")
    # split in two, traced as slices, concatenated again
    k = int(case["cut"]*n)
    rv = S.to_rv(rays)
    lo, hi = rv[:k], rv[k:]
    parts = []
    for part, sl in ((lo, slice(None, k)), (hi, slice(k, None))):
        if len(part) == 0:
            continue
        out = opt.trace(part)
        _cmp(_arrs(out), [b[sl] for b in base], "split")
        parts.append(out)
    cat = batoid.concatenateRayVectors(parts)
    _cmp(_arrs(cat), base, "traced in parts and concatenated")
    # concatenated before
    cat = batoid.concatenateRayVectors([S.to_rv(rays), S.to_rv(rays)])
    _cmp(_arrs(opt.trace(cat)), [np.concatenate([b, b]) for b in base],
         "concatenated twice")
    ctx.nt(n > 9 and len(S.flatten(root)) > 0)
    ctx.event(f"threads={case['threads']}")


@sub("C15", "operations", lambda: st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds, n=st.sampled_from([5, 33, 200]),
        threads=st.sampled_from([2, 3, 8, 16]), obsc=G.obsc(2.0, 1),
        cs=G.frame(3.0, 2), n2=G.const_medium())), 1500,
     rule="always")
def operations(case, ctx):
    """Every ray operation with several threads equals the same with one."""
    spec, s, a = _setup(dict(case, ang=1.2, smax=3.0))
    n = case["n"]
    rng = np.random.default_rng(case["seed"]+1)
    fl = rng.choice([0, 0, 0, 1, 3], n)
    m = O.Rays(a["r"], a["v"], a["t"], a["w"], a["f"], (fl & 1).astype(bool),
               (fl & 2).astype(bool))
    cs = G.coordsys(case["cs"])
    coat = batoid.SimpleCoating(0.3, 0.6)
    m1, m2 = batoid.ConstMedium(1.0), G.build_medium(case["n2"])
    ob = G.build_obsc(case["obsc"])
    scr = batoid.Paraboloid(50.0)
    pt, tt = np.array([0.1, 0.2, 0.3]), 0.4
    ops = dict(
        intersect=lambda rv: s.intersect(rv, coating=coat),
        reflect=lambda rv: s.reflect(rv, coating=coat),
        refract=lambda rv: s.refract(rv, m1, m2, coating=coat),
        split1=lambda rv: s.rSplit(rv, m1, m2, coat)[0],
        split2=lambda rv: s.rSplit(rv, m1, m2, coat)[1],
        screen=lambda rv: s.refractScreen(rv, scr),
        propagate=lambda rv: rv.propagate(1.7),
        obscure=lambda rv: ob.obscure(rv),
        transform=lambda rv: rv.toCoordSys(cs))
    nums = dict(
        positionAtTime=lambda rv: rv.positionAtTime(tt),
        phase=lambda rv: rv.phase(pt, tt),
        amplitude=lambda rv: rv.amplitude(pt, tt))
    for name, f in ops.items():
        with _threads(1):
            base = _arrs(f(S.to_rv(m)))
        with _threads(case["threads"]):
            _cmp(_arrs(f(S.to_rv(m))), base, f"{name}, {case['threads']} "
                 "threads")
        i = case["seed"] % n
        _cmp(_arrs(f(S.to_rv(m.take([i])))), [b[[i]] for b in base],
             f"{name}, ray {i} alone")
    for name, f in nums.items():
        with _threads(1):
            base = np.asarray(f(S.to_rv(m)))
        with _threads(case["threads"]):
            # rounding of large phases
            close(np.asarray(f(S.to_rv(m))), base, 1e-7, name+", threads",
                  rtol=1e-13)
    for ig in (True, False):
        with _threads(1):
            base = S.to_rv(m).sumAmplitude(pt, tt, ignoreVignetted=ig)
        with _threads(case["threads"]):
            close(S.to_rv(m).sumAmplitude(pt, tt, ignoreVignetted=ig), base,
                  1e-9*n, "sumAmplitude, threads")
    ctx.nt()


@sub("C15", "large", lambda: st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds, n=st.sampled_from([7, 40]),
        N=st.sampled_from([1000, 4097, 10001, 33000, 66000]),
        threads=st.sampled_from([1, 8]), obsc=G.obsc(2.0, 1),
        cs=G.frame(3.0, 2), n2=G.const_medium())), 240,
     rule="always")
def large(case, ctx):
    """In a bundle of many thousand rays each ray is treated as in a small
    one."""
    spec, s, a = _setup(dict(case, ang=1.2, smax=3.0))
    n, N = case["n"], case["N"]
    rng = np.random.default_rng(case["seed"]+1)
    fl = rng.choice([0, 0, 0, 1, 3], n)
    m = O.Rays(a["r"], a["v"], a["t"], a["w"], a["f"], (fl & 1).astype(bool),
               (fl & 2).astype(bool))
    idx = rng.integers(0, n, N)
    big = m.take(idx)
    cs = G.coordsys(case["cs"])
    coat = batoid.SimpleCoating(0.3, 0.6)
    m1, m2 = batoid.ConstMedium(1.0), G.build_medium(case["n2"])
    ob = G.build_obsc(case["obsc"])
    scr = batoid.Paraboloid(50.0)
    pt, tt = np.array([0.1, 0.2, 0.3]), 0.4
    opt = batoid.CompoundOptic([batoid.RefractiveInterface(
        s, name="a", coordSys=cs, inMedium=m1, outMedium=m2, obscuration=ob)],
        name="b", inMedium=m1, outMedium=m2)
    ops = dict(
        intersect=lambda rv: s.intersect(rv, coating=coat),
        reflect=lambda rv: s.reflect(rv, coating=coat),
        refract=lambda rv: s.refract(rv, m1, m2, coating=coat),
        split1=lambda rv: s.rSplit(rv, m1, m2, coat)[0],
        split2=lambda rv: s.rSplit(rv, m1, m2, coat)[1],
        screen=lambda rv: s.refractScreen(rv, scr),
        propagate=lambda rv: rv.propagate(1.7),
        obscure=lambda rv: ob.obscure(rv),
        transform=lambda rv: rv.toCoordSys(cs),
        trace=lambda rv: opt.trace(rv),
        copy=lambda rv: rv.copy(), index=lambda rv: rv[:],
        concatenate=lambda rv: batoid.concatenateRayVectors(
            [rv[:1], rv[1:]]) if len(rv) > 1 else rv)
    with _threads(case["threads"]):
        for name, f in ops.items():
            base = _arrs(f(S.to_rv(m)))
            _cmp(_arrs(f(S.to_rv(big))), [b[idx] for b in base],
                 f"{name} of {N} rays")
        close(S.to_rv(big).positionAtTime(tt),
              S.to_rv(m).positionAtTime(tt)[idx], 1e-12,
              f"positionAtTime of {N} rays")
        for name in ("phase", "amplitude"):
            close(getattr(S.to_rv(big), name)(pt, tt),
                  getattr(S.to_rv(m), name)(pt, tt)[idx], 1e-7,
                  f"{name} of {N} rays", rtol=1e-13)
        for ig in (True, False):
            alone = np.array([S.to_rv(m.take([i])).sumAmplitude(
                pt, tt, ignoreVignetted=ig) for i in range(n)])
            close(S.to_rv(big).sumAmplitude(pt, tt, ignoreVignetted=ig),
                  alone[idx].sum(), 1e-8*N, f"sumAmplitude of {N} rays")
    ctx.nt()
    ctx.event(f"N={N}")


# ------------------------------------------------------------------------ C16

@sub("C16", "system", lambda: st.fixed_dictionaries(dict(
        sys=S.system(S.element(), 1, 6), reverse=st.booleans(),
        wide=st.booleans())), 2500,
     rule="a ray gets vignetted or fails on the way")
def flags(case, ctx):
    root = S.expand(case["sys"])
    opt = S.build(root)
    rays = S.make_rays(case["sys"], radius=2.0 if case["wide"] else 0.6,
                       ang=0.4 if case["wide"] else 0.05)
    rev = case["reverse"]
    if rev:
        rays.v = rays.v*O.index(case["sys"]["m0"], rays.w)[:, None] \
            / O.index(root.n2, rays.w)[:, None]
    tf = opt.traceFull(S.to_rv(rays), reverse=rev)
    prev = rays
    lost = False
    for k, d in tf.items():
        i, o = O.Rays.of(d["in"]), O.Rays.of(d["out"])
        for lab, a, b in (("between elements", prev, i), (f"at {k}", i, o)):
            require(bool(np.all(b.fail >= a.fail)),
                    f"{lab}: failed flag cleared")
            require(bool(np.all(b.vig >= a.vig)),
                    f"{lab}: vignetted flag cleared")
            new = b.fail & ~a.fail
            require(bool(np.all(b.vig[new])), f"{lab}: failed, not vignetted")
            same(b.t[a.fail], a.t[a.fail], f"{lab}: time of failed ray")
            require(bool(np.all(np.isfinite(b.t[new]))),
                    f"{lab}: time of a ray lost here is not finite")
            same(b.f, a.f, f"{lab}: flux")
            same(b.w, a.w, f"{lab}: wavelength")
            lost |= bool((b.vig & ~a.vig).any())
        prev = o
    out = opt.trace(S.to_rv(rays), reverse=rev)
    # the same rays, some vignetted from the start, others cleared
    rng = np.random.default_rng(case["sys"]["rays"]["seed"])
    alt = rays.copy()
    alt.vig = (rng.random(len(rays)) < 0.5) | rays.fail
    out2 = opt.trace(S.to_rv(alt), reverse=rev)
    same(np.array(out2.failed), np.array(out.failed),
         "vignetting changes which rays fail")
    lv = ~np.array(out.failed)
    for nm in ("r", "v", "t", "flux"):
        same(np.array(getattr(out2, nm))[lv], np.array(getattr(out, nm))[lv],
             f"vignetting changes {nm}")
    # vignetted at the end = vignetted at the start or on the way
    way = np.array(opt.trace(S.to_rv(_clear(rays)), reverse=rev).vignetted)
    same(np.array(out.vignetted), rays.vig | way, "vignetted at the end")
    require(bool(np.all(way[rays.fail])), "vignetted flag of failed ray")
    same(np.array(out2.vignetted), alt.vig | way, "vignetted at the end")
    # a system without obscurations traces the same rays
    import copy
    bare = copy.deepcopy(root)
    for _, nd in S.full_names(bare):
        if nd.items is None:
            nd.obsc = None
    out3 = S.build(bare).trace(S.to_rv(rays), reverse=rev)
    same(np.array(out3.failed), np.array(out.failed),
         "obscurations change which rays fail")
    for nm in ("r", "v", "t", "flux"):
        same(np.array(getattr(out3, nm))[lv], np.array(getattr(out, nm))[lv],
             f"obscurations change {nm}")
    ctx.nt(lost)
    # a failed ray never contributes
    if np.array(out.failed).any() and len(out):
        amp = out.sumAmplitude(np.zeros(3), 0.0, ignoreVignetted=False)
        keep = out[~np.array(out.failed)]
        want = keep.sumAmplitude(np.zeros(3), 0.0, ignoreVignetted=False) \
            if len(keep) else 0.0
        close(amp, want, 1e-9*len(out), "failed rays contribute an amplitude")
        ctx.event("failed")


def _clear(m):
    m = m.copy()
    m.vig = m.fail.copy()
    return m


@sub("C16", "operations", lambda: _case(dict(
        flags=st.lists(st.sampled_from([0, 1, 2, 3]), min_size=2, max_size=8),
        obsc=G.obsc(2.0, 1), n1=G.const_medium(), n2=G.const_medium(),
        frame=G.frame())), 3000,
     rule="a ray has failed before, or is lost by a refraction")
def op_flags(case, ctx):
    spec, s, a = _setup(case)
    m = _rays(a, case)
    m1, m2 = G.build_medium(case["n1"]), G.build_medium(case["n2"])
    m.v = m.v*(1/float(O.index(case["n1"], 500e-9))
               / np.sqrt((m.v**2).sum(axis=-1)))[:, None]
    coat = batoid.SimpleCoating(0.3, 0.6)
    ob = G.build_obsc(case["obsc"])
    cs = G.coordsys(case["frame"])
    lost = False
    ops = dict(
        intersect=lambda rv: s.intersect(rv, coating=coat),
        reflect=lambda rv: s.reflect(rv, coating=coat),
        refract=lambda rv: s.refract(rv, m1, m2, coating=coat),
        split1=lambda rv: s.rSplit(rv, m1, m2, coat)[0],
        split2=lambda rv: s.rSplit(rv, m1, m2, coat)[1],
        screen=lambda rv: s.refractScreen(rv, batoid.Paraboloid(3.0)),
        obscure=lambda rv: ob.obscure(rv),
        transform=lambda rv: rv.toCoordSys(cs),
        propagate=lambda rv: rv.propagate(1.0))
    free = m.copy()
    free.vig[:] = False
    for name, f in ops.items():
        o = O.Rays.of(f(S.to_rv(m)))
        require(bool(np.all(o.fail >= m.fail)), name+": failed flag cleared")
        require(bool(np.all(o.vig >= m.vig)), name+": vignetted flag cleared")
        new = o.fail & ~m.fail
        require(bool(np.all(o.vig[new])), name+": failed but not vignetted")
        lost |= name in ("refract", "split1") and bool(new.any())
        # a ray lost here keeps a meaningful time; where it missed the
        # surface, the one it came with
        require(bool(np.all(np.isfinite(o.t[new]))),
                name+": time of a ray lost here is not finite")
        if name in ("intersect", "reflect"):
            same(o.t[new], m.t[new], name+": time of a ray that misses")
            same(o.f[new], m.f[new], name+": flux of a ray that misses")
        same(o.w, m.w, name+": wavelength")
        same(o.f[m.fail], m.f[m.fail], name+": flux of failed ray")
        if name != "propagate":
            same(o.t[m.fail], m.t[m.fail], name+": time of failed ray")
        # vignetting changes nothing else
        g = O.Rays.of(f(S.to_rv(free)))
        same(g.fail, o.fail, name+": vignetted rays fail differently")
        lv = ~o.fail
        for nm in ("r", "v", "t", "f"):
            same(getattr(o, nm)[lv], getattr(g, nm)[lv],
                 f"{name}: {nm} depends on vignetting")
        same(o.vig, g.vig | m.vig, name+": vignetted flag")
    ctx.event("lost by refraction" if lost else "none lost")
    ctx.nt(bool(m.fail.any()) or lost)
