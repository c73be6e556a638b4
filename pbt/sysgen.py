"""Generated optical systems: strategies, builders and a reference sequential
ray tracer.

A case holds *intents* (what the elements are and how they are placed relative
to the beam); `expand` turns them into an explicit tree of elements with global
frames, media, obscurations and coatings, from which both the batoid optic and
the reference model are made.
"""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from . import gens as G
from . import oracle as O

# Names that are prefixes / suffixes / components of each other.
NAMES = ["M1", "M10", "M", "L1", "L10", "L1_a", "L", "a", "M1_L1", "D", "D1",
         "10", "1", "LM1", "aa", "L1_e", "X", "X1", "M1 b", "S", "S1", "S10",
         "e", "L2", "M2", "M3", "L3", "F", "F1", "F10"]


# -------------------------------------------------------------------- intents

def _gentle(newton=True):
    R = G.signed(4, 40)
    k = st.one_of(G.num(-2, 1), st.sampled_from([0.0, -1.0]))
    simple = [
        st.just(dict(t="plane")),
        G.builds(lambda R: dict(t="parab", R=R), R),
        G.builds(lambda R: dict(t="sphere", R=R), R),
        G.builds(lambda R, k: dict(t="quadric", R=R, k=k), R, k),
    ]
    if not newton:
        return st.one_of(*simple)
    asph = G.builds(
        lambda R, k, c: dict(t="asphere", R=R, k=k, imin=2,
                             coefs=[a*1e-4 for a in c]),
        R, k, st.lists(G.num(-1, 1), max_size=2))
    zern = G.builds(
        lambda c, Ro, e: dict(t="zernike", coef=[a*2e-3 for a in c], Ro=Ro,
                              Ri=e*Ro),
        st.lists(G.num(-1, 1), min_size=1, max_size=11),
        G.num(2, 4), st.sampled_from([0.0, 0.4]))
    bic = G.builds(
        lambda n, seed, a: dict(t="bicubic", x0=-4.0, y0=-4.0,
                                dx=8.0/(n-1), dy=8.0/(n-1), nx=n, ny=n,
                                seed=seed, amp=a, deriv="given", nan="nan"),
        st.integers(4, 7), G.seeds, st.sampled_from([1e-3, 5e-3]))
    sm = G.builds(lambda a, b: dict(t="sum", items=[a, b]),
                   st.one_of(*simple), st.one_of(asph, zern, bic))
    return st.one_of(*simple, *simple, asph, zern, sm, bic)


def _small_obsc():
    c = G.num(-0.4, 0.4)
    clear = G.builds(
        lambda r, x, y: dict(t="not", item=dict(t="circle", r=r, x=x, y=y)),
        G.num(0.3, 1.5), c, c)
    ann = G.builds(
        lambda i, o: dict(t="not", item=dict(t="annulus", ri=i, ro=o, x=0.0,
                                             y=0.0)),
        G.num(0, 0.3), G.num(0.35, 1.5))
    return st.one_of(clear, clear, ann, G.obsc(0.4, depth=1))


def _coat():
    return st.one_of(st.none(), G.builds(
        lambda r, t: [r, t], G.num(0, 1), G.num(0, 1)))


def element(kinds=("refr", "refr", "mirror", "mirror", "baffle", "det",
                   "iface", "screen"),
            obsc=True, coat=True, skip=True, newton=True, media=None,
            tilt=0.15):
    def mk(kind, gap, surf, tlt, dec, roll, flip, ob, n, fc, rc, sk, name,
           scr, at):
        e = dict(kind=kind, gap=gap, surf=surf, tilt=tlt, dec=dec, roll=roll,
                 flip=flip, name=name)
        if ob is not None:
            e["obsc"] = ob
        if kind == "refr":
            e["n"] = n
        if kind == "screen":
            e["screen"] = scr
        else:
            if fc is not None:
                e["fc"] = fc
            if rc is not None:
                e["rc"] = rc
        if sk:
            e["skip"] = True
        if at:
            # at the origin of the element before, or parallel to it
            e["at"] = at
            if at == "origin":
                e["surf"] = dict(t="plane")
        return e
    small = st.lists(G.num(-tilt, tilt), min_size=2, max_size=2)
    big = st.lists(G.num(-0.6, 0.6), min_size=2, max_size=2)
    scr = st.one_of(
        G.builds(lambda R: dict(t="parab", R=R), G.signed(50, 200)),
        G.builds(lambda c: dict(t="zernike", coef=[a*1e-3 for a in c],
                                 Ro=2.0, Ri=0.0),
                  st.lists(G.num(-1, 1), min_size=1, max_size=11)),
        st.just(dict(t="plane")))
    gentle = _gentle(newton)
    so = _small_obsc()
    med = media if media is not None else G.medium()
    return st.one_of([G.builds(
        mk, st.just(kind), G.num(0.2, 2.5),
        gentle, st.one_of(small, small, big) if kind == "mirror"
        else small,
        st.lists(G.num(-0.05, 0.05), min_size=2, max_size=2),
        st.one_of(st.just(0.0), G.num(-3, 3)), st.booleans(),
        st.one_of(st.none(), st.none(), so) if obsc else st.none(),
        med if kind == "refr" else st.none(),
        _coat() if coat else st.none(), _coat() if coat else st.none(),
        st.sampled_from([False]*6+[True]) if skip else st.just(False),
        st.integers(0, len(NAMES)-1),
        scr if kind == "screen" else st.none(),
        st.sampled_from([""]*8+["origin", "rot"])) for kind in kinds])


def system(el, min_size=1, max_size=6, groups=True, gskip=True):
    """{"items": [...], "name", "m0", "beam", "rays"}"""
    def grp(items, name, lens, sk, cs):
        g = dict(items=items, name=name, cs=cs)
        if lens and len(items) == 2:
            g["lens"] = True
        if sk:
            g["skip"] = True
        return g
    gcs = st.one_of(st.none(), G.frame(3.0, 2))
    sk = st.sampled_from([False]*7+[True]) if gskip else st.just(False)
    idx = st.integers(0, len(NAMES)-1)
    node = el
    if groups:
        g1 = G.builds(grp, st.lists(el, min_size=1, max_size=3), idx,
                       st.booleans(), sk, gcs)
        g2 = G.builds(grp, st.lists(st.one_of(el, g1), min_size=1,
                                     max_size=2), idx, st.just(False), sk, gcs)
        node = st.one_of(g1, g2, g2, el) if groups == "mostly" \
            else st.one_of(el, el, g1, g2)
    return st.fixed_dictionaries(dict(
        items=st.lists(node, min_size=min_size, max_size=max_size),
        name=idx, m0=st.one_of(st.just(dict(t="const", n=1.0)),
                               G.const_medium()),
        beam=st.fixed_dictionaries(dict(o=G.vec3(3.0), rot=G.rots(2))),
        rays=st.fixed_dictionaries(dict(
            seed=G.seeds, n=st.integers(1, 12),
            cs=st.one_of(st.none(), G.frame(5.0, 2)),
            flags=st.lists(st.sampled_from([0, 0, 0, 0, 1, 3]),
                           max_size=12))),
    ))


# --------------------------------------------------------------------- expand

class Node:
    """Element (items is None) or group of the expanded tree."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def _axis_frame(d):
    """A rotation whose third column is d."""
    d = d/np.linalg.norm(d)
    a = np.array([1.0, 0, 0]) if abs(d[0]) < 0.7 else np.array([0, 1.0, 0])
    x = np.cross(a, d)
    x /= np.linalg.norm(x)
    y = np.cross(d, x)
    return np.stack([x, y, d], axis=-1)


def expand(case, unique_names=True):
    """-> root Node.  Element Nodes have: kind, name, frame, surf, n1, n2,
    obsc, fc, rc, skip, screen.  Group Nodes: name, items, skip, frame, n1,
    n2, lens."""
    b = O.Frame.spec(case["beam"])
    st_ = dict(pos=b.o.copy(), d=b.rot[:, 2].copy(), m=case["m0"])
    used = set()

    def pick(k, sib):
        for i in range(len(NAMES)):
            nm = NAMES[(k+i) % len(NAMES)]
            if nm not in sib and not (unique_names and nm in used):
                sib.add(nm)
                used.add(nm)
                return nm
        nm = f"N{len(used)}"
        sib.add(nm)
        used.add(nm)
        return nm

    top = NAMES[case["name"]]
    used.add(top)

    def elem(e, sib):
        name = pick(e["name"], sib)
        d = st_["d"]
        pos = st_["pos"]+e["gap"]*d
        A = _axis_frame(-d if e["flip"] else d)
        rot = A@O.rot_list([["z", e["roll"]], ["x", e["tilt"][0]],
                            ["y", e["tilt"][1]]])
        o = pos+A[:, 0]*e["dec"][0]+A[:, 1]*e["dec"][1]
        last = st_.get("last")
        if e.get("at") and last is not None:
            if e["at"] == "rot":
                rot = last.rot.copy()
            else:
                o = last.o.copy()
                pos = st_["pos"]
        n1 = st_["m"]
        n2 = e["n"] if e["kind"] == "refr" else n1
        nd = Node(kind=e["kind"], name=name, frame=O.Frame(o, rot),
                  surf=e["surf"], n1=n1, n2=n2, obsc=e.get("obsc"),
                  fc=e.get("fc"), rc=e.get("rc"), skip=e.get("skip", False),
                  screen=e.get("screen"), items=None)
        st_["pos"] = pos
        if not nd.skip:
            st_["last"] = nd.frame
            z = rot[:, 2]
            if e["kind"] == "mirror":
                st_["d"] = d-2*(d@z)*z
            elif e["kind"] == "refr":
                i1 = float(O.index(n1, 500e-9))
                i2 = float(O.index(n2, 500e-9))
                v = O.refract((d/i1)[None], z[None], np.array([i2]))[0]
                if np.all(np.isfinite(v)):
                    st_["d"] = v*i2
                st_["m"] = n2
        return nd

    def group(g, sib):
        name = pick(g["name"], sib)
        n1 = st_["m"]
        skip = g.get("skip", False)
        saved = dict(st_)
        inner = set()
        items = [group(i, inner) if "items" in i else elem(i, inner)
                 for i in g["items"]]
        n2 = st_["m"]
        if skip:
            # the beam goes on as if the group was not there
            st_.update(saved)
        cs = O.Frame.spec(g["cs"]) if g["cs"] is not None else O.Frame()
        lens = bool(g.get("lens")) and len(items) == 2 \
            and not any(i.skip for i in items) and items[0].items is None \
            and items[1].items is None
        return Node(kind="group", name=name, items=items, skip=skip,
                    frame=cs, n1=n1, n2=n2, lens=lens)

    sib = set()
    items = [group(i, sib) if "items" in i else elem(i, sib)
             for i in case["items"]]
    return Node(kind="group", name=top, items=items, skip=False,
                frame=O.Frame(), n1=case["m0"], n2=st_["m"], lens=False)


def make_cs(f):
    return batoid.CoordSys(np.array(f.o), np.array(f.rot))


CLS = dict(mirror=batoid.Mirror, refr=batoid.RefractiveInterface,
           det=batoid.Detector, baffle=batoid.Baffle, iface=batoid.Interface)


def build(nd, frame_map=lambda f: f):
    """Node -> batoid optic; frame_map moves the frames (C03)."""
    kw = dict(name=nd.name, coordSys=make_cs(frame_map(nd.frame)),
              inMedium=G.build_medium(nd.n1), outMedium=G.build_medium(nd.n2))
    if nd.skip:
        kw["skip"] = True
    for k, v in getattr(nd, "extra", {}).items():
        kw[k] = build(v, frame_map) if isinstance(v, Node) else v
    if nd.items is not None:
        items = [build(i, frame_map) for i in nd.items]
        return (batoid.Lens if nd.lens else batoid.CompoundOptic)(items, **kw)
    if nd.obsc is not None:
        kw["obscuration"] = G.build_obsc(nd.obsc)
    if nd.fc is not None:
        kw["forwardCoating"] = batoid.SimpleCoating(*nd.fc)
    if nd.rc is not None:
        kw["reverseCoating"] = batoid.SimpleCoating(*nd.rc)
    s = G.build_surface(nd.surf)
    if nd.kind == "screen":
        return batoid.OPDScreen(s, G.build_surface(nd.screen), **kw)
    return CLS[nd.kind](s, **kw)


def flatten(nd, skipped=False):
    """Elements in order, without skipped ones (the skip of the root is not
    looked at: plain tracing ignores it)."""
    if nd.items is None:
        return [nd]
    out = []
    for i in nd.items:
        if not i.skip or skipped:
            out.extend(flatten(i, skipped))
    return out


def full_names(nd, prefix=""):
    """[(full dotted name, node)] of the whole tree."""
    name = prefix+nd.name
    out = [(name, nd)]
    if nd.items is not None:
        for i in nd.items:
            out.extend(full_names(i, name+"."))
    return out


# ----------------------------------------------------------------- input rays

def make_rays(case, n=None, radius=0.5, ang=0.02, back=1.0, flags=True):
    """Reference Rays entering the system (global frame or rays.cs)."""
    rs = case["rays"]
    n = n or rs["n"]
    rng = np.random.default_rng(rs["seed"])
    b = O.Frame.spec(case["beam"])
    b = O.Frame(b.o, _axis_frame(b.rot[:, 2]))
    x, y = G.disk(rng, n, radius)
    r = b.to_global(np.stack([x, y, np.full(n, -back)], axis=-1))
    d = G.cone_dirs(rng, n, ang, 1.0)@b.rot.T
    w = rng.choice(G.WAVES, n)
    v = d/O.index(case["m0"], w)[:, None]
    fl = np.zeros(n, int)
    if flags:
        k = min(n, len(rs["flags"]))
        fl[:k] = rs["flags"][:k]
    rays = O.Rays(r, v, rng.uniform(-2, 2, n), w, rng.uniform(0.2, 2, n),
                  (fl & 1).astype(bool), (fl & 2).astype(bool))
    if rs["cs"] is not None:
        rays = rays.to(O.Frame.spec(rs["cs"]))
    return rays


def to_rv(rays, frame_map=lambda f: f):
    return G.rayvec(rays.r, rays.v, rays.t, rays.w, rays.f, rays.vig,
                    rays.fail, make_cs(frame_map(rays.frame)))


# ------------------------------------------------------------ reference tracer

class State:
    """Reference rays plus `bad`: rays whose comparison is not meaningful any
    more (ill-conditioned geometry, or at an aperture's edge)."""
    def __init__(self, rays, bad=None):
        self.rays = rays
        self.bad = np.zeros(len(rays), bool) if bad is None else bad

    def copy(self):
        return State(self.rays.copy(), self.bad.copy())


EDGE = 1e-7


def is_newton(s):
    return s["t"] in ("asphere", "zernike", "bicubic", "sum")


def act(nd, stt, mode, reverse=False, start=True):
    """One element.  mode: 'natural' (what tracing does), 'reflect', 'refract',
    'pass'.  Returns a new State in the element's frame.  start: rays that
    start outside the well-behaved part of an iteratively intersected surface
    are not compared."""
    rays = stt.rays.to(nd.frame)
    bad = stt.bad.copy()
    out = O.intersect(nd.surf, rays)
    newfail = out.fail & ~rays.fail
    p = out.r
    live = ~out.fail
    bad |= newfail     # reference and code may choose differently: not compared
    gx, gy = O.grad(nd.surf, p[:, 0], p[:, 1])
    nrm = np.stack([-gx, -gy, np.ones_like(gx)], axis=-1)
    nrm /= np.sqrt(np.sum(nrm*nrm, axis=-1))[:, None]
    sp = np.sqrt(np.sum(rays.v**2, axis=-1))
    with np.errstate(all='ignore'):
        ci = np.abs(np.sum(rays.v*nrm, axis=-1))/sp
        rad = np.hypot(p[:, 0], p[:, 1])
        lim = min(0.8*G.rmax(nd.surf), 0.45*_absR(nd.surf))
        bad |= live & ~((ci > 0.35) & (rad < lim))
        # strong polynomial terms: the iteration of a ray that meets them at
        # an angle may need more steps than the code makes
        bad |= live & (_poly_slope(nd.surf, rad) > 0.1)
        bad |= live & ~(np.abs(nrm[:, 2]) > 0.7)
        if start and is_newton(nd.surf):
            # the code starts its iteration at the ray's start
            bad |= live & ~(np.hypot(rays.r[:, 0], rays.r[:, 1]) < lim)
        # the direction to the surface must be unambiguous
        bad |= live & ~(np.abs(rays.v[:, 2])/sp > 0.35)
        # the iteration for a sum starts where the ray meets its first item
        s0 = nd.surf
        while s0["t"] == "sum":
            s0 = s0["items"][0]
            o0 = O.intersect(s0, rays)
            g0 = O.normal(s0, o0.r[:, 0], o0.r[:, 1])
            bad |= live & ~(
                ~o0.fail & (np.hypot(o0.r[:, 0], o0.r[:, 1]) < lim)
                & (np.abs(np.sum(rays.v*g0, axis=-1))/sp > 0.3))
    if mode == "natural":
        mode = dict(mirror="reflect", refr="refract", screen="screen").get(
            nd.kind, "pass")
    if mode == "reflect":
        out.v = np.where(live[:, None], O.reflect(rays.v, nrm), rays.v)
    elif mode == "refract":
        m2 = nd.n1 if reverse else nd.n2
        m1 = nd.n2 if reverse else nd.n1
        n1 = O.index(m1, rays.w)
        n2 = O.index(m2, rays.w)
        v = O.refract(rays.v, nrm, n2)
        # the code takes the incoming index from the medium
        bad |= live & ~(np.abs(sp*n1-1) < 1e-9)
        tir = live & ~np.isfinite(v[:, 0])
        with np.errstate(all='ignore'):
            marg = np.abs(1-(n1/n2)**2*(1-ci**2))
        bad |= live & ~(marg > 0.05)
        out.v = np.where(live[:, None], v, rays.v)
        out.fail |= tir
        out.vig |= tir
    elif mode == "screen":
        v, dop, fail = screen(nd.screen, rays.v, nrm, p)
        out.v = np.where(live[:, None], v, rays.v)
        out.t = np.where(live, out.t+dop, out.t)
        out.fail |= live & fail
        out.vig |= live & fail
    live = ~out.fail
    if nd.obsc is not None:
        ins, marg = O.contains(nd.obsc, out.r[:, 0], out.r[:, 1])
        bad |= live & ~(marg > EDGE)
        out.vig |= live & ins
    return State(out, bad)


def _poly_slope(s, r):
    if s["t"] == "asphere":
        m = s.get("imin", 2)
        return sum((abs(c)*2*(i+m)*r**(2*(i+m)-1)
                    for i, c in enumerate(s["coefs"])), 0*r)
    if s["t"] == "sum":
        return sum((_poly_slope(i, r) for i in s["items"]), 0*r)
    return 0*r


def _absR(s):
    if "R" in s:
        return abs(s["R"])
    if s["t"] == "sum":
        return min(_absR(i) for i in s["items"])
    return math.inf


def screen(scr, v, nrm, p):
    """Deflection by a phase screen: direction cosines along two orthonormal
    tangents change by the tangential gradient of the OPD."""
    sp = np.sqrt(np.sum(v*v, axis=-1))
    d = v/sp[:, None]
    gx, gy = O.grad(scr, p[:, 0], p[:, 1])
    g3 = np.stack([gx, gy, np.zeros_like(gx)], axis=-1)
    gt = g3-np.sum(g3*nrm, axis=-1)[:, None]*nrm
    c = np.sum(d*nrm, axis=-1)
    dt = d-c[:, None]*nrm
    new = dt+gt
    with np.errstate(all='ignore'):
        q = 1-np.sum(new*new, axis=-1)
        cn = np.sqrt(q)*np.where(c < 0, -1.0, 1.0)
    out = (new+cn[:, None]*nrm)*sp[:, None]
    return out, O.sag(scr, p[:, 0], p[:, 1]), ~(q >= 0)


def trace(elements, stt, reverse=False, start=True):
    seq = list(reversed(elements)) if reverse else elements
    hist = []
    for e in seq:
        new = act(e, stt, "natural", reverse, start)
        hist.append((e, stt, new))
        stt = new
    return stt, hist


def compare(rv, stt, msg, tol=1e-8, flux=True):
    """batoid rays against a reference State.  Returns the number of rays
    compared in full."""
    from .core import close, same, require, fail
    rays = stt.rays
    require(len(rv) == len(rays), f"{msg}: {len(rv)} rays instead of {len(rays)}")
    ok = ~stt.bad
    same(rv.wavelength, rays.w, msg+": wavelength")
    if flux:
        close(np.array(rv.flux)[ok], rays.f[ok], 1e-12, msg+": flux",
              rtol=1e-9)
    cfail = np.array(rv.failed)
    if np.any(cfail[ok] != rays.fail[ok]):
        i = np.flatnonzero(ok)[np.argmax(cfail[ok] != rays.fail[ok])]
        fail(f"{msg}: ray {i} failed={cfail[i]} instead of {rays.fail[i]}")
    cvig = np.array(rv.vignetted)
    if np.any(cvig[ok] != rays.vig[ok]):
        i = np.flatnonzero(ok)[np.argmax(cvig[ok] != rays.vig[ok])]
        fail(f"{msg}: ray {i} vignetted={cvig[i]} instead of {rays.vig[i]}")
    live = ok & ~rays.fail
    close(rv.coordSys.origin, rays.frame.o, 1e-9, msg+": coordSys origin")
    close(rv.coordSys.rot, rays.frame.rot, 1e-9, msg+": coordSys rotation")
    close(np.array(rv.r)[live], rays.r[live], tol, msg+": position")
    close(np.array(rv.v)[live], rays.v[live], tol, msg+": velocity")
    close(np.array(rv.t)[live], rays.t[live], tol, msg+": time")
    return int(live.sum())
