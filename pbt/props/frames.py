"""C01 coordinate systems, C02 transforms, C03 frame independence."""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub

# ------------------------------------------------------------------------ C01


def _op():
    pivot = st.one_of(st.none(), G.vec3(5.0))
    pcs = st.one_of(st.none(), st.just("self"), G.frame(5.0, 2))
    rot = st.lists(st.tuples(st.sampled_from("xyz"), G.angle()).map(list),
                   min_size=1, max_size=2)
    return st.one_of(
        st.builds(lambda k, dr: dict(k=k, dr=dr),
                  st.sampled_from(["shiftGlobal", "shiftLocal"]), G.vec3(10.0)),
        st.builds(lambda k, r, p, c: dict(k=k, rot=r, pivot=p, pcs=c),
                  st.sampled_from(["rotateGlobal", "rotateLocal"]), rot, pivot,
                  pcs))


def _chain_case():
    return st.fixed_dictionaries(dict(
        start=G.frame(), ops=st.lists(_op(), min_size=1, max_size=8),
        form=st.sampled_from(["list", "tuple", "array"]),
        points=st.lists(G.vec3(10.0), min_size=1, max_size=4)))


def _as(form, v):
    return dict(list=list, tuple=tuple, array=np.array)[form](v)


def _check_cs(cs, f, msg, tol=1e-11):
    s = 1+np.max(np.abs(f.o))
    close(cs.origin, f.o, tol*s, msg+": origin")
    close(cs.rot, f.rot, tol, msg+": rot")
    close(cs.rot.T@cs.rot, np.eye(3), 1e-12, msg+": axes not orthonormal")
    close(np.linalg.det(cs.rot), 1.0, 1e-12, msg+": handedness")
    same(cs.xhat, cs.rot[:, 0], msg+": xhat")
    same(cs.yhat, cs.rot[:, 1], msg+": yhat")
    same(cs.zhat, cs.rot[:, 2], msg+": zhat")


@sub("C01", "chain", _chain_case, 8000,
     rule="at least two operations, one of them a rotation by a non-zero angle")
def chain(case, ctx):
    cs = G.coordsys(case["start"])
    f = O.Frame.spec(case["start"])
    _check_cs(cs, f, "constructed")
    history = []
    nrot = 0
    for i, op in enumerate(case["ops"]):
        msg = f"after operation {i} ({op['k']})"
        before = (cs, cs.origin.copy(), cs.rot.copy())
        history.append(before)
        if op["k"].startswith("shift"):
            arg = _as(case["form"], op["dr"])
            # tuples/lists: documented as arrays; add as array when shifting
            arg0 = np.array(arg, float)
            new = getattr(cs, op["k"])(arg)
            same(np.array(arg, float), arg0, msg+": argument modified")
            f = (f.shift_global if op["k"] == "shiftGlobal"
                 else f.shift_local)(op["dr"])
        else:
            R = O.rot_list(op["rot"])
            nrot += any(a for _, a in op["rot"])
            RR = np.eye(3)
            for ax, a in op["rot"]:
                RR = RR@getattr(batoid, "Rot"+ax.upper())(a)
            close(RR, R, 1e-15, f"Rot of {op['rot']}", rtol=1e-14)
            kw = {}
            piv = None
            pc = None
            if op["pcs"] == "self":
                kw["coordSys"], pc = cs, f
            elif op["pcs"] is not None:
                kw["coordSys"] = G.coordsys(op["pcs"])
                pc = O.Frame.spec(op["pcs"])
            if op["pivot"] is not None:
                kw["rotCenter"] = _as(case["form"], op["pivot"])
                piv = np.array(op["pivot"], float)
            else:
                piv = np.zeros(3)
            if pc is not None:
                gp = pc.to_global(piv)
            elif op["k"] == "rotateGlobal":
                gp = piv
            else:
                gp = f.to_global(piv)
            RR0 = RR.copy()
            kcs = kw.get("coordSys")
            if kcs is not None:
                k0 = kcs.origin.copy(), kcs.rot.copy()
            new = getattr(cs, op["k"])(RR, **kw)
            same(RR, RR0, msg+": rotation argument modified")
            if kcs is not None:
                same(kcs.origin, k0[0], msg+": coordSys argument modified")
                same(kcs.rot, k0[1], msg+": coordSys argument modified")
            f = (f.rotate_global if op["k"] == "rotateGlobal"
                 else f.rotate_local)(R, gp)
        require(isinstance(new, batoid.CoordSys), msg+": not a CoordSys")
        _check_cs(new, f, msg)
        # changing the result must not change the original
        cs = new
    for c, o, r in history:
        same(c.origin, o, "an earlier coordinate system was modified")
        same(c.rot, r, "an earlier coordinate system was modified")
    pts = np.array(case["points"], float)
    s = 1+np.max(np.abs(f.o))+np.max(np.abs(pts))
    g = cs.toGlobal(pts)
    close(g, f.to_global(pts), 1e-11*s, "toGlobal")
    close(cs.toLocal(pts), f.to_local(pts), 1e-11*s, "toLocal")
    close(cs.toLocal(g), pts, 1e-11*s, "toLocal(toGlobal)")
    close(cs.toGlobal(cs.toLocal(pts)), pts, 1e-11*s, "toGlobal(toLocal)")
    same(pts, np.array(case["points"], float), "the vectors were modified")
    for p in case["points"]:
        close(cs.toGlobal(p), f.to_global(p), 1e-11*s, "toGlobal of one vector")
        close(cs.toLocal(p), f.to_local(p), 1e-11*s, "toLocal of one vector")
    c = cs.copy()
    same(c.origin, cs.origin, "copy")
    same(c.rot, cs.rot, "copy")
    c.origin[0] += 1
    c.rot[0, 0] += 1
    close(cs.origin, f.o, 1e-11*s, "copy shares its origin")
    close(cs.rot, f.rot, 1e-11, "copy shares its axes")
    ctx.nt(len(case["ops"]) > 1 and nrot > 0)
    ctx.event(f"rotations={min(nrot, 3)}")


@sub("C01", "elementary", lambda: st.fixed_dictionaries(dict(
        a=G.num(-20, 20), b=G.num(-20, 20), ax=st.sampled_from("XYZ"))), 400,
     rule="both angles non-zero")
def elementary(case, ctx):
    a, b, ax = case["a"], case["b"], case["ax"]
    Rot = getattr(batoid, "Rot"+ax)
    k = "XYZ".index(ax)
    e = np.eye(3)
    i, j, l = e[k], e[(k+1) % 3], e[(k+2) % 3]
    close(Rot(a)@i, i, 1e-15, f"Rot{ax} moves its own axis")
    close(Rot(a)@j, math.cos(a)*j+math.sin(a)*l, 1e-14,
          f"Rot{ax} is not right-handed")
    close(Rot(a)@l, -math.sin(a)*j+math.cos(a)*l, 1e-14,
          f"Rot{ax} is not right-handed")
    close(Rot(a)@Rot(b), Rot(a+b), 1e-13, f"Rot{ax}(a) Rot{ax}(b)")
    close(Rot(-a), Rot(a).T, 1e-15, f"Rot{ax}(-a)")
    # defaults of the constructor
    c = batoid.CoordSys()
    same(c.origin, np.zeros(3), "default origin")
    same(c.rot, np.eye(3), "default rot")
    # a constructed system owns its values
    o, R = np.array([a, b, a+b]), Rot(a)
    c = batoid.CoordSys(o, R)
    o[0] += 1
    R[0, 0] += 1
    close(c.origin, [a, b, a+b], 0, "constructor aliases origin")
    close(c.rot, Rot(a), 0, "constructor aliases rot")
    ctx.nt(a != 0 and b != 0)


# ------------------------------------------------------------------------ C02

def _tf_case():
    def near(case):
        """Some frames only a little away from the one before, possibly with
        everything far from the global origin."""
        fr = [dict(f) for f in case["frames"]]
        far = np.array(case["far"])
        for f in fr:
            f["o"] = (np.array(f["o"], float)+far).tolist()
        rays = dict(case["rays"])
        cs = dict(rays["cs"])
        cs["o"] = (np.array(cs["o"], float)+far).tolist()
        rays["cs"] = cs
        prev = cs
        for f, k in zip(fr, case["small"]):
            if k is not None:
                d, e, turn = k
                f["o"] = (np.array(prev["o"])
                          + np.array(d)*10.0**-e).tolist()
                if not turn:
                    f["rot"] = prev["rot"]
            prev = f
        return dict(frames=fr, rays=rays)

    small = st.one_of(st.none(), st.tuples(
        G.vec3(1.0), st.integers(0, 9), st.booleans()).map(list))
    return st.fixed_dictionaries(dict(
        frames=st.lists(G.frame(), min_size=2, max_size=5),
        far=st.one_of(st.just([0.0, 0.0, 0.0]), G.vec3(100.0), G.vec3(2e4)),
        small=st.one_of(st.just([None]*5),
                        st.lists(small, min_size=5, max_size=5)),
        rays=G.rayspec(8))).map(near)


def _far(case):
    """Size of the coordinates, for the rounding of differences."""
    return max(np.max(np.abs(f["o"]))
               for f in case["frames"]+[case["rays"]["cs"]])


@sub("C02", "arrays", _tf_case, 4000,
     rule="at least one frame is rotated and there are points")
def arrays(case, ctx):
    fr = [O.Frame.spec(d) for d in case["frames"]]
    cs = [G.coordsys(d) for d in case["frames"]]
    n = case["rays"]["n"]
    T = 1e-11+4e-15*_far(case)
    rng = np.random.default_rng(case["rays"]["seed"])
    p = rng.uniform(-10, 10, (n, 3))
    keep = [(c.origin.copy(), c.rot.copy()) for c in cs]
    # direct
    ct = batoid.CoordTransform(cs[0], cs[-1])
    x, y, z = p.T.copy()
    x0 = x.copy()
    out = ct.applyForwardArray(x, y, z)
    want = fr[-1].to_local(fr[0].to_global(p))
    close(np.array(out).reshape(3, n).T, want, T, "applyForwardArray")
    same(x, x0, "applyForwardArray modified its argument")
    back = ct.applyReverseArray(*out)
    close(np.array(back).reshape(3, n).T, p, T, "reverse after forward")
    close(np.array(ct.applyReverseArray(x, y, z)).reshape(3, n).T,
          fr[0].to_local(fr[-1].to_global(p)), T, "applyReverseArray")
    # through the chain
    q = (x, y, z)
    for a, b in zip(cs, cs[1:]):
        q = batoid.CoordTransform(a, b).applyForwardArray(*q)
    close(np.array(q).reshape(3, n).T, want, 10*T, "chain of transforms")
    # single points
    if n:
        one = ct.applyForwardArray(*p[0])
        close(np.ravel(one), want[0], T, "applyForwardArray of one point")
    # inverse transform object
    inv = batoid.CoordTransform(cs[-1], cs[0])
    close(np.array(inv.applyForwardArray(x, y, z)),
          np.array(ct.applyReverseArray(x, y, z)), T,
          "forward of the inverse transform")
    # lists and integers
    if n:
        ints = np.round(p).astype(int)
        close(np.array(ct.applyForwardArray(*[list(map(int, i))
                                              for i in ints.T])),
              np.array(ct.applyForwardArray(*ints.T.astype(float))), 0,
              "integer arguments")
    # the low level in-place versions
    xx, yy, zz = (np.ascontiguousarray(i) for i in p.T)
    from batoid.trace import (applyForwardTransformArrays,
                              applyReverseTransformArrays)
    applyForwardTransformArrays(ct, xx, yy, zz)
    close(np.stack([xx, yy, zz], axis=-1), want, T,
          "applyForwardTransformArrays")
    applyReverseTransformArrays(ct, xx, yy, zz)
    close(np.stack([xx, yy, zz], axis=-1), p, T,
          "applyReverseTransformArrays")
    for c, (o, r) in zip(cs, keep):
        same(c.origin, o, "a coordinate system was modified")
        same(c.rot, r, "a coordinate system was modified")
    ctx.nt(n > 0 and any(d["rot"] for d in case["frames"]))


def _untouched(rv, m, msg):
    same(rv.t, m.t, msg+": time changed")
    same(rv.wavelength, m.w, msg+": wavelength changed")
    same(rv.flux, m.f, msg+": flux changed")
    same(rv.vignetted, m.vig, msg+": vignetted changed")
    same(rv.failed, m.fail, msg+": failed changed")


@sub("C02", "rays", _tf_case, 4000,
     rule="at least one frame is rotated and at least one ray has not failed")
def rays(case, ctx):
    rv = G.build_rays(case["rays"])
    m = O.Rays.of(rv)
    f0 = O.Frame.spec(case["rays"]["cs"])
    ok = ~m.fail
    T = 1e-10+8e-15*_far(case)
    gpos, gdir = f0.to_global(m.r), f0.vec_to_global(m.v)
    cur = rv
    for i, d in enumerate(case["frames"]):
        f, cs = O.Frame.spec(d), G.coordsys(d)
        o, r = cs.origin.copy(), cs.rot.copy()
        how = i % 3
        msg = f"step {i}"
        if how == 0:
            out = cur.toCoordSys(cs)
            msg += " toCoordSys"
        elif how == 1:
            out = batoid.CoordTransform(cur.coordSys, cs).applyForward(cur)
            msg += " applyForward"
        else:
            out = batoid.CoordTransform(cs, cur.coordSys).applyReverse(cur)
            msg += " applyReverse"
        require(out is cur, msg+": did not return the same rays")
        same(cs.origin, o, msg+": coordinate system modified")
        same(cs.rot, r, msg+": coordinate system modified")
        require(cur.coordSys == cs, msg+": rays carry another coordSys")
        close(np.array(cur.r)[ok], f.to_local(gpos[ok]), T,
              msg+": position")
        close(np.array(cur.v)[ok], f.vec_to_local(gdir[ok]), 1e-12,
              msg+": velocity")
        _untouched(cur, m, msg)
    # back home, and agreement with the array version
    ct = batoid.CoordTransform(G.coordsys(case["rays"]["cs"]), cur.coordSys)
    arr = np.array(ct.applyForwardArray(*m.r.T)).reshape(3, len(m)).T
    close(np.array(cur.r)[ok], arr[ok], T, "ray and array versions differ")
    ct.applyReverse(cur)
    close(np.array(cur.r)[ok], m.r[ok], T, "forward then reverse: position")
    close(np.array(cur.v)[ok], m.v[ok], 1e-12, "forward then reverse: velocity")
    require(cur.coordSys == G.coordsys(case["rays"]["cs"]),
            "coordSys after reverse")
    _untouched(cur, m, "forward then reverse")
    ctx.nt(ok.any() and any(d["rot"] for d in case["frames"]))


# ------------------------------------------------------------------------ C03

def _same_rays(a, b, msg, tol=1e-9, ok=None):
    """Two ray vectors agree locally."""
    fa, fb = np.array(a.failed), np.array(b.failed)
    require(len(a) == len(b), msg+": number of rays")
    if ok is None:
        ok = np.ones(len(a), bool)
    same(fa[ok], fb[ok], msg+": failed")
    same(np.array(a.vignetted)[ok], np.array(b.vignetted)[ok],
         msg+": vignetted")
    close(np.array(a.flux)[ok], np.array(b.flux)[ok], 1e-12, msg+": flux")
    live = ok & ~fa
    close(np.array(a.r)[live], np.array(b.r)[live], tol, msg+": position")
    close(np.array(a.v)[live], np.array(b.v)[live], tol, msg+": velocity")
    close(np.array(a.t)[live], np.array(b.t)[live], tol, msg+": time")


def _surf_case():
    return st.fixed_dictionaries(dict(
        surf=G.surface(), seed=G.seeds, n=st.integers(1, 8), cs=G.frame(),
        motion=G.frame(), other=G.frame(),
        op=st.sampled_from(["intersect", "reflect", "refract", "rSplit",
                            "screen"]),
        n2=G.const_medium()))


@sub("C03", "surface", _surf_case, 4000,
     rule="the motion rotates and at least one ray reaches the surface")
def surface(case, ctx):
    """One surface operation in a given coordSys: local results do not depend
    on the global frame, nor on the frame the rays come in."""
    s = G.build_surface(case["surf"])
    a = G.aimed(case["surf"], case["seed"], case["n"], maxang=0.6,
                speeds=(1.0,), smax=3.0, frac=0.7)
    F0 = O.Frame.spec(case["cs"])
    mo, mR = np.array(case["motion"]["o"]), O.rot_list(case["motion"]["rot"])
    F1 = O.Frame(mR@F0.o+mo, mR@F0.rot)
    G2 = O.Frame.spec(case["other"])
    m1 = batoid.ConstMedium(1.0)
    m2 = G.build_medium(case["n2"])
    coat = batoid.SimpleCoating(0.25, 0.5)
    scr = batoid.Paraboloid(80.0)

    def run(local, surfsys, rayframe):
        """local rays -> expressed in rayframe -> operated on."""
        m = O.Rays(a["r"], a["v"], a["t"], a["w"], a["f"],
                   np.zeros(len(a["t"]), bool), np.zeros(len(a["t"]), bool),
                   surfsys)
        m = m.to(rayframe)
        rv = G.rayvec(m.r, m.v, m.t, m.w, m.f, None, None, S.make_cs(rayframe))
        cs = S.make_cs(surfsys)
        if case["op"] == "intersect":
            return [s.intersect(rv, coordSys=cs, coating=coat)]
        if case["op"] == "reflect":
            return [s.reflect(rv, coordSys=cs, coating=coat)]
        if case["op"] == "refract":
            return [s.refract(rv, m1, m2, coordSys=cs, coating=coat)]
        if case["op"] == "screen":
            return [s.refractScreen(rv, scr, coordSys=cs)]
        return list(s.rSplit(rv, m1, m2, coat, coordSys=cs))

    base = run(None, O.Frame(), O.Frame())
    # rays whose intersection is ill-conditioned (grazing, or at the limit of
    # convergence) may come out differently after rounding
    gx, gy = O.grad(case["surf"], a["p"][:, 0], a["p"][:, 1])
    nn = np.stack([-gx, -gy, np.ones_like(gx)], axis=-1)
    nn /= np.sqrt((nn**2).sum(axis=-1))[:, None]
    with np.errstate(all='ignore'):
        ok = np.abs((nn*a["v"]).sum(axis=-1)) > 0.2
        ok &= np.abs(a["dt"]) > 1e-3
        # critical angle
        n2 = float(O.index(case["n2"], 500e-9))
        sin2 = (1-((nn*a["v"]).sum(axis=-1))**2)/n2**2
        ok &= np.abs(1-sin2) > 1e-3
    if S.is_newton(case["surf"]) or case["surf"]["t"] == "sum":
        # only rays that the base computation brings to the target
        good = ~np.array(base[0].failed)
        good &= np.all(np.abs(np.nan_to_num(np.array(base[0].r))-a["p"])
                       < 1e-9, axis=-1)
        ok &= good
    ok &= _margin_ok(case["surf"], a["p"])
    for label, fs, fr in [("rays given in another frame", O.Frame(), G2),
                          ("moved", F0, F0), ("moved again", F1, F1),
                          ("moved, rays in a third frame", F1, G2)]:
        got = run(None, fs, fr)
        for b, g in zip(base, got):
            if S.is_newton(case["surf"]):
                # a converged ray may fail to converge to 1e-12 after rounding
                k = ok & ~np.array(g.failed)
            else:
                k = ok
            _same_rays(b, g, f"{case['op']} {label}", 2e-9, k)
            require(g.coordSys == S.make_cs(fs), label+": coordSys of result")
    ctx.nt(ok.any() and bool(case["motion"]["rot"]))
    ctx.event(case["op"])


def _margin_ok(s, p):
    """Away from the creases of tables."""
    if s["t"] == "sum":
        ok = np.ones(len(p), bool)
        for i in s["items"]:
            ok &= _margin_ok(i, p)
        return ok
    if s["t"] == "bicubic":
        return np.hypot(p[:, 0], p[:, 1]) < G.rmax(s)
    return np.ones(len(p), bool)


def _sys_case():
    return st.fixed_dictionaries(dict(
        sys=S.system(S.element(), 2, 5), motion=G.frame(), other=G.frame(),
        full=st.booleans()))


@sub("C03", "system", _sys_case, 2500,
     rule="the motion rotates, the system has two or more elements and at "
          "least one ray arrives well-conditioned")
def system(case, ctx):
    root = S.expand(case["sys"])
    if not S.flatten(root):
        return       # everything is skipped: the rays stay in their own frame
    rays0 = S.make_rays(case["sys"])
    mo, mR = np.array(case["motion"]["o"]), O.rot_list(case["motion"]["rot"])

    def mv(f):
        return O.Frame(mR@f.o+mo, mR@f.rot)

    opt0 = S.build(root)
    opt1 = S.build(root, mv)
    # reference only to learn which rays are well-conditioned
    stt, _ = S.trace(S.flatten(root), S.State(rays0))
    ok = ~stt.bad
    a = opt0.trace(S.to_rv(rays0))
    b = opt1.trace(S.to_rv(rays0, mv))
    _same_rays(a, b, "moved system", 1e-8, ok)
    # moved by the optic's own methods
    pose = S.make_cs(mv(O.Frame()))
    opt2 = opt0.withGlobalRotation(mR).withGlobalShift(mo)
    b2 = opt2.trace(S.to_rv(rays0, mv))
    _same_rays(a, b2, "system moved by withGlobalRotation, withGlobalShift",
               1e-8, ok)
    close(b2.coordSys.origin, b.coordSys.origin, 1e-9, "moved by methods")
    close(b2.coordSys.rot, b.coordSys.rot, 1e-9, "moved by methods")
    # input rays in another frame
    g = O.Frame.spec(case["other"])
    c = opt0.trace(S.to_rv(rays0.to(g)))
    _same_rays(a, c, "rays given in another frame", 1e-8, ok)
    if case["full"]:
        fa = opt0.traceFull(S.to_rv(rays0))
        fb = opt1.traceFull(S.to_rv(rays0, mv))
        require(list(fa) == list(fb), "traceFull: different surfaces")
        for k in fa:
            _same_rays(fa[k]["out"], fb[k]["out"], f"traceFull at {k}", 1e-8,
                       ok)
    ctx.nt(len(S.flatten(root)) > 1 and bool(case["motion"]["rot"])
           and bool((ok & ~stt.rays.fail).any()))
    ctx.event(f"elements={len(S.flatten(root))}")
