"""C12 ray bundles as value arrays, C13 phases and amplitudes, C14 factories."""
import copy
import math
import pickle

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub

# ------------------------------------------------------------------------ C12


class Model:
    """Rays plus masks of what is not specified: positions and velocities of
    failed rays after a change of coordinates."""
    def __init__(self, rays, undef=None):
        self.rays = rays
        self.undef = np.zeros(len(rays), bool) if undef is None else undef

    def take(self, idx):
        return Model(self.rays.take(idx).copy(), self.undef[idx].copy())

    def copy(self):
        return Model(self.rays.copy(), self.undef.copy())

    def to(self, frame):
        return Model(self.rays.to(frame), self.undef | self.rays.fail)


def _check(rv, m, msg):
    R = m.rays
    require(len(rv) == len(R), f"{msg}: length {len(rv)} instead of {len(R)}")
    ok = ~m.undef
    r, v = np.array(rv.r), np.array(rv.v)
    require(r.shape == (len(R), 3) and v.shape == (len(R), 3),
            f"{msg}: shape of r or v")
    close(r[ok], R.r[ok], 1e-9, msg+": r", rtol=1e-11)
    close(v[ok], R.v[ok], 1e-12, msg+": v")
    for i, c in enumerate("xyz"):
        same(getattr(rv, c), r[:, i], f"{msg}: {c} is not a column of r")
        same(getattr(rv, "v"+c), v[:, i], f"{msg}: v{c} is not a column of v")
    same(rv.t, R.t, msg+": t")
    same(rv.wavelength, R.w, msg+": wavelength")
    same(rv.flux, R.f, msg+": flux")
    same(rv.vignetted, R.vig, msg+": vignetted")
    same(rv.failed, R.fail, msg+": failed")
    close(rv.coordSys.origin, R.frame.o, 1e-9, msg+": coordSys origin")
    close(rv.coordSys.rot, R.frame.rot, 1e-9, msg+": coordSys axes")


def _op():
    i = st.integers(0, 11)
    j = st.integers(-14, 14)
    idx = st.one_of(st.none(), j)
    sl = st.tuples(st.just("slice"), i, idx, idx,
                   st.sampled_from([None, 1, 2, 3, -1, -2]))
    return st.one_of(
        st.tuples(st.sampled_from(["copy", "deepcopy", "pickle", "rebuild"]),
                  i),
        st.tuples(st.just("index"), i, j, st.booleans()),
        sl, sl,
        st.tuples(st.just("mask"), i, G.seeds),
        st.tuples(st.just("fancy"), i, G.seeds),
        st.tuples(st.just("propagate"), i, G.num(-9, 9)),
        st.tuples(st.just("transform"), i, G.frame(5.0, 2)),
        st.tuples(st.just("derive"), i, st.booleans(), st.sampled_from(
            ["shiftGlobal", "shiftLocal", "rotateGlobal", "rotateLocal",
             "adopt"]), i, G.vec3(2.0), G.rots(1)),
        st.tuples(st.just("concat"), st.lists(i, min_size=1, max_size=4)),
        st.tuples(st.just("obscure"), i, G.obsc(4.0, 1), st.integers(0, 2)),
        st.tuples(st.just("clobber"), i, st.integers(0, 10),
                  st.sampled_from(["copy", "slice", "fancy", "concat",
                                   "pickle", "index"])),
        st.tuples(st.just("at"), i, G.num(-9, 9)),
        st.tuples(st.just("new"), G.rayspec(6), st.integers(0, 3)),
    ).map(list)


FIELDS = ["_x", "_y", "_z", "_vx", "_vy", "_vz", "_t", "_wavelength", "_flux",
          "_vignetted", "_failed"]
PUBLIC = ["x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux",
          "vignetted", "failed"]


def _new(spec, how):
    """A bundle made in one of several ways, with its model; the arrays handed
    in are changed afterwards and must not be changed by the construction."""
    rv = G.build_rays(spec)
    if how == 0 or len(rv) == 0:
        return rv, Model(O.Rays.of(rv))
    arrs = [np.array(getattr(rv, p)) for p in PUBLIC]
    if how == 1:
        big = np.zeros((len(rv), 11))
        for k, a in enumerate(arrs):
            big[:, k] = a
        ins = [big[:, k] for k in range(9)]
        ins += [arrs[9], arrs[10]]
    elif how == 2:
        ins = [a[::-1].copy()[::-1] for a in arrs]
    else:
        # some scalars
        arrs[8][:] = arrs[8][0]
        arrs[7][:] = arrs[7][0]
        ins = list(arrs)
        ins[8] = float(arrs[8][0])
        ins[7] = float(arrs[7][0])
    before = [np.array(a) for a in ins]
    out = batoid.RayVector(*ins, coordSys=rv.coordSys)
    m = O.Rays(np.stack(arrs[:3], -1), np.stack(arrs[3:6], -1), *[
        np.array(a) for a in arrs[6:]],
        O.Frame(rv.coordSys.origin, rv.coordSys.rot))
    for a, b in zip(ins, before):
        same(a, b, "the constructor changed its arguments")
    for a in ins:
        if isinstance(a, np.ndarray):
            a[:] = True if a.dtype == bool else 7.5
    return out, Model(m)


@sub("C12", "history", lambda: st.fixed_dictionaries(dict(
        first=G.rayspec(10), how=st.integers(0, 3),
        ops=st.lists(_op(), min_size=1, max_size=14))), 6000,
     rule="at least two operations act on a bundle with rays")
def history(case, ctx):
    store = [_new(case["first"], case["how"])]
    acted = 0
    for op in case["ops"]:
        name = op[0]
        ctx.event(name)

        def pick(k):
            return k % len(store)
        if name == "new":
            store.append(_new(op[1], op[2]))
            ctx.event("n=%d" % min(len(store[-1][0]), 1))
            continue
        k = pick(op[1][0] if name == "concat" else op[1])
        rv, m = store[k]
        n = len(rv)
        acted += n > 0
        res = None
        if name == "copy":
            res = rv.copy(), m.copy()
            require(res[0] == rv, "copy is not equal") if not \
                _has_nan(rv) else None
        elif name == "deepcopy":
            res = copy.deepcopy(rv), m.copy()
        elif name == "pickle":
            res = pickle.loads(pickle.dumps(rv)), m.copy()
        elif name == "rebuild":
            res = batoid.RayVector(
                rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength,
                rv.flux, rv.vignetted, rv.failed, rv.coordSys), m.copy()
        elif name == "index":
            j = op[2]
            jj = np.int64(j) if op[3] else j
            if -n <= j < n:
                res = rv[jj], m.take([j])
            else:
                try:
                    rv[jj]
                except IndexError:
                    pass
                else:
                    fail(f"index {j} of {n} rays does not raise IndexError")
        elif name == "slice":
            s = slice(op[2], op[3], op[4])
            res = rv[s], m.take(np.arange(n)[s])
        elif name == "mask":
            mask = np.random.default_rng(op[2]).random(n) < 0.5
            if op[2] % 3 == 0:
                mask = ~np.array(rv.vignetted)
                res = rv[~rv.vignetted], m.take(mask)
            else:
                res = rv[mask], m.take(mask)
        elif name == "fancy":
            if n:
                ix = np.random.default_rng(op[2]).integers(-n, n, op[2] % 9)
                res = rv[ix], m.take(ix)
        elif name == "propagate":
            out = rv.propagate(op[2])
            require(out is rv, "propagate does not return the bundle")
            R = m.rays
            R.r = R.r+R.v*(op[2]-R.t)[:, None]
            R.t = np.full(n, float(op[2]))
        elif name == "transform":
            F = O.Frame.spec(op[2])
            out = rv.toCoordSys(S.make_cs(F))
            require(out is rv, "toCoordSys does not return the bundle")
            store[k] = rv, m.to(F)
        elif name == "derive":
            # a system made from that of the bundle, or that of another one
            F, cs, how = m.rays.frame, rv.coordSys, op[3]
            if how == "adopt":
                cs, F = store[pick(op[4])][0].coordSys, None
            elif how[:5] == "shift":
                cs = getattr(cs, how)(op[5])
                F = (F.shift_global if how == "shiftGlobal"
                     else F.shift_local)(op[5])
            else:
                rot = O.rot_list(op[6])
                cs = getattr(cs, how)(rot)
                F = (F.rotate_global if how == "rotateGlobal"
                     else F.rotate_local)(rot)
            if F is not None:
                close(cs.origin, F.o, 1e-10, "origin of the derived system")
                close(cs.rot, F.rot, 1e-10, "axes of the derived system")
            F = O.Frame(cs.origin, cs.rot)
            if op[2]:
                res = rv.copy().toCoordSys(cs), m.to(F)
            else:
                rv.toCoordSys(cs)
                store[k] = rv, m.to(F)
        elif name == "concat":
            ks = [pick(i) for i in op[1]]
            res = batoid.concatenateRayVectors([store[i][0] for i in ks]), \
                _concat([store[i][1] for i in ks])
        elif name == "obscure":
            R = m.rays
            ins, marg = O.contains(op[2], R.r[:, 0], R.r[:, 1])
            if np.all(marg[~m.undef] > 1e-6):
                ob = G.build_obsc(op[2])
                if op[3] == 0:
                    out = ob.obscure(rv)
                elif op[3] == 1:
                    out = batoid.obscure(ob, rv)
                else:
                    out = ob.obscure(rv=rv)
                require(out is rv, "obscure does not return the bundle")
                vig = np.array(rv.vignetted)
                u = m.undef
                want = R.vig | ins
                same(vig[~u], want[~u], "obscure: vignetted")
                require(bool(np.all(vig[u] >= R.vig[u])), "flag cleared")
                R.vig = vig
        elif name == "clobber":
            if n == 0:
                continue
            how = op[3]
            d = dict(copy=lambda: rv.copy(), slice=lambda: rv[:],
                     fancy=lambda: rv[np.arange(n)], index=lambda: rv[0],
                     concat=lambda: batoid.concatenateRayVectors([rv]),
                     pickle=lambda: pickle.loads(pickle.dumps(rv)))[how]()
            f = PUBLIC[op[2]]
            a = getattr(d, f)
            if a.dtype == bool:
                a[:] = ~a
            else:
                a[:] = 3.25
            d.propagate(1.25)
            d.toCoordSys(batoid.CoordSys((1, 2, 3)))
            batoid.ObscCircle(100.0).obscure(d)
        elif name == "at":
            got = rv.positionAtTime(op[2])
            R = m.rays
            require(got.shape == (n, 3), "shape of positionAtTime")
            ok = ~m.undef
            close(got[ok], (R.r+R.v*(op[2]-R.t)[:, None])[ok], 1e-9,
                  "positionAtTime", rtol=1e-11)
            q = rv.copy().propagate(op[2])
            same(np.array(q.r), got, "positionAtTime is not where propagate "
                 "goes")
        if res is not None:
            store.append(res)
            store = store[-12:]
        for i, (a, b) in enumerate(store):
            _check(a, b, f"after {name} on bundle {k}, bundle {i}")
    ctx.nt(acted >= 2)


def _has_nan(rv):
    return not (np.isfinite(rv.r).all() and np.isfinite(rv.v).all())


def _concat(ms):
    F = ms[0].rays.frame
    parts = []
    for i, m in enumerate(ms):
        f = m.rays.frame
        if np.array_equal(f.o, F.o) and np.array_equal(f.rot, F.rot):
            parts.append(m)
        else:
            parts.append(m.to(F))
    return Model(O.Rays(*[np.concatenate([getattr(p.rays, k) for p in parts])
                          for k in O.Rays.F], F),
                 np.concatenate([p.undef for p in parts]))


# ------------------------------------------------------------------------ C13

def _phase_case():
    return st.fixed_dictionaries(dict(
        seed=G.seeds, n=st.integers(1, 20),
        scale=st.sampled_from([1.0, 1e-2, 1e-6, 1e-6, 1e3, 1e5]),
        fscale=st.sampled_from([1.0, 1.0, 1e-4, 1e-12, 1e-30, 1e12, -1.0]),
        lam=st.sampled_from([5e-7, 1e-6, 1e-2, 1.0]),
        t=G.num(-3, 3), t2=G.num(-3, 3), m=G.const_medium(),
        flags=st.lists(st.sampled_from([0, 0, 1, 2, 3]), max_size=20),
        cs=G.frame(1.0, 2), r=G.vec3(1.0)))


def _phase_rays(case):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    sc = case["scale"]
    r = rng.uniform(-1, 1, (n, 3))*sc
    v = G.cone_dirs(rng, n, 3.14159, 1.0)
    v /= np.where(rng.random(n) < 0.5, case["m"]["n"], 1.0)[:, None]
    t = rng.uniform(-1, 1, n)*sc
    w = case["lam"]*rng.uniform(0.5, 2, n)
    fl = np.zeros(n, int)
    k = min(n, len(case["flags"]))
    fl[:k] = case["flags"][:k]
    return O.Rays(r, v, t, w, rng.uniform(0.1, 3, n)*case["fscale"],
                  (fl & 1).astype(bool),
                  (fl & 2).astype(bool))


@sub("C13", "phase", _phase_case, 5000,
     rule="more than one ray, some of them vignetted or failed")
def phase(case, ctx):
    m = _phase_rays(case)
    rv = S.to_rv(m)
    n2 = np.sum(m.v**2, axis=-1)
    k = 2*np.pi*m.v/m.w[:, None]/n2[:, None]
    om = 2*np.pi/m.w
    kk = np.array(rv.k)
    close(kk, k, 0, "wave vector", rtol=1e-12)
    for i, c in enumerate("xyz"):
        close(np.array(getattr(rv, "k"+c)), kk[:, i], 0, "k"+c)
    close(np.sqrt(np.sum(kk**2, axis=-1)), 2*np.pi/m.w/np.sqrt(n2), 0,
          "magnitude of the wave vector", rtol=1e-12)
    close(np.array(rv.omega), om, 0, "omega", rtol=1e-14)
    p = np.array(case["r"])*case["scale"]
    t = case["t"]*case["scale"]
    arg = case["seed"] % 3
    pin = [p, p.tolist(), tuple(p)][arg]
    want = np.sum(k*(p-m.r), axis=-1)-om*(t-m.t)
    mag = np.sqrt(np.sum(k*k, axis=-1))*(np.abs(p).max()+np.abs(m.r).max())*2 \
        + om*(abs(t)+np.abs(m.t))
    tol = 1e-14*mag+1e-13
    got = np.array(rv.phase(pin, t))
    close(got, want, np.maximum(tol, 1e-13), "phase")
    amp = np.array(rv.amplitude(pin, t))
    close(amp, np.exp(1j*want), tol*3+1e-12, "amplitude")
    same(np.array(rv.phase(p, t)), got, "repeated phase")
    for ig in (True, False, None):
        use = ~m.fail
        if ig is None:
            s = rv.sumAmplitude(pin, t)
            use &= ~m.vig
        else:
            s = rv.sumAmplitude(pin, t, ignoreVignetted=ig)
            if ig:
                use &= ~m.vig
        ref = np.sum((m.f*np.exp(1j*want))[use])
        lim = np.sum((np.abs(m.f)*(tol*3+1e-11))[use])+1e-300
        close(s, ref, lim, f"sumAmplitude(ignoreVignetted={ig})")
    snap = O.Rays.of(rv)
    for f in O.Rays.F:
        same(getattr(snap, f), getattr(m, f), "computing phases changed the "
             "rays: "+f)
    # moving along the ray changes nothing
    t2 = case["t2"]*case["scale"]
    mv = S.to_rv(m).propagate(t2)
    tol2 = tol+1e-14*om*(abs(t2)+np.abs(m.t))*4
    close(np.array(mv.phase(p, t)), want, tol2*3+1e-12,
          "propagating changes the phase")
    close(np.array(mv.amplitude(p, t)), np.exp(1j*want), tol2*4+1e-12,
          "propagating changes the amplitude")
    # on the ray itself the phase is zero
    close(np.array([rv[i].phase(rv[i].positionAtTime(t)[0], t)[0]
                    for i in range(min(3, len(rv)))]), np.zeros(min(3, len(rv))),
          (tol2*3+1e-12)[:3], "phase on the ray is not zero")
    # the same waves in other coordinates
    live = ~m.fail
    F = O.Frame.spec(dict(case["cs"], o=[c*case["scale"]
                                         for c in case["cs"]["o"]]))
    tr = S.to_rv(m).toCoordSys(S.make_cs(F))
    close(np.array(tr.phase(F.to_local(p), t))[live], want[live],
          (tol*20+1e-12)[live], "phase depends on the coordinates")
    ctx.nt(len(rv) > 1 and bool((m.vig | m.fail).any()))
    ctx.event("visible phases" if tol.max() < 1e-6 else "large phases")


# ------------------------------------------------------------------------ C14

def _stop_surf():
    return st.one_of(
        st.just(dict(t="plane")), st.just(dict(t="plane")),
        G.builds(lambda R: dict(t="parab", R=R), G.signed(5, 50)),
        G.builds(lambda R: dict(t="sphere", R=R), G.signed(8, 50)),
        G.builds(lambda R, k: dict(t="quadric", R=R, k=k), G.signed(8, 50),
                 G.conic()))


def _dir():
    return st.one_of(
        G.builds(lambda a, b, c, s: dict(dirCos=[a, b, -c], how=s),
                 G.num(-0.4, 0.4), G.num(-0.4, 0.4), G.signed(0.3, 3),
                 st.integers(0, 2)),
        G.builds(lambda a, b, p: dict(th=[a, b], proj=p), G.num(-0.3, 0.3),
                 G.num(-0.3, 0.3), st.sampled_from([None]+O.PROJECTIONS)),
        st.just(dict(th=[0.0, 0.0], proj=None)),
        st.sampled_from([dict(dirCos=[1.0, 0.0, 0.0], how=0),
                         dict(dirCos=[0.0, 1.0, 0.0], how=0),
                         dict(dirCos=[0.0, 0.0, 1.0], how=1)]))


def _fac_case(extra):
    d = dict(
        optic=st.booleans(), explicit=st.lists(st.booleans(), min_size=6,
                                               max_size=6),
        back=G.num(0, 60), stop=_stop_surf(), stopcs=G.frame(2.0, 2),
        cs=st.one_of(st.none(), G.frame(2.0, 2)), m=G.medium(),
        lam=st.sampled_from(G.WAVES), dir=_dir(), size=G.num(0.2, 5),
        eps=st.one_of(st.none(), st.sampled_from([0.0, 0.3, 0.61])),
        flux=st.sampled_from([1.0, 2.5, 0.0, 3]), defaults=st.integers(0, 9))
    d.update(extra)
    return st.fixed_dictionaries(d)


def _common(case, keys):
    """Keyword arguments for the factory plus the values that must result.
    With an optic, each setting comes from it unless `explicit`."""
    stopcs = O.Frame.spec(case["stopcs"])
    itf = batoid.Interface(G.build_surface(case["stop"]), name="stop",
                           coordSys=S.make_cs(stopcs))
    cs = O.Frame.spec(case["cs"]) if case["cs"] is not None else O.Frame()
    med = G.build_medium(case["m"])
    val = dict(back=case["back"], stop=case["stop"], stopcs=stopcs, cs=cs,
               m=case["m"], size=case["size"], eps=case["eps"] or 0.0)
    given = dict(backDist=case["back"], stopSurface=itf, medium=med,
                 coordSys=S.make_cs(cs))
    kw = {}
    if case["optic"]:
        # the optic holds the wanted values, or others that are overridden
        ex = case["explicit"]
        other = batoid.Interface(batoid.Paraboloid(3.0), name="other",
                                 coordSys=batoid.CoordSys((1, 2, 3)))
        okw = dict(
            backDist=case["back"] if not ex[0] else 17.0,
            stopSurface=itf if not ex[1] else other,
            inMedium=med if not ex[2] else batoid.ConstMedium(1.9),
            coordSys=S.make_cs(cs) if not ex[3] else batoid.CoordSys(
                (5, 5, 5)),
            pupilSize=case["size"] if not ex[4] else 77.0)
        if case["eps"] is not None:
            okw["pupilObscuration"] = case["eps"] if not ex[5] else 0.9
        items = [batoid.Detector(batoid.Plane(), name="d")]
        kw["optic"] = batoid.CompoundOptic(items, name="o", **okw)
        for i, k in enumerate(["backDist", "stopSurface", "medium",
                               "coordSys"]):
            if ex[i]:
                kw[k] = given[k]
        val["size_given"] = ex[4]
        val["eps_given"] = ex[5] or case["eps"] is None
    else:
        kw.update(given)
        d = case["defaults"]
        if d == 1:
            del kw["backDist"]
            val["back"] = 40.0
        elif d == 2:
            del kw["medium"]
            val["m"] = dict(t="const", n=1.0)
        elif d == 3:
            del kw["stopSurface"]
            val["stop"], val["stopcs"] = dict(t="plane"), O.Frame()
        elif d == 4:
            del kw["coordSys"]
            val["cs"] = O.Frame()
        val["size_given"] = val["eps_given"] = True
    kw["wavelength"] = case["lam"]
    if case["flux"] != 1.0 or case["defaults"] > 5:
        kw["flux"] = case["flux"]
    dr = case["dir"]
    if "dirCos" in dr:
        d = np.array(dr["dirCos"])
        kw["dirCos"] = [d, d.tolist(), tuple(d)][dr["how"]]
    else:
        kw["theta_x"], kw["theta_y"] = dr["th"]
        if dr["proj"] is not None:
            kw["projection"] = dr["proj"]
        d = O.dircos(dr["th"][0], dr["th"][1], dr["proj"] or "postel")
    val["d"] = d/np.linalg.norm(d)
    return kw, val


def _verify(rv, xy, val, case, msg, flux=None, tol=1e-9):
    n = len(xy)
    require(len(rv) == n, f"{msg}: {len(rv)} rays instead of {n}")
    idx = float(O.index(val["m"], case["lam"]))
    d = val["d"]
    x, y = xy[:, 0], xy[:, 1]
    P = np.stack([x, y, O.sag(val["stop"], x, y)], -1)
    P = val["cs"].to_local(val["stopcs"].to_global(P))
    want = O.start_points(P, d, val["back"])
    close(np.array(rv.r), want, tol, msg+": starting points")
    close(np.array(rv.v), np.tile(d/idx, (n, 1)), 1e-13, msg+": velocities",
          rtol=1e-11)
    _rest(rv, case, msg, flux)
    close(rv.coordSys.origin, val["cs"].o, 1e-12, msg+": coordSys")
    close(rv.coordSys.rot, val["cs"].rot, 1e-12, msg+": coordSys")


def _rest(rv, case, msg, flux=None):
    n = len(rv)
    same(np.array(rv.t), np.zeros(n), msg+": times")
    same(np.array(rv.wavelength), np.full(n, case["lam"]), msg+": wavelengths")
    close(np.array(rv.flux), np.full(n, float(case["flux"]))
          if flux is None else flux, 1e-15, msg+": fluxes", rtol=1e-12)
    require(not np.array(rv.vignetted).any() and not np.array(rv.failed).any(),
            msg+": flags set")
    # the bundle can be used: half of each flux passes a coating
    cp = rv.copy()
    batoid.intersect(batoid.Plane(), cp, coating=batoid.SimpleCoating(0.25,
                                                                      0.5))
    ok = ~np.array(cp.failed)
    f = np.full(n, float(case["flux"])) if flux is None else np.asarray(flux)
    close(np.array(cp.flux)[ok], 0.5*f[ok], 1e-15, msg+": fluxes behind a "
          "coating", rtol=1e-12)


def _pure(kw, msg):
    """Returns a function that checks that the arguments have not changed."""
    old = {k: (np.array(v, float) if k in ("dirCos", "lx", "ly", "dx", "dy",
                                           "rings", "spokes", "x", "y",
                                           "flux") else copy.deepcopy(v))
           for k, v in kw.items() if k != "rng"}

    def test():
        for k, v in old.items():
            if isinstance(v, np.ndarray):
                same(np.array(kw[k], float), v, f"{msg} changed {k}")
            else:
                require(kw[k] == v, f"{msg} changed {k}")
    return test


def _vecs():
    """Two side vectors that are not parallel, or scalars."""
    return st.one_of(
        G.builds(lambda a, b: [a, b], G.num(0.2, 5), st.one_of(
            st.none(), G.signed(0.2, 5))),
        G.builds(lambda r, s, a, b: [
            [r*math.cos(a), r*math.sin(a)],
            None if b is None else [s*math.cos(a+b), s*math.sin(a+b)]],
            G.num(0.2, 5), G.num(0.2, 5), G.num(-3, 3),
            st.one_of(st.none(), G.signed(0.4, 2.6))))


@sub("C14", "grid", lambda: _fac_case(dict(
        mode=st.sampled_from(["nl", "nd", "ld", "n", "d", "fan"]),
        nx=st.integers(1, 9), ny=st.one_of(st.none(), st.integers(1, 9)),
        l=_vecs(), d=_vecs(), asarr=st.booleans())), 5000,
     rule="there are at least 4 rays")
def grid(case, ctx):
    kw, val = _common(case, None)
    mode = case["mode"]
    nx = case["nx"]
    ny = case["ny"] if case["ny"] is not None else nx

    def put(key, v):
        if v is not None:
            kw[key] = np.array(v) if case["asarr"] and isinstance(v, list) \
                else v

    def vec(v, axis):
        if isinstance(v, list):
            return np.array(v, float)
        return np.array([v, 0.0]) if axis == 0 else np.array([0.0, v])

    def second(a, b):
        """Default of the second side: the first turned by 90 degrees."""
        if b is not None:
            return vec(b, 1)
        if isinstance(a, list):
            return np.array([-a[1], a[0]])
        return vec(a, 1)
    if mode in ("nl", "ld", "fan"):
        l = case["l"]
        if case["optic"] and not val["size_given"] and case["defaults"] < 6:
            # from the optic's pupil size
            l = [val["size"], None]
        else:
            put("lx", l[0])
            put("ly", l[1])
        lx, ly = vec(l[0], 0), second(*l)
    if mode in ("n", "d"):
        # sizes from the optic
        if not case["optic"] or val["size_given"]:
            kw["lx"] = val["size"]
        lx, ly = vec(val["size"], 0), vec(val["size"], 1)
    if mode == "fan":
        fx, fy = case["nx"], case["ny"]
        if fx < 2 and (fy is None or fy < 2):
            fx = 3
        kw["nx"] = fx
        if fy is not None:
            kw["ny"] = fy
        pure = _pure(kw, "asFan")
        rv = batoid.RayVector.asFan(**kw)
        pure()
        pts = []
        if fx is not None and fx > 1:
            pts.append(O.grid_points(fx, 1, lx, ly))
        if fy is not None and fy > 1:
            pts.append(O.grid_points(1, fy, lx, ly))
        xy = np.concatenate(pts)
        _verify(rv, xy, val, case, "asFan")
        ctx.nt(len(xy) > 3)
        ctx.event("fan")
        return
    if mode in ("nl", "nd", "n"):
        if mode == "nd":
            nx, ny = max(nx, 3), max(ny, 3)
        kw["nx"] = nx
        if case["ny"] is not None or (mode == "nd" and ny != nx):
            kw["ny"] = ny
    if mode in ("nd", "ld", "d"):
        if mode == "nd":
            d = case["d"]
            put("dx", d[0])
            put("dy", d[1])
            dx, dy = vec(d[0], 0), second(*d)
            mx = nx-1 if nx % 2 else nx-2
            my = ny-1 if ny % 2 else ny-2
            lx, ly = dx*mx, dy*my
        else:
            L = np.linalg.norm(lx)
            dx = L/max(2, nx)*0.97
            kw["dx"] = float(dx)
            ratio = [np.linalg.norm(v)/dx for v in (lx, ly)]
            frac = [(r+0.1) % 2 for r in ratio]
            if any(f < 1e-6 or f > 2-1e-6 for f in frac) or max(ratio) > 60:
                return
            nx, ny = [2+2*int((r+0.1)//2) for r in ratio]
    pure = _pure(kw, "asGrid")
    rv = batoid.RayVector.asGrid(**kw)
    pure()
    xy = O.grid_points(nx, ny, lx, ly)
    _verify(rv, xy, val, case, "asGrid")
    ctx.nt(len(xy) > 3)
    ctx.event(mode+(" optic" if case["optic"] else ""))


@sub("C14", "polar", lambda: _fac_case(dict(
        nrad=st.integers(1, 7), naz=st.integers(1, 40),
        kfold=st.sampled_from([None, 6, 1, 3, 8]))), 3000,
     rule="there are at least two rings")
def polar(case, ctx):
    kw, val = _common(case, None)
    outer, inner = _radii(case, kw, val)
    kw.update(nrad=case["nrad"], naz=case["naz"])
    kf = 6
    if case["kfold"] is not None:
        kw["kfold"] = kf = case["kfold"]
    # numbers of azimuths must not hinge on rounding
    if _hinges(outer, inner, case["nrad"], case["naz"], kf):
        return
    pure = _pure(kw, "asPolar")
    rv = batoid.RayVector.asPolar(**kw)
    pure()
    xy = O.hexapolar_points(outer, inner, case["nrad"], case["naz"], kf)
    _verify(rv, xy, val, case, "asPolar")
    ctx.nt(case["nrad"] > 1)
    ctx.event(("inner" if inner else "full")+(
        " optic" if case["optic"] else ""))


def _hinges(outer, inner, nrad, naz, kf):
    """Whether a number of azimuths is decided by rounding."""
    rho = np.linspace(outer, inner, nrad)
    if inner == 0:
        rho = rho[:-1]
    q = naz*rho/outer/kf
    tie = np.abs(q-np.round(q)) < 1e-9
    if len(tie):
        tie[0] = tie[0] and naz*outer/outer != naz
    return bool(tie.any())


def _radii(case, kw, val, spokes=False):
    """outer, inner; passed explicitly unless the optic provides them."""
    outer = val["size"]/2
    inner = outer*val["eps"]
    if not case["optic"] or val["size_given"]:
        kw["outer"] = outer
    if spokes:
        if inner or case["defaults"] % 2:
            kw["inner"] = inner
    elif not case["optic"]:
        if case["eps"] is not None:
            kw["inner"] = inner
    elif val["eps_given"]:
        if case["eps"] is not None:
            kw["inner"] = inner
    elif val["size_given"]:
        # inner radius is a fraction of the optic's own pupil
        inner = 77.0*val["eps"]/2
        if inner >= outer:
            inner = 0.5*outer
            kw["inner"] = inner
    return outer, inner


@sub("C14", "spokes", lambda: _fac_case(dict(
        rings=st.integers(1, 7), spokes=st.one_of(st.none(),
                                                  st.integers(1, 12)),
        spacing=st.sampled_from(["uniform", "GQ", "arrays", "rings",
                                 "spokes"]),
        npint=st.booleans())), 3000, rule="more than one ray")
def spokes(case, ctx):
    kw, val = _common(case, None)
    outer, inner = _radii(case, kw, val, spokes=True)
    nr, ns = case["rings"], case["spokes"]
    sp = case["spacing"]
    flux = None
    if sp == "GQ":
        kw["spacing"] = "GQ"
        if ns is None:
            ns = 2*nr+1
        else:
            kw["spokes"] = ns
        kw["rings"] = np.int64(nr) if case["npint"] else nr
        rr, w = O.gq_rings(outer, inner, nr)
        th = 2*np.pi*np.arange(ns)/ns
        flux = np.tile(w/ns, ns)
    else:
        ns = ns or 5
        th = 2*np.pi*np.arange(ns)/ns
        if sp == "arrays":
            rng = np.random.default_rng(nr*13+ns)
            rr = rng.uniform(0, outer, nr)
            th = rng.uniform(-4, 4, ns)
            kw["rings"], kw["spokes"] = rr, th
        elif sp == "rings":
            # given radii, number of spokes
            rr = np.random.default_rng(nr*13+ns).uniform(0, outer, nr)
            kw["rings"], kw["spokes"] = rr, ns
        elif sp == "spokes":
            th = np.random.default_rng(nr*13+ns).uniform(-4, 4, ns)
            kw["rings"], kw["spokes"] = nr, th
            rr = np.linspace(inner, outer, nr)
        else:
            if case["npint"]:
                kw["rings"], kw["spokes"] = np.int64(nr), np.int32(ns)
            else:
                kw["rings"], kw["spokes"] = nr, ns
            if case["defaults"] % 3:
                kw["spacing"] = "uniform"
            rr = np.linspace(inner, outer, nr)
    pure = _pure(kw, "asSpokes")
    rv = batoid.RayVector.asSpokes(**kw)
    pure()
    xy = np.array([[r*math.cos(a), r*math.sin(a)] for a in th for r in rr])
    _verify(rv, xy, val, case, "asSpokes", flux)
    if sp == "GQ":
        # the weights integrate polynomials over the annulus: area and r^2
        eps = inner/outer
        f = np.array(rv.flux)
        close(f.sum(), math.pi*(1-eps**2), 1e-11, "sum of the weights")
        if nr > 1:
            r2 = np.sum(xy**2, axis=1)/outer**2
            close(np.sum(f*r2), math.pi/2*(1-eps**4), 1e-11,
                  "integral of r^2 with the weights")
    ctx.nt(len(xy) > 1)
    ctx.event(sp+(" optic" if case["optic"] else ""))


@sub("C14", "fromStop", lambda: _fac_case(dict(
        pts=st.lists(st.tuples(G.num(-2, 2), G.num(-2, 2)).map(list),
                     min_size=1, max_size=8),
        form=st.sampled_from(["scalar", "array", "list", "xscalar", "int",
                              "strided"]))), 3000,
     rule="the point is not the vertex")
def from_stop(case, ctx):
    kw, val = _common(case, None)
    p = np.array(case["pts"], float)
    form = case["form"]
    if form == "scalar":
        p = p[:1]
        x, y = float(p[0, 0]), float(p[0, 1])
    elif form == "int":
        p = np.round(p)
        x, y = p[:, 0].astype(int), p[:, 1].astype(int)
    elif form == "list":
        x, y = p[:, 0].tolist(), p[:, 1].tolist()
    elif form == "xscalar":
        p[:, 0] = p[0, 0]
        x, y = float(p[0, 0]), p[:, 1].copy()
    elif form == "strided":
        x, y = p[:, 0], p[:, 1]
    else:
        x, y = p[:, 0].copy(), p[:, 1].copy()
    x0, y0 = np.array(x, float), np.array(y, float)
    pure = _pure(kw, "fromStop")
    rv = batoid.RayVector.fromStop(x, y, **kw)
    pure()
    same(np.array(x, float), x0, "fromStop changed x")
    same(np.array(y, float), y0, "fromStop changed y")
    _verify(rv, p, val, case, "fromStop")
    # the rays meet the stop where asked, tracing them there
    if val["stop"]["t"] == "plane" and abs(
            val["cs"].vec_to_global(val["d"])@val["stopcs"].rot[:, 2]) > 0.1:
        itf = batoid.Baffle(batoid.Plane(), name="b",
                            coordSys=S.make_cs(val["stopcs"]))
        hit = itf.trace(rv)
        close(np.stack([hit.x, hit.y], -1), p, 1e-8,
              "rays do not cross the stop at the points asked for")
    ctx.nt(bool(np.any(p)))
    ctx.event(form)


@sub("C14", "fieldAngles", lambda: _fac_case(dict(
        ths=st.lists(st.tuples(G.num(-0.5, 0.5), G.num(-0.5, 0.5)).map(list),
                     min_size=1, max_size=8),
        p=st.tuples(G.num(-2, 2), G.num(-2, 2)).map(list),
        proj=st.sampled_from([None]+O.PROJECTIONS))), 2500,
     rule="more than one field angle")
def field_angles(case, ctx):
    kw, val = _common(case, None)
    for k in ("dirCos", "theta_x", "theta_y", "projection", "coordSys"):
        kw.pop(k, None)
    th = np.array(case["ths"])
    # 1-element arrays at the centre are the projections' own business
    if len(th) == 1 and not th.any():
        return
    if case["proj"] is not None:
        kw["projection"] = case["proj"]
    if any(case["p"]) or case["defaults"] > 4:
        kw["x"], kw["y"] = case["p"]
    else:
        case["p"] = [0.0, 0.0]
    tx, ty = th[:, 0].copy(), th[:, 1].copy()
    pure = _pure(kw, "fromFieldAngles")
    rv = batoid.RayVector.fromFieldAngles(tx, ty, **kw)
    pure()
    same(tx, th[:, 0], "fromFieldAngles changed theta_x")
    same(ty, th[:, 1], "fromFieldAngles changed theta_y")
    n = len(th)
    require(len(rv) == n, "number of rays")
    d = O.dircos(th[:, 0], th[:, 1], case["proj"] or "postel").T
    idx = float(O.index(val["m"], case["lam"]))
    close(np.array(rv.v), d/idx, 2e-8 if case["proj"] == "lambert" else 1e-12,
          "fromFieldAngles: velocities")
    P = np.array([*case["p"], float(O.sag(val["stop"], *case["p"]))])
    # every ray goes through the point of the stop, backDist away along it
    close(np.array(rv.r)+np.array(rv.v)*idx*val["back"], np.tile(P, (n, 1)),
          1e-9, "fromFieldAngles: rays do not go through the stop point")
    dist = np.sqrt(np.sum((np.array(rv.r)-P)**2, axis=-1))
    close(dist, np.full(n, val["back"]), 1e-8, "fromFieldAngles: distance")
    # optical path: zero at the stop point
    close(np.array(rv.t), np.full(n, -val["back"]*idx), 1e-9,
          "fromFieldAngles: times")
    same(np.array(rv.wavelength), np.full(n, case["lam"]), "wavelength")
    close(np.array(rv.flux), np.full(n, float(case["flux"])), 1e-15, "flux")
    close(rv.coordSys.origin, val["stopcs"].o, 1e-12, "coordSys")
    close(rv.coordSys.rot, val["stopcs"].rot, 1e-12, "coordSys")
    ctx.nt(n > 1)


@sub("C14", "random", lambda: _fac_case(dict(
        kind=st.sampled_from(["grid", "polar"]), n=st.sampled_from([400, 5, 400, 1]),
        seed=G.seeds, rng=st.booleans(), l=_vecs())), 1200,
     rule="400 rays are drawn")
def random_rays(case, ctx):
    kw, val = _common(case, None)
    n = case["n"]
    if case["kind"] == "polar":
        outer, inner = _radii(case, kw, val)
        f = batoid.RayVector.asPolar
    else:
        kw["nx"] = 5
        l = case["l"]
        kw["lx"] = l[0]
        if l[1] is not None:
            kw["ly"] = l[1]
        f = batoid.RayVector.asGrid
    kw["nrandom"] = n

    def run(seed):
        kw["rng"] = np.random.default_rng(seed) if case["rng"] else seed
        return f(**kw)
    rv = run(case["seed"])
    require(len(rv) == n, f"{len(rv)} random rays instead of {n}")
    again = run(case["seed"])
    same(np.array(again.r), np.array(rv.r), "the same seed gives other rays")
    if n > 1:
        require(not np.array_equal(np.array(run(case["seed"]+1).r),
                                   np.array(rv.r)),
                "another seed gives the same rays")
    # where the lines cross the stop: solve along the ray
    cs, sc = val["cs"], val["stopcs"]
    r = sc.to_local(cs.to_global(np.array(rv.r)))
    d = sc.vec_to_local(cs.vec_to_global(val["d"]))
    idx = float(O.index(val["m"], case["lam"]))
    close(np.array(rv.v), np.tile(val["d"]/idx, (n, 1)), 1e-12, "velocities")
    _rest(rv, case, case["kind"])
    close(np.array(rv.r)@val["d"], np.full(n, -val["back"]), 1e-9,
          "random rays do not start on a plane backDist before the origin")
    if val["stop"]["t"] != "plane" or abs(d[2]) < 0.1:
        return
    p = r-d*(r[:, 2]/d[2])[:, None]
    if case["kind"] == "polar":
        rho = np.hypot(p[:, 0], p[:, 1])
        require(bool(np.all((rho <= outer+1e-8) & (rho >= inner-1e-8))),
                "random rays outside the annulus")
        u = (rho**2-inner**2)/(outer**2-inner**2)
        v = (np.arctan2(p[:, 1], p[:, 0])/(2*np.pi)) % 1
    else:
        a = np.array(l[0], float) if isinstance(l[0], list) else np.array(
            [l[0], 0.])
        if l[1] is None:
            b = np.array([-a[1], a[0]])
        else:
            b = np.array(l[1], float) if isinstance(l[1], list) else np.array(
                [0., l[1]])
        u, v = np.linalg.solve(np.stack([a, b], -1), p[:, :2].T)+0.5
        require(bool(np.all((u > -1e-8) & (u < 1+1e-8) & (v > -1e-8)
                            & (v < 1+1e-8))),
                "random rays outside the parallelogram")
    if n >= 400:
        for x in (u, v):
            lim = 6.5/math.sqrt(n)
            require(abs(x.mean()-0.5) < lim*0.2887,
                    f"random rays are not uniform (mean {x.mean()})")
            require(abs((x**2).mean()-1/3) < lim*0.2981,
                    "random rays are not uniform (mean square)")
            require(abs(np.mean(np.sort(x)-(np.arange(n)+.5)/n)) < lim,
                    "random rays are not uniform")
        c = np.mean((u-.5)*(v-.5))
        require(abs(c) < 6.5/math.sqrt(n)/12, "random rays are correlated")
        ctx.nt()
    ctx.event(case["kind"])


@sub("C14", "hexapolar", lambda: st.fixed_dictionaries(dict(
        outer=G.num(0.1, 9), eps=st.sampled_from([0.0, 0.2, 0.61]),
        nrad=st.integers(2, 8), naz=st.integers(1, 60),
        kfold=st.sampled_from([None, 6, 1, 3, 8]), rth=st.booleans())), 1500,
     rule="always")
def hexa(case, ctx):
    outer = case["outer"]
    inner = outer*case["eps"]
    kw = dict(outer=outer, inner=inner, nrad=case["nrad"], naz=case["naz"])
    kf = 6
    if case["kfold"] is not None:
        kw["kfold"] = kf = case["kfold"]
    a, b = batoid.utils.hexapolar(rth=case["rth"], **kw)
    if _hinges(outer, inner, case["nrad"], case["naz"], kf):
        return
    if case["rth"]:
        a, b = a*np.cos(b), a*np.sin(b)
    want = O.hexapolar_points(outer, inner, case["nrad"], case["naz"], kf)
    require(len(a) == len(want), f"{len(a)} points instead of {len(want)}")
    close(np.stack([a, b], -1), want, 1e-11, "hexapolar points")
    ctx.nt()


@sub("C14", "errors", lambda: st.fixed_dictionaries(dict(
        which=st.sampled_from(["three", "one", "wavelength"]),
        nx=st.integers(2, 9), lx=G.num(0.1, 4))), 60, rule="always")
def errors(case, ctx):
    kw = dict(wavelength=5e-7, theta_x=0.0, theta_y=0.0)
    if case["which"] == "three":
        kw.update(nx=case["nx"], lx=case["lx"], dx=case["lx"]/3)
    elif case["which"] == "one":
        kw.update(nx=case["nx"])
    else:
        kw.update(nx=case["nx"], lx=case["lx"])
        del kw["wavelength"]
    try:
        batoid.RayVector.asGrid(**kw)
    except ValueError:
        ctx.nt()
        return
    fail(f"asGrid accepts contradictory or missing arguments ({case['which']})")
