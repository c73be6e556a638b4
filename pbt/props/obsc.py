"""C18 obscurations."""
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub


def _edge_points(o, rng, n):
    """Points close to the characteristic lines of o."""
    t = o["t"]
    if t == "not":
        return _edge_points(o["item"], rng, n)
    if t in ("or", "and"):
        return np.concatenate([_edge_points(i, rng, n) for i in o["items"]])
    eps = rng.choice([1e-8, 1e-6, 1e-3, 0.05], n)*rng.choice([-1, 1], n)
    x0, y0 = o.get("x", 0.0), o.get("y", 0.0)
    ph = rng.uniform(0, 2*np.pi, n)
    if t in ("circle", "annulus"):
        r = rng.choice([o["r"]] if t == "circle" else [o["ri"], o["ro"]], n)
        r = np.abs(r+eps)
        return np.stack([x0+r*np.cos(ph), y0+r*np.sin(ph)], -1)
    if t in ("rect", "ray"):
        c, s = math.cos(o.get("th", 0.0)), math.sin(o.get("th", 0.0))
        if t == "rect":
            hw, hh = o["w"]/2, o["h"]/2
            side = rng.random(n) < 0.5
            u = np.where(side, rng.choice([-1, 1], n)*hw+eps,
                         rng.uniform(-1.3*hw, 1.3*hw, n))
            v = np.where(side, rng.uniform(-1.3*hh, 1.3*hh, n),
                         rng.choice([-1, 1], n)*hh+eps)
        else:
            hw = o["w"]/2
            side = rng.random(n) < 0.3
            u = np.where(side, eps, rng.uniform(-1, 3, n))
            v = np.where(side, rng.uniform(-1.2*hw, 1.2*hw, n),
                         rng.choice([-1, 1], n)*hw+eps)
        return np.stack([x0+c*u-s*v, y0+s*u+c*v], -1)
    # polygon: close to edges and to vertices
    px, py = np.array(o["xs"]), np.array(o["ys"])
    i = rng.integers(0, len(px), n)
    j = (i+1) % len(px)
    f = np.where(rng.random(n) < 0.3, 0.0, rng.uniform(0, 1, n))
    x = px[i]*(1-f)+px[j]*f
    y = py[i]*(1-f)+py[j]*f
    # same height as a vertex too
    lev = rng.random(n) < 0.3
    x = np.where(lev, rng.uniform(-1.5, 1.5, n), x)
    y = np.where(lev, py[i], y)
    # and between the heights of the ends of an edge
    k = rng.random(n) < 0.15
    lev |= k
    x = np.where(k, rng.uniform(-1.5, 1.5, n), x)
    y = np.where(k, py[i]+rng.uniform(0, 1, n)*(py[j]-py[i]), y)
    return np.stack([x+eps*np.cos(ph)*~lev, y+eps*np.sin(ph)*~lev], -1)


def _scale():
    return st.sampled_from([1.0, 1.0, 4.2, 0.01])


def _case(extra=None):
    d = dict(a=st.just(1.0), o=G.obsc(1.0, 2), seed=G.seeds)
    d.update(extra or {})
    return st.fixed_dictionaries(d)


MARGIN = 1e-9


@sub("C18", "contains", lambda: _case(), 6000,
     rule="points inside and outside are tested")
def contains(case, ctx):
    o = case["o"]
    ob = G.build_obsc(o)
    rng = np.random.default_rng(case["seed"])
    p = np.concatenate([rng.uniform(-1.6, 1.6, (12, 2)),
                        _edge_points(o, rng, 12), [[0.0, 0.0]],
                        rng.uniform(-40, 40, (2, 2))])
    ins, marg = O.contains(o, p[:, 0], p[:, 1])
    # (exactly level with a vertex is fine unless at the boundary)
    ok = marg > MARGIN
    got = np.array([bool(ob.contains(float(x), float(y))) for x, y in p])
    if np.any((got != ins) & ok):
        i = np.argmax((got != ins) & ok)
        fail(f"{ob!r} contains {p[i].tolist()}: {bool(got[i])} "
             f"(distance of the boundary {marg[i]!r})")
    q = np.concatenate([p, p])[:2*(len(p)//2)]
    x, y = q[:, 0].reshape(-1, 2), q[:, 1].reshape(-1, 2)
    ref = np.concatenate([got, got])[:len(q)].reshape(-1, 2)
    for lab, a, b, r in (("1-d", p[:, 0].copy(), p[:, 1].copy(), got),
                         ("strided", p[:, 0], p[:, 1], got),
                         ("2-d", x, y, ref), ("transposed", x.T, y.T, ref.T),
                         ("one", p[:1, 0], p[:1, 1], got[:1])):
        g = np.asarray(ob.contains(a, b))
        require(g.shape == r.shape, f"{lab}: shape {g.shape}")
        same(g.astype(bool), r, f"contains on {lab} arrays")
    # negation, union and intersection as set operations on this object
    neg = batoid.ObscNegation(ob)
    circ = batoid.ObscCircle(0.7, 0.1, -0.2)
    cc = np.asarray(circ.contains(p[:, 0].copy(), p[:, 1].copy()), bool)
    px, py = p[:, 0].copy(), p[:, 1].copy()
    same(np.asarray(neg.contains(px, py), bool), ~got, "negation")
    for items in ((ob, circ), (circ, ob), ([ob, circ],), ((circ, ob),)):
        same(np.asarray(batoid.ObscUnion(*items).contains(px, py), bool),
             got | cc, "union")
        same(np.asarray(batoid.ObscIntersection(*items).contains(px, py),
                        bool), got & cc, "intersection")
    same(np.asarray(batoid.ObscUnion(ob).contains(px, py), bool), got,
         "union of one")
    ctx.nt(bool(ins.any() and (~ins).any()))
    ctx.event(o["t"])


@sub("C18", "obscure", lambda: _case(dict(
        rays=G.rayspec(12), cs=G.frame(2.0, 2), how=st.integers(0, 2))), 3000,
     rule="a ray inside and one outside")
def obscure(case, ctx):
    o = case["o"]
    ob = G.build_obsc(o)
    spec = dict(case["rays"], n=max(4, case["rays"]["n"]))
    rv = G.build_rays(spec, pos=1.5)
    m = O.Rays.of(rv)
    rng = np.random.default_rng(case["seed"])
    e = _edge_points(o, rng, 4)[:4]
    m.r[:len(e), :2] = e
    how = case["how"]
    if how == 2:
        # an interface's obscuration, in the interface's coordinates
        F = O.Frame.spec(case["cs"])
        m.frame = F
        m.fail[:] = False
        rays = S.to_rv(m.to(O.Frame.spec(spec["cs"])))
        itf = batoid.Interface(batoid.Plane(), name="i",
                               coordSys=S.make_cs(F), obscuration=ob)
        m2 = O.intersect(dict(t="plane"), m)
        out = itf.trace(rays)
        x, y = m2.r[:, 0], m2.r[:, 1]
        ins, marg = O.contains(o, x, y)
        ok = (marg > 1e-6) & (np.abs(m.v[:, 2]) > 0.05)
        got = np.array(out.vignetted)
        same(got[ok], (m.vig | ins)[ok], "vignetted by an interface")
        ctx.nt(bool((ins & ok & ~m.vig).any() and (~ins & ok).any()))
        ctx.event("interface")
        return
    rays = S.to_rv(m)
    out = ob.obscure(rays) if how == 0 else batoid.obscure(ob, rays)
    require(out is rays, "obscure does not return the bundle")
    ins, marg = O.contains(o, m.r[:, 0], m.r[:, 1])
    ok = marg > MARGIN
    same(np.array(out.vignetted)[ok], (m.vig | ins)[ok], "vignetted")
    g = O.Rays.of(out)
    for f in ("r", "v", "t", "w", "f", "fail"):
        same(getattr(g, f), getattr(m, f), f"obscure changed {f}")
    # independent of z, direction and time
    m2 = m.copy()
    m2.r[:, 2] = rng.uniform(-9, 9, len(m2))
    m2.v = -m2.v[::-1].copy()
    m2.t = -m2.t
    out2 = ob.obscure(S.to_rv(m2))
    same(np.array(out2.vignetted), np.array(out.vignetted),
         "obscuring depends on more than x and y")
    again = ob.obscure(out)
    same(np.array(again.vignetted), g.vig, "obscuring twice")
    # negation obscures the others
    free = m.copy()
    free.vig[:] = False
    a = np.array(ob.obscure(S.to_rv(free)).vignetted)
    b = np.array(batoid.ObscNegation(ob).obscure(S.to_rv(free)).vignetted)
    same(b, ~a, "negated obscuration")
    c = np.asarray(ob.contains(m.r[:, 0].copy(), m.r[:, 1].copy()), bool)
    same(a, c, "obscure and contains disagree")
    ctx.nt(bool((ins & ok & ~m.vig).any() and (~ins & ok).any()))
    ctx.event("rays")


def _snapped(o, k):
    """The polygon with vertices on a lattice of pitch 1/k (horizontal and
    vertical edges), or None when it is no simple polygon around 0."""
    p = []
    for x, y in zip(o["xs"], o["ys"]):
        q = (round(x*k)/k, round(y*k)/k)
        if q not in p:
            p.append(q)
    if len(p) < 3 or (0.0, 0.0) in p:
        return None
    a = np.array([math.atan2(y, x) for x, y in p])
    a = np.diff(np.concatenate([a, a[:1]]))
    a = np.mod(a, 2*math.pi)
    if abs(a.sum()-2*math.pi) > 1e-6 or a.min() < 1e-9 or \
            a.max() > math.pi-1e-9:
        return None
    return dict(o, xs=[q[0] for q in p], ys=[q[1] for q in p])


@sub("C18", "grid", lambda: st.fixed_dictionaries(dict(
        n=st.integers(3, 9), seed=G.seeds, star=st.booleans(),
        nx=st.integers(1, 14), ny=st.integers(1, 14),
        snap=st.sampled_from([0, 0, 2, 4]),
        form=st.sampled_from(["array", "list", "float32", "strided", "int",
                              "unsorted", "levels"]))), 2500,
     rule="a grid point is inside and one outside")
def grid(case, ctx):
    o = G._poly(case["n"], case["seed"], case["star"], 1.0)
    if case["snap"]:
        o = _snapped(o, case["snap"])
        if o is None:
            return
        ctx.event("snapped")
    ob = G.build_obsc(o)
    rng = np.random.default_rng(case["seed"]+1)
    xs = np.sort(rng.uniform(-1.4, 1.4, case["nx"]))
    ys = np.sort(rng.uniform(-1.4, 1.4, case["ny"]))
    form = case["form"]
    if form == "unsorted":
        # (the scan along x relies on increasing xs)
        ys = rng.permutation(ys)
    if form == "levels":
        # rows and columns through the vertices
        xs = np.unique(np.concatenate([xs, o["xs"]]))
        ys = np.unique(np.concatenate([ys, o["ys"]]))
    if form == "int":
        xs, ys = np.arange(case["nx"])-3, np.arange(case["ny"])-3
    if form == "float32":
        xs, ys = xs.astype(np.float32), ys.astype(np.float32)
    a, b = xs, ys
    if form == "list":
        a, b = xs.tolist(), ys.tolist()
    if form == "strided":
        a, b = np.repeat(xs, 2)[::2], np.repeat(ys, 3)[::3]
    got = np.asarray(ob.containsGrid(a, b))
    require(got.shape == (len(ys), len(xs)),
            f"containsGrid has shape {got.shape}")
    X, Y = np.meshgrid(np.array(xs, float), np.array(ys, float))
    ins, marg = O.contains(o, X, Y)
    ok = marg > MARGIN
    same(got[ok], ins[ok], "containsGrid")
    point = np.asarray(ob.contains(X, Y), bool)
    same(got[ok], point[ok], "containsGrid and contains disagree")
    # orientation and starting vertex do not matter
    k = case["seed"] % len(o["xs"])
    for xs2, ys2 in ((o["xs"][::-1], o["ys"][::-1]),
                     (o["xs"][k:]+o["xs"][:k], o["ys"][k:]+o["ys"][:k])):
        p2 = batoid.ObscPolygon(xs2, ys2)
        same(np.asarray(p2.containsGrid(a, b))[ok], ins[ok],
             "order of the vertices matters")
    ctx.nt(bool((ins & ok).any() and (~ins & ok).any()))
    ctx.event(form)


@sub("C18", "equivalent", lambda: st.fixed_dictionaries(dict(
        w=G.num(0.1, 2), h=G.num(0.1, 2), x=G.num(-1, 1), y=G.num(-1, 1),
        th=G.num(-3.2, 3.2), seed=G.seeds, ri=G.num(0.1, 1),
        dr=G.num(0.1, 1))), 1500, rule="always")
def equivalent(case, ctx):
    """Different ways to write the same region."""
    rng = np.random.default_rng(case["seed"])
    c = case
    p = rng.uniform(-2, 2, (200, 2))
    X, Y = p[:, 0].copy(), p[:, 1].copy()

    def have(ob):
        return np.asarray(ob.contains(X, Y), bool)
    rect = batoid.ObscRectangle(c["w"], c["h"], c["x"], c["y"], c["th"])
    cs, sn = math.cos(c["th"]), math.sin(c["th"])
    corner = [(c["x"]+cs*u*c["w"]/2-sn*v*c["h"]/2,
               c["y"]+sn*u*c["w"]/2+cs*v*c["h"]/2)
              for u, v in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    poly = batoid.ObscPolygon([a for a, _ in corner], [b for _, b in corner])
    _, marg = O.contains(dict(t="rect", w=c["w"], h=c["h"], x=c["x"],
                              y=c["y"], th=c["th"]), X, Y)
    ok = marg > MARGIN
    same(have(rect)[ok], have(poly)[ok], "rectangle and polygon")
    turned = batoid.ObscRectangle(c["h"], c["w"], c["x"], c["y"],
                                  c["th"]+math.pi/2)
    same(have(turned)[ok], have(rect)[ok], "rectangle turned by 90 degrees")
    # a band = two opposite rays; a ray = intersection with a half plane
    r1 = batoid.ObscRay(c["w"], c["th"], c["x"], c["y"])
    r2 = batoid.ObscRay(c["w"], c["th"]+math.pi, c["x"], c["y"])
    band = batoid.ObscRectangle(1e3, c["w"], c["x"], c["y"], c["th"])
    u, v = (X-c["x"])*cs+(Y-c["y"])*sn, -(X-c["x"])*sn+(Y-c["y"])*cs
    ok = (np.abs(u) > MARGIN) & (np.abs(np.abs(v)-c["w"]/2) > MARGIN)
    same((have(r1) | have(r2))[ok], have(band)[ok],
         "opposite rays make a band")
    require(not (have(r1) & have(r2))[ok].any(), "opposite rays overlap")
    same(have(r1)[ok], (have(band) & (u > 0))[ok], "ray is half a band")
    ro = c["ri"]+c["dr"]
    ann = batoid.ObscAnnulus(c["ri"], ro, c["x"], c["y"])
    alt = batoid.ObscIntersection(
        batoid.ObscCircle(ro, c["x"], c["y"]),
        batoid.ObscNegation(batoid.ObscCircle(c["ri"], c["x"], c["y"])))
    h = np.hypot(X-c["x"], Y-c["y"])
    ok = (np.abs(h-c["ri"]) > MARGIN) & (np.abs(h-ro) > MARGIN)
    same(have(ann)[ok], have(alt)[ok], "annulus and difference of circles")
    # de Morgan
    a, b = rect, ann
    N = batoid.ObscNegation
    same(have(N(batoid.ObscUnion(a, b))),
         have(batoid.ObscIntersection(N(a), N(b))), "de Morgan")
    ctx.nt()


@sub("C18", "arguments", lambda: st.fixed_dictionaries(dict(
    form=st.sampled_from(G.FORMS), seed=G.seeds, n=st.integers(3, 9),
    ints=st.booleans())), 600,
    rule="the numbers are not handed over as a contiguous float64 array")
def obscuration_arguments(case, ctx):
    """Whole numbers in other containers describe the same region."""
    rng = np.random.default_rng(case["seed"])
    f = lambda a: G.form_of(a, case["form"])
    num = int if case["ints"] else float
    ph = np.sort(rng.uniform(0, 2*np.pi, case["n"]))
    r = rng.uniform(2, 9, case["n"])
    xs, ys = np.round(r*np.cos(ph)), np.round(r*np.sin(ph))
    a, b, c, d = [int(v) for v in rng.integers(1, 5, 4)]
    pairs = [
        (batoid.ObscPolygon(f(xs), f(ys)),
         dict(t="polygon", xs=xs.tolist(), ys=ys.tolist())),
        (batoid.ObscCircle(num(a), num(b), num(-c)),
         dict(t="circle", r=a, x=b, y=-c)),
        (batoid.ObscAnnulus(num(a), num(a+b), num(c), num(d)),
         dict(t="annulus", ri=a, ro=a+b, x=c, y=d)),
        (batoid.ObscRectangle(num(a), num(b), num(c), num(-d), num(a)),
         dict(t="rect", w=a, h=b, x=c, y=-d, th=a)),
        (batoid.ObscRay(num(a), num(b), num(c), num(d)),
         dict(t="ray", w=a, th=b, x=c, y=d))]
    x, y = rng.uniform(-10, 10, (2, 60))
    for o, spec in pairs:
        want, margin = O.contains(spec, x, y)
        ok = np.abs(margin) > 1e-9
        same(np.asarray(o.contains(x, y))[ok], want[ok], f"contains of {o!r}")
        for i in np.flatnonzero(ok)[:3]:
            require(bool(o.contains(float(x[i]), float(y[i]))) == want[i],
                    f"contains of {o!r}, one point")
        # rays go through another code path
        rv = batoid.RayVector(x, y, 0*x, 0*x, 0*x, 0*x+1, 0*x, 5e-7, 1.0)
        o.obscure(rv)
        same(np.array(rv.vignetted)[ok], want[ok], f"obscure of {o!r}")
    ctx.nt()
    ctx.event(case["form"])
