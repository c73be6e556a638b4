"""C34 outlines and ray paths handed to plots."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub


class Axis:
    """Records what it is asked to draw."""
    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append(("plot", a, k))

    def fill(self, *a, **k):
        self.calls.append(("fill", a, k))

    def text(self, *a, **k):
        self.calls.append(("text", a, k))

    def add_scatter3d(self, *a, **k):
        self.calls.append(("scatter", a, k))


def quiet(f, *a, **k):
    """The slices of rotated interfaces print a warning."""
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ------------------------------------------------------------------ generators

def _iface():
    ap = st.fixed_dictionaries(dict(
        how=st.sampled_from(["none", "circle", "annulus", "not circle",
                             "not annulus", "rect", "not circle",
                             "not annulus"]),
        f=G.num(0.05, 1), e=st.sampled_from([0.0, 0.1, 0.3, 0.61, 0.9]),
        # explicit radii
        xo=st.one_of(st.none(), st.none(), G.num(0.05, 1)),
        xi=st.one_of(st.none(), st.none(), G.num(0.0, 0.9))))
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["mirror", "refr", "det", "baffle", "iface"]),
        surf=G.surface(with_sum=True), frame=st.one_of(
            G.frame(5.0, 2), st.fixed_dictionaries(dict(
                o=G.vec3(5.0), rot=st.just([])))), ap=ap))


def _tree():
    lens = st.lists(_iface(), min_size=2, max_size=2).map(
        lambda x: dict(lens=True, items=x))
    g = st.lists(st.one_of(_iface(), lens), min_size=1, max_size=3).map(
        lambda x: dict(items=x))
    return st.lists(st.one_of(_iface(), _iface(), lens, g), min_size=1,
                    max_size=3).map(lambda x: dict(items=x))


def radii(ap, surf):
    """(obscuration spec, extras, inner, outer) of an interface."""
    R = G.rmax(surf)*0.95
    out = ap["f"]*R
    inn = ap["e"]*out
    how = ap["how"]
    extra = {}
    xo = None if ap["xo"] is None else ap["xo"]*R
    ob, ri, ro = None, None, None
    if "circle" in how:
        ob, ro = dict(t="circle", r=out, x=0.0, y=0.0), out
    elif "annulus" in how:
        ob = dict(t="annulus", ri=inn, ro=out, x=0.0, y=0.0)
        ri, ro = inn, out
    elif how == "rect":
        ob = dict(t="rect", w=out, h=out/2, x=0.0, y=0.0, th=0.0)
    if "not" in how:
        ob = dict(t="not", item=ob)
    if xo is not None:
        extra["R_outer"] = xo
        if ro is None:
            ro = xo
    if ap["xi"] is not None and ro is not None:
        extra["R_inner"] = ap["xi"]*ro
        if ri is None:
            ri = extra["R_inner"]
    return ob, extra, ri if ri is not None else 0.0, ro


class Item:
    def __init__(self, name, c, kind=None):
        self.name, self.surf = name, c["surf"]
        self.kind = kind or c["kind"]
        self.frame = O.Frame.spec(c["frame"])
        ob, extra, self.ri, self.ro = radii(c["ap"], c["surf"])
        kw = dict(name=name, coordSys=S.make_cs(self.frame), **extra)
        if ob is not None:
            kw["obscuration"] = G.build_obsc(ob)
        self.opt = S.CLS[self.kind](G.build_surface(c["surf"]), **kw)

    def points(self, x, y):
        """Global points of the surface."""
        x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
        return self.frame.to_global(np.stack(
            [x, y, O.sag(self.surf, x, y)], axis=-1))

    def slices(self, n=0):
        """Reference of getXZSlice."""
        if self.ro is None:
            return []
        if n <= 0:
            n = 2 if self.surf["t"] == "plane" else 50
        xn = np.linspace(-self.ro, -self.ri, n)
        a = self.points(xn, 0)[:, ::2].T
        b = self.points(-xn[::-1], 0)[:, ::2].T
        if self.ri == 0:
            return [np.concatenate([a, b[:, 1:]], axis=1)]
        return [a, b]


class Group:
    def __init__(self, name, c, count):
        self.items, self.lens, self.name = [], c.get("lens", False), name
        for i in c["items"]:
            count[0] += 1
            nm = f"o{count[0]}"
            self.items.append(Group(nm, i, count) if "items" in i
                              else Item(nm, i, "refr" if self.lens else None))
        cls = batoid.Lens if self.lens else batoid.CompoundOptic
        self.opt = cls([i.opt for i in self.items], name=name)

    def flat(self):
        for i in self.items:
            if isinstance(i, Group):
                yield from i.flat()
            else:
                yield i


def curve_of(item, P, tol):
    """What part of the item's outline the global points P (n,3) are: "outer",
    "inner", or the sections "+x", "-x", "+y", "-y"; None if they are not on
    its surface between its radii."""
    if item.ro is None:
        return None
    p = item.frame.to_local(P)
    with np.errstate(all='ignore'):
        dz = np.abs(p[:, 2]-O.sag(item.surf, p[:, 0], p[:, 1]))
    rho = np.hypot(p[:, 0], p[:, 1])
    if not np.all(dz < tol) or not np.all(
            (rho > item.ri-tol) & (rho < item.ro+tol)):
        return None
    out = set()
    if np.all(np.abs(rho-item.ro) < tol):
        out.add("outer")
    if item.ri > 0 and np.all(np.abs(rho-item.ri) < tol):
        out.add("inner")
    for i, n in enumerate("xy"):
        if np.all(np.abs(p[:, 1-i]) < tol):
            out.add(n)
    return out, p


def covers(item, parts, tol):
    """The curves of one item make up the whole documented outline."""
    cls = [curve_of(item, P, tol) for P in parts]
    span = item.ro-item.ri
    for name, R in [("outer", item.ro)]+([("inner", item.ri)]
                                         if item.ri else []):
        az = [np.arctan2(p[:, 1], p[:, 0]) for c, p in cls if name in c]
        require(az, f"{item.name}: the {name} circle is not drawn")
        a = np.sort(np.concatenate(az))
        gap = np.max(np.diff(np.concatenate([a, [a[0]+2*np.pi]])))
        require(gap < 0.3, f"{item.name}: the {name} circle has a gap of "
                f"{gap} rad")
    for i, n in enumerate("xy"):
        for s in (1, -1):
            q = [p[:, i]*s for c, p in cls if n in c]
            q = np.concatenate(q) if q else np.zeros(0)
            q = np.sort(q[(q >= item.ri-tol) & (q <= item.ro+tol)])
            require(len(q) > 1 and abs(q[0]-item.ri) < tol
                    and abs(q[-1]-item.ro) < tol
                    and np.max(np.diff(q)) < 0.2*span+tol,
                    f"{item.name}: the section along {'-+'[s > 0]}{n} is not "
                    "drawn from the inner to the outer radius")


def match(items, curves, what):
    """Assign every curve to an item it lies on; check completeness."""
    parts = {i.name: [] for i in items}
    for k, P in enumerate(curves):
        ok = False
        for i in items:
            c = curve_of(i, P, 1e-9)
            if c is not None and c[0]:
                parts[i.name].append(P)
                ok = True
        require(ok, f"{what}: curve {k} is not a circle or section of any "
                "interface")
    for i in items:
        if i.ro is not None:
            covers(i, parts[i.name], 1e-9)
        else:
            require(not parts[i.name], f"{what}: {i.name} has no radius")


def _gaps(xs, ys, zs):
    """Split at NaN."""
    P = np.stack([xs, ys, zs], -1)
    out, cur = [], []
    for row in P:
        if np.isnan(row).any():
            if cur:
                out.append(np.array(cur))
            cur = []
        else:
            cur.append(row)
    if cur:
        out.append(np.array(cur))
    return out


def _kw(case):
    return dict(c="k", lw=2) if case["kw"] else {}


@sub("C34", "outline", lambda: st.fixed_dictionaries(dict(
        tree=_tree(), kw=st.booleans(), plotly=st.booleans(),
        single=st.booleans())), 1500,
     rule="an interface with an inner radius is drawn")
def outline(case, ctx):
    g = Group("top", case["tree"], [0])
    items = list(g.flat())
    opt = g.opt
    if case["single"] and not isinstance(g.items[0], Group):
        items, opt = [g.items[0]], g.items[0].opt
    ax = Axis()
    kw = _kw(case)
    if case["plotly"]:
        opt.draw3d(ax, plotly=True, **kw)
        for n, a, k in ax.calls:
            require(n == "scatter" and not a, "plotly drawing")
            same(sorted(k), sorted(["x", "y", "z"]+list(kw)), "keywords")
        curves = [np.stack([k["x"], k["y"], k["z"]], -1)
                  for _, _, k in ax.calls]
    else:
        opt.draw3d(ax, **kw)
        for n, a, k in ax.calls:
            require(n == "plot" and len(a) == 3 and k == kw,
                    "arguments of plot")
        curves = [np.stack(a, -1) for _, a, _ in ax.calls]
    match(items, curves, "draw3d")
    mesh = opt.get3dmesh()
    if mesh is None:
        curves = []
    else:
        require(len(mesh) == 3, "mesh of three arrays")
        curves = _gaps(*mesh)
    match(items, curves, "get3dmesh")
    ctx.nt(any(i.ro is not None and i.ri > 0 for i in items))
    ctx.event("plotly" if case["plotly"] else "axis")


ONLY = ["Mirror", "Lens", "Detector", "RefractiveInterface", "Baffle",
        "Interface"]


@sub("C34", "slices", lambda: st.fixed_dictionaries(dict(
        tree=_tree(), kw=st.booleans(), n=st.sampled_from([0, 0, 2, 3, 17]),
        only=st.one_of(st.none(), st.sampled_from(ONLY), st.just("Lens"),
                       st.lists(st.sampled_from(
                           [o for o in ONLY if o != "Lens"]), min_size=1,
                           max_size=3)),
        astuple=st.booleans(),
        label=st.one_of(st.none(), G.num(-3, 3)))), 1500,
     rule="a slice of a curved surface")
def slices(case, ctx):
    g = Group("top", case["tree"], [0])
    for i in g.flat():
        got = quiet(i.opt.getXZSlice, case["n"])
        want = i.slices(case["n"])
        require(len(got) == len(want), f"{len(got)} slices")
        for a, b in zip(got, want):
            close(np.array(a), b, 1e-9, "slice")
        if want and i.surf["t"] != "plane":
            ctx.nt()
    only = case["only"]
    kw = _kw(case)
    sel = None
    args = dict(kw)
    if only is not None:
        sel = [getattr(batoid, o) for o in (
            only if isinstance(only, list) else [only])]
        args["only"] = sel[0] if not isinstance(only, list) else (
            tuple(sel) if case["astuple"] else sel)
    lensonly = only == "Lens"
    if lensonly and case["label"] is not None:
        args.update(labelpos=case["label"], fontdict=dict(size=3))
    ax = Axis()
    # inner radii of both sides of a lens must agree for it to be filled

    def lenses(g):
        for i in g.items:
            if isinstance(i, Group):
                if i.lens:
                    yield i
                else:
                    yield from lenses(i)
    if lensonly:
        for ln in lenses(g):
            a, b = (len(i.slices()) for i in ln.items)
            if a != b or a == 0:
                return
    quiet(g.opt.draw2d, ax, **args)
    want = []
    if lensonly:
        for ln in lenses(g):
            zs = []
            for p, q in zip(ln.items[0].slices(), ln.items[1].slices()):
                poly = np.concatenate([p, q[:, ::-1], p[:, :1]], axis=1)
                want.append(("fill", poly))
                zs.append(poly[1])
            if case["label"] is not None:
                want.append(("text", case["label"], np.mean(zs), ln.name))
    else:
        for i in g.flat():
            if sel is None or isinstance(i.opt, tuple(sel)):
                want.extend(("plot", s) for s in i.slices())
    require(len(ax.calls) == len(want),
            f"draw2d(only={only}) draws {len(ax.calls)} things instead of "
            f"{len(want)}")
    for (n, a, k), w in zip(ax.calls, want):
        require(n == w[0], f"draw2d: {n} instead of {w[0]}")
        if n == "text":
            close(a[0], w[1], 1e-12, "x of the label")
            close(a[1], w[2], 1e-9, "z of the label")
            require(a[2] == w[3], f"label {a[2]}")
            continue
        require(k == kw, f"keywords {k} of {n}")
        if n == "fill":
            # any closed traversal of the outline
            close(np.stack(a[:2]), w[1], 1e-9, "outline of the lens")
        else:
            close(np.stack(a[:2]), w[1], 1e-9, "drawn slice")
    ctx.event(str(only) if not isinstance(only, list) else "list")


@sub("C34", "rays", lambda: st.fixed_dictionaries(dict(
        sys=S.system(S.element(tilt=0.1), max_size=5, groups=False),
        a=st.integers(0, 6), b=st.integers(0, 6), globalsys=st.one_of(
            st.none(), G.frame(4.0, 2)), kw=st.booleans(),
        plotly=st.booleans(), nameless=st.booleans())), 1500,
     rule="a ray is vignetted on its way and another one is not")
def rays(case, ctx):
    root = S.expand(case["sys"])
    opt = S.build(root)
    rr = S.make_rays(case["sys"])
    els = S.flatten(root)
    if not els:
        return
    tf = opt.traceFull(S.to_rv(rr))
    names = [e.name for e in els]
    require(list(tf) == names, "names of the full trace")
    stt = S.State(rr)
    hist = [stt]
    for e in els:
        stt = S.act(e, stt, "natural")
        hist.append(stt)
    i, j = case["a"] % len(els), case["b"] % len(els)
    kw = {}
    if not (case["nameless"] and i == 0):
        kw["start"] = names[i]
    if not (case["nameless"] and j == len(els)-1):
        kw["end"] = names[j]
    gs = O.Frame()
    gkw = dict(kw)
    if case["globalsys"] is not None:
        gs = O.Frame.spec(case["globalsys"])
        gkw["globalSys"] = S.make_cs(gs)
    if j == i-1:
        return          # an empty range
    if j < i:
        try:
            batoid.optic.getGlobalRays(tf, **gkw)
        except ValueError:
            ctx.event("reversed range")
            return
        fail("getGlobalRays accepts an end before the start")
    for bad in ("start", "end"):
        try:
            batoid.optic.getGlobalRays(tf, **dict(gkw, **{bad: "no such"}))
        except ValueError:
            continue
        fail(f"getGlobalRays accepts an unknown {bad}")
    xyz, n = batoid.optic.getGlobalRays(tf, **gkw)
    m = j-i+2
    N = len(rr)
    require(np.shape(xyz) == (N, 3, m), f"shape {np.shape(xyz)}")
    require(np.shape(n) == (N,), "shape of the lengths")
    # vertices: where the rays enter, then where they leave each element
    hs = hist[i:j+2]
    P = np.stack([h.rays.frame.to_global(h.rays.r) for h in hs])
    bad = np.stack([h.bad for h in hs])
    vig = np.stack([h.rays.vig for h in hs[1:]])
    fl = np.stack([h.rays.fail for h in hs])
    cut = False
    for k in range(N):
        if bad[:, k].any():
            continue
        vis = 1+int((~vig[:, k]).sum())
        require(n[k] == vis, f"ray {k}: {n[k]} visible vertices instead of "
                f"{vis}")
        cut = cut or vis < m
        good = ~fl[:, k]
        close(xyz[k].T[good], gs.to_local(P[good, k]), 1e-7,
              f"vertices of ray {k}")
    # drawing
    xyz, n = batoid.optic.getGlobalRays(tf, **kw)
    ax = Axis()
    dk = _kw(case)
    if case["plotly"]:
        batoid.drawTrace3d(ax, tf, plotly=True, **kw, **dk)
        lines = [np.stack([k["x"], k["y"], k["z"]]) for _, _, k in ax.calls]
        for nm, a, k in ax.calls:
            require(nm == "scatter" and not a and sorted(k) == sorted(
                ["x", "y", "z"]+list(dk)), "plotly drawing of rays")
    else:
        batoid.drawTrace3d(ax, tf, **kw, **dk)
        for nm, a, k in ax.calls:
            require(nm == "plot" and len(a) == 3 and k == dk,
                    "drawing of rays")
        lines = [np.stack(a) for _, a, _ in ax.calls]
    require(len(lines) == N, f"{len(lines)} rays drawn instead of {N}")
    for k in range(N):
        same(lines[k], xyz[k][:, :n[k]], f"drawTrace3d: ray {k}")
    ax = Axis()
    batoid.drawTrace2d(ax, tf, **kw, **dk)
    flat = []
    for nm, a, k in ax.calls:
        require(nm == "plot" and k == dk, "drawing of rays")
        flat.extend(a)
    require(len(flat) == 2*N, "drawTrace2d: number of lines")
    for k in range(N):
        same(np.stack(flat[2*k:2*k+2]), xyz[k][::2, :n[k]],
             f"drawTrace2d: ray {k}")
    ctx.nt(cut and bool((n == m).any()))
