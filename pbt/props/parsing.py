"""C26 descriptions of optical systems."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np
import yaml
from hypothesis import strategies as st

import batoid
from batoid import parse as P

from .. import config as C
from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from .. import tele as T
from ..core import close, fail, require, same, sub
from .edits import same_optic

# ------------------------------------------------- specification -> description


def _opt(d, k, v, default, terse):
    """Leave default values out of terse descriptions."""
    if not (terse and v == default):
        d[k] = v


def surface_cfg(s, terse):
    t = s["t"]
    if t == "plane":
        return dict(type="Plane")
    if t == "tilted":
        return dict(type="Tilted", tanx=s["tx"], tany=s["ty"])
    if t in ("parab", "sphere"):
        return dict(type="Paraboloid" if t == "parab" else "Sphere", R=s["R"])
    if t == "quadric":
        return dict(R=s["R"], type="Quadric", conic=s["k"])
    if t == "asphere":
        d = dict(type="Asphere", R=s["R"], conic=s["k"], coefs=s["coefs"])
        _opt(d, "imin", s["imin"], 2, terse)
        return d
    if t == "zernike":
        d = dict(type="Zernike", coef=s["coef"])
        _opt(d, "R_outer", s["Ro"], 1.0, terse)
        _opt(d, "R_inner", s["Ri"], 0.0, terse)
        _opt(d, "x_origin", s.get("x0", 0.0), 0.0, terse)
        _opt(d, "y_origin", s.get("y0", 0.0), 0.0, terse)
        return d
    if t == "bicubic":
        xs, ys, zs, dx, dy, dxy = [np.asarray(a).tolist()
                                   for a in O.bicubic_table(s)]
        d = dict(type="Bicubic", xs=xs, ys=ys, zs=zs)
        if s.get("deriv") != "default":
            d.update(dzdxs=dx, dzdys=dy, d2zdxdys=dxy)
        _opt(d, "nanpolicy", s.get("nan", "nan"), "nan", terse)
        return d
    if t == "sum":
        return dict(type="Sum",
                    items=[surface_cfg(i, terse) for i in s["items"]])
    raise ValueError(t)


def medium_cfg(m, terse):
    t = m["t"]
    if t == "const":
        return m["n"] if terse else dict(type="ConstMedium", n=m["n"])
    if t == "table":
        return dict(type="TableMedium", wavelengths=m["w"], ns=m["n"])
    if t == "sellmeier":
        return dict(zip(("B1", "B2", "B3", "C1", "C2", "C3"), m["c"]),
                    type="SellmeierMedium")
    if t == "sumita":
        return dict({f"A{i}": c for i, c in enumerate(m["c"])},
                    type="SumitaMedium")
    d = dict(type="Air")
    for k, s in (("pressure", "p"), ("temperature", "T"),
                 ("h2o_pressure", "h")):
        if s in m:
            d[k] = m[s]
    return d


def obsc_cfg(o, terse):
    t = o["t"]
    if t == "not" and terse and o["item"]["t"] not in ("not", "or", "and"):
        d = obsc_cfg(o["item"], terse)
        d["type"] = "Clear"+d["type"][4:]
        return d
    if t == "not":
        return dict(type="ObscNegation", original=obsc_cfg(o["item"], terse))
    if t in ("or", "and"):
        return dict(type="ObscUnion" if t == "or" else "ObscIntersection",
                    items=[obsc_cfg(i, terse) for i in o["items"]])
    if t == "polygon":
        return dict(type="ObscPolygon", xs=o["xs"], ys=o["ys"])
    if t == "circle":
        d = dict(type="ObscCircle", radius=o["r"])
    elif t == "annulus":
        d = dict(type="ObscAnnulus", inner=o["ri"], outer=o["ro"])
    elif t == "rect":
        d = dict(type="ObscRectangle", width=o["w"], height=o["h"])
        _opt(d, "theta", o.get("th", 0.0), 0.0, terse)
    else:
        d = dict(type="ObscRay", width=o["w"], theta=o["th"])
    _opt(d, "x", o.get("x", 0.0), 0.0, terse)
    _opt(d, "y", o.get("y", 0.0), 0.0, terse)
    return d


def cs_cfg(pairs):
    d = {}
    for k, v in pairs:
        d.pop(k, None)
        d[k] = v
    return d


def _cs():
    one = st.one_of(
        st.tuples(st.sampled_from(["x", "y", "z"]), G.num(-2, 2)),
        st.tuples(st.sampled_from(["rotX", "rotY", "rotZ"]), G.num(-2, 2)),
        st.tuples(st.just("shift"), G.vec3(2.0)))
    return st.lists(one.map(list), max_size=5)


# ------------------------------------------------------------------ pieces

@sub("C26", "pieces", lambda: st.fixed_dictionaries(dict(
    surf=G.surface(), obsc=G.obsc(1.0, 2), med=G.medium(), cs=_cs(),
    base=G.frame(3.0, 2), terse=st.booleans())), 1500,
     rule="a frame of at least two steps")
def pieces(case, ctx):
    terse = case["terse"]
    ctx.nt(len(case["cs"]) > 1)
    for what, cfg, f, want in (
            ("surface", surface_cfg(case["surf"], terse), P.parse_surface,
             lambda: G.build_surface(case["surf"])),
            ("obscuration", obsc_cfg(case["obsc"], terse),
             P.parse_obscuration, lambda: G.build_obsc(case["obsc"])),
            ("medium", medium_cfg(case["med"], terse), P.parse_medium,
             lambda: G.build_medium(case["med"]))):
        c0 = copy.deepcopy(cfg)
        a = f(cfg)
        require(cfg == c0, f"{what}: description modified: {c0} -> {cfg}")
        require(a == want(), f"{what}: {cfg} gives {a!r}")
        require(f(cfg) == a, f"{what}: second parse differs")
        if what == "surface" and case["surf"]["t"] != "bicubic":
            x, y = G.disk(np.random.default_rng(1), 5,
                          0.6*G.rmax(case["surf"]))
            close(a.sag(x, y), O.sag(case["surf"], x, y), 1e-10,
                  "parsed surface: sag")
        if what == "medium":
            require(P.parse_medium(a) is a, "a medium is not kept")
    require(P.parse_medium(None) is None, "parse_medium(None)")
    cfg = cs_cfg(case["cs"])
    c0 = list(copy.deepcopy(cfg).items())
    b = O.Frame.spec(case["base"])
    want = C.frame(cfg, b)
    got = P.parse_coordSys(cfg, S.make_cs(b))
    require(list(cfg.items()) == c0, "coordSys description modified")
    close(got.origin, want.o, 1e-12, f"{cfg}: origin")
    close(got.rot, want.rot, 1e-12, f"{cfg}: rotation")
    got = P.parse_coordSys(cfg)
    want = C.frame(cfg, O.Frame())
    close(got.origin, want.o, 1e-12, f"{cfg}: origin (default parent)")
    close(got.rot, want.rot, 1e-12, f"{cfg}: rotation (default parent)")


# ----------------------------------------------------------------- systems

def _elem(stop=True):
    # (surfaces without tables: the reader has no form for them)
    surf = G.surface([k for k in G.SIMPLE if not k.startswith("bicubic")])

    def mk(typ, name, surf, screen, ob, cs, m1, m2, ex, terse):
        d = dict(type=typ)
        if name is not None:
            d["name"] = name
        d["surface"] = surface_cfg(surf, terse)
        if typ == "OPDScreen":
            d["screen"] = surface_cfg(screen, terse)
        if ob is not None:
            d["obscuration"] = obsc_cfg(ob, terse)
        if cs is not None:
            d["coordSys"] = cs_cfg(cs)
        if m1 is not None and typ != "OPDScreen":
            d["inMedium"] = medium_cfg(m1, terse)
        if m2 is not None and typ != "OPDScreen":
            d["outMedium"] = medium_cfg(m2, terse)
        d.update(ex)
        return d
    typ = st.sampled_from(["Mirror", "RefractiveInterface", "Baffle",
                           "Detector", "Interface", "OPDScreen"])
    med = st.one_of(st.none(), st.none(), G.medium())
    return G.builds(mk, typ, st.one_of(st.none(), st.sampled_from(S.NAMES)),
                    surf, G._plane(), st.one_of(st.none(), G.obsc(1.0, 1)),
                    st.one_of(st.none(), _cs(), _cs()), med, med, _extras(),
                    st.booleans())


def _extras():
    return st.dictionaries(
        st.sampled_from(["backDist", "sphereRadius", "pupilSize",
                         "pupilObscuration", "R_outer", "R_inner"]),
        G.num(0, 5), max_size=2)


def _screens_ok(d, m1, m2):
    """OPD screens need the same medium on both sides: give the ones that do
    not an outMedium."""
    a = d.get("inMedium", m1)
    b = d.get("outMedium", m2 if m2 is not None else a)
    if d["type"] == "OPDScreen":
        if a != b:
            d["outMedium"] = copy.deepcopy(a)
        return
    if d["type"] == "Lens":
        # the glass is between the surfaces
        d["items"][0].pop("outMedium", None)
        d["items"][1].pop("inMedium", None)
        for i in d["items"]:
            if i["type"] == "OPDScreen":
                i["type"] = "Interface"
        _screens_ok(d["items"][0], a, d["medium"])
        _screens_ok(d["items"][1], d["medium"], b)
    elif "items" in d:
        for i in d["items"]:
            _screens_ok(i, a, b)


def _tree():
    med = st.one_of(st.none(), st.none(), G.medium())
    el = _elem()

    def mk(typ, items, name, cs, m1, m2, g, ex, stop, terse, key_first):
        d = {}
        if typ == "Lens":
            items = (items*2)[:2]
            d["medium"] = medium_cfg(g, terse)
        if key_first:
            d["items"] = items
        d["type"] = typ
        if name is not None:
            d["name"] = name
        if cs is not None:
            d["coordSys"] = cs_cfg(cs)
        if m1 is not None:
            d["inMedium"] = medium_cfg(m1, terse)
        if m2 is not None:
            d["outMedium"] = medium_cfg(m2, terse)
        d["items"] = items
        d.update(ex)
        if stop is not None:
            d["stopSurface"] = stop
        return d

    def group(children):
        return G.builds(
            mk, st.sampled_from(["CompoundOptic", "CompoundOptic", "Lens"]),
            st.lists(children, min_size=1, max_size=3),
            st.one_of(st.none(), st.sampled_from(S.NAMES)),
            st.one_of(st.none(), _cs()), med, med, G.medium(), _extras(),
            st.one_of(st.none(), st.none(), el), st.booleans(), st.booleans())
    g1 = group(el)
    g2 = group(st.one_of(el, g1))
    return st.one_of(g2, g2, g1, el)


def _depth(d):
    return 1+max([_depth(i) for i in d.get("items", [])], default=0)


def _finish_config(d):
    """JSON case -> description (OPD screens made consistent)."""
    d = copy.deepcopy(d)

    def stops(x):
        if "stopSurface" in x:
            _screens_ok(x["stopSurface"], 1.0, None)
        for i in x.get("items", []):
            stops(i)
    _screens_ok(d, 1.0, None)
    stops(d)
    return d


@sub("C26", "systems", lambda: st.fixed_dictionaries(dict(
    cfg=_tree(), mode=st.sampled_from(["parse", "parse", "file"]),
    base=st.one_of(st.none(), G.frame(3.0, 2)))), 900,
     rule="a nested system")
def systems(case, ctx):
    cfg = _finish_config(case["cfg"])
    ctx.nt(_depth(cfg) > 1)
    ctx.event(f"depth {_depth(cfg)}")
    c0 = json.dumps(cfg)
    if case["mode"] == "file":
        d = tempfile.mkdtemp(prefix="pbt-yaml-")
        try:
            fn = os.path.join(d, "my_system.yaml")
            with open(fn, "w") as f:
                yaml.safe_dump(dict(opticalSystem=cfg), f, sort_keys=False)
            opt = batoid.Optic.fromYaml(fn)
        finally:
            shutil.rmtree(d)
        nd = C.read(cfg)
    elif case["base"] is not None:
        b = O.Frame.spec(case["base"])
        opt = P.parse_optic(cfg, coordSys=S.make_cs(b))
        nd = C.read(cfg, parent=b)
    else:
        opt = P.parse_optic(cfg)
        nd = C.read(cfg)
    require(json.dumps(cfg) == c0, lambda:
            f"description modified: {c0[:300]} -> {json.dumps(cfg)[:300]}")
    same_optic(opt, nd, "parsed")
    if case["mode"] == "parse" and case["base"] is None:
        again = P.parse_optic(cfg)
        require(again == opt, "second parse differs")
        same_optic(again, nd, "parsed again")


@sub("C26", "errors", lambda: st.fixed_dictionaries(dict(
    cfg=_tree(), seed=G.seeds, typ=st.sampled_from(
        ["Mirrors", "mirror", "", "Lense", "Optic", "Plane"]))), 120,
     rule="an unknown type somewhere in the description")
def errors(case, ctx):
    cfg = _finish_config(case["cfg"])
    ctx.nt()
    rng = np.random.default_rng(case["seed"])
    nodes = []

    def go(d):
        nodes.append(d)
        for i in d.get("items", []):
            go(i)
    go(cfg)
    n = nodes[rng.integers(len(nodes))]
    if "obscuration" in n and rng.random() < 0.5:
        n["obscuration"] = dict(type="Obscure"+case["typ"], radius=1.0)
    else:
        n["type"] = case["typ"]
    try:
        o = P.parse_optic(cfg)
    except ValueError:
        return
    fail(f"unknown type accepted: {o!r}"[:500])


# -------------------------------------------------------------- shipped files

@sub("C26", "shipped", lambda: st.fixed_dictionaries(dict(
    f=T.files(C.files()), how=st.sampled_from(["name", "path", "dict"]),
    ang=st.lists(G.num(-1, 1), min_size=2, max_size=2))), 90,
     rule="a description with a stop")
def shipped(case, ctx):
    rel = case["f"]
    path = os.path.join(batoid.datadir, rel)
    name = os.path.basename(rel)
    if case["how"] == "name":
        opt = batoid.Optic.fromYaml(name)
    elif case["how"] == "path":
        opt = batoid.Optic.fromYaml(path)
    else:
        opt = P.parse_optic(copy.deepcopy(C.load(rel)))
    nd = C.read(C.load(rel))
    same_optic(opt, nd, rel)
    if not hasattr(opt, "stopSurface"):
        return
    ctx.nt()
    th = np.array(case["ang"])*3e-4
    rv = batoid.RayVector.asPolar(
        optic=opt, wavelength=700e-9, theta_x=th[0], theta_y=th[1],
        nrad=4, naz=12)
    opt.trace(rv)
    good = ~rv.vignetted & ~rv.failed
    require(np.any(good), f"{rel}: no ray gets through")
    require(np.all(np.isfinite(rv.r[good])), f"{rel}: not finite")


@sub("C26", "every file", lambda: st.just(0), 1,
     rule="all shipped descriptions")
def every_file(case, ctx):
    ctx.nt()
    fs = C.files()
    require(len(fs) > 20, "shipped descriptions are missing")
    for rel in fs:
        opt = batoid.Optic.fromYaml(os.path.basename(rel))
        same_optic(opt, C.read(C.load(rel)), rel)


@sub("C26", "lookup", lambda: st.sampled_from(
    ["LSST_x.yaml", "nothing.yaml", "LSST_r", "media.yaml"]), 8,
     rule="a file that does not exist")
def missing_file(name, ctx):
    ctx.nt()
    try:
        o = batoid.Optic.fromYaml(name)
    except (FileNotFoundError, OSError):
        return
    fail(f"{name} does not exist but gives {o!r}"[:300])
