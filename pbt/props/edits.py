"""C23 modifying optics, C24 finding elements by name."""
import copy

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from ..core import close, fail, require, same, sub


# ----------------------------------------------------------- deep comparison

def _surface_ok(surf, spec, msg, perturbed):
    ref = G.build_surface(spec)
    if not perturbed:
        require(surf == ref, f"{msg}: surface {surf!r} instead of {ref!r}")
    rng = np.random.default_rng(5)
    x, y = G.disk(rng, 5, 0.4)
    close(surf.sag(x, y), O.sag(spec, x, y), 1e-10, msg+": sag")


def _coating_ok(c, spec, default, msg):
    spec = spec if spec is not None else default
    if spec is None:
        require(c is None, f"{msg}: coating {c!r}")
        return
    require(isinstance(c, batoid.SimpleCoating)
            and (c.reflectivity, c.transmissivity) == tuple(spec),
            f"{msg}: coating {c!r} instead of {spec}")


DEF_F = dict(mirror=[1.0, 0.0], refr=[0.0, 1.0], baffle=[0.0, 1.0],
             det=[0.0, 1.0])
DEF_R = dict(DEF_F, det=None)


def radii(nd):
    """R_inner, R_outer, and the radii for drawing of an element: those given,
    or those of its (clear) circle or annulus."""
    ex = getattr(nd, "extra", {})
    ri = ro = None
    o = nd.obsc
    if o is not None:
        if o["t"] == "not":
            o = o["item"]
        if o["t"] == "annulus":
            ri, ro = o["ri"], o["ro"]
        elif o["t"] == "circle":
            ri, ro = 0.0, o["r"]
    # an annulus or circle decides the radii used for drawing
    dri = ri if o is not None and o["t"] == "annulus" else ex.get("R_inner",
                                                                  ri)
    dro = ro if ro is not None else ex.get("R_outer", ro)
    if dri is None and dro is not None:
        dri = 0.0
    return ex.get("R_inner", ri), ex.get("R_outer", ro), dri, dro


def same_optic(opt, nd, msg):
    """Every part of the optic is as in the reference tree."""
    msg = f"{msg}: {nd.name}"
    if nd.items is None:
        cls = batoid.OPDScreen if nd.kind == "screen" else S.CLS[nd.kind]
    else:
        cls = batoid.Lens if nd.lens else batoid.CompoundOptic
    require(type(opt) is cls, f"{msg}: {type(opt)} instead of {cls}")
    require(opt.name == nd.name, f"{msg}: name {opt.name!r}")
    close(opt.coordSys.origin, nd.frame.o, 1e-9, msg+": origin")
    close(opt.coordSys.rot, nd.frame.rot, 1e-9, msg+": rotation")
    require(opt.inMedium == G.build_medium(nd.n1), f"{msg}: inMedium")
    require(opt.outMedium == G.build_medium(nd.n2), f"{msg}: outMedium")
    require(opt.skip is bool(nd.skip), f"{msg}: skip {opt.skip}")
    for k, v in getattr(nd, "extra", {}).items():
        require(hasattr(opt, k), f"{msg}: attribute {k} is lost")
        got = getattr(opt, k)
        if isinstance(v, S.Node):
            same_optic(got, v, f"{msg}: {k}")
        else:
            require(got == v, f"{msg}: {k} = {got!r} instead of {v!r}")
    if getattr(nd, "medium", None) is not None:
        require(opt.medium == G.build_medium(nd.medium), f"{msg}: medium")
    for k in ("stopSurface", "backDist", "medium", "tag"):
        if getattr(nd, k, None) is None and k not in getattr(nd, "extra", {}):
            require(not hasattr(opt, k), f"{msg}: attribute {k} appeared")
    if nd.items is not None:
        require(len(opt.items) == len(nd.items),
                f"{msg}: {len(opt.items)} items instead of {len(nd.items)}")
        for a, b in zip(opt.items, nd.items):
            same_optic(a, b, msg)
        names = [e.name for e in S.flatten(nd, True)]
        require(list(opt.path) == names, f"{msg}: path {opt.path}")
        return
    require(list(opt.path) == [nd.name], f"{msg}: path {opt.path}")
    _surface_ok(opt.surface, nd.surf, msg, getattr(nd, "perturbed", False))
    want = G.build_obsc(nd.obsc) if nd.obsc is not None else None
    require(opt.obscuration == want, f"{msg}: obscuration {opt.obscuration!r}")
    if nd.kind == "screen":
        require(opt.screen == G.build_surface(nd.screen), f"{msg}: screen")
    elif nd.kind != "iface":
        _coating_ok(opt.forwardCoating, nd.fc, DEF_F[nd.kind],
                    msg+": forward")
        _coating_ok(opt.reverseCoating, nd.rc, DEF_R[nd.kind],
                    msg+": reverse")
    ri, ro, dri, dro = radii(nd)
    require(opt.R_inner == ri and opt.R_outer == ro,
            f"{msg}: radii {opt.R_inner}, {opt.R_outer} instead of {ri}, {ro}")
    require(opt.outRadius == dro, f"{msg}: outRadius {opt.outRadius}")
    require(opt.inRadius == dri, f"{msg}: inRadius {opt.inRadius}")


# ------------------------------------------------------------ reference edits

def _rigid(nd, R, p, o=None):
    """Move the whole subtree: x -> R (x-p) + p + o."""
    o = np.zeros(3) if o is None else o

    def mv(f):
        return O.Frame(R@(f.o-p)+p+o, R@f.rot)
    nd.frame = mv(nd.frame)
    for v in getattr(nd, "extra", {}).values():
        if isinstance(v, S.Node):
            _rigid(v, R, p, o)
    if nd.items is not None:
        for i in nd.items:
            _rigid(i, R, p, o)


def _find(nd, full):
    for nm, x in S.full_names(nd):
        if nm == full:
            return x
    raise KeyError(full)


def partials(nd):
    """{partial or full name: full name} of every unambiguous name; the others
    map to None."""
    out = {}
    fulls = [nm for nm, _ in S.full_names(nd)]
    for nm in fulls:
        toks = nm.split(".")
        for k in range(len(toks)):
            p = ".".join(toks[k:])
            out.setdefault(p, set()).add(nm)
    res = {p: (next(iter(s)) if len(s) == 1 else None)
           for p, s in out.items()}
    for nm in fulls:
        res[nm] = nm           # a full name always denotes its element
    return res


# --------------------------------------------------------------------- cases

def _ops():
    v = G.vec3(0.5)
    rot = G.rots(2)
    tgt = st.tuples(st.integers(0, 30), st.integers(0, 5)).map(list)
    center = st.one_of(st.none(), G.vec3(1.0))
    cs = st.one_of(st.none(), st.none(), G.frame(2.0, 2))
    surf = S._gentle(False)
    pert = st.one_of(surf, G.builds(
        lambda c: dict(t="zernike", coef=[a*1e-3 for a in c], Ro=3.0, Ri=0.0),
        st.lists(G.num(-1, 1), min_size=1, max_size=6)))
    ins = S.element(kinds=("refr", "mirror", "baffle", "det", "iface"))
    return st.one_of(
        G.builds(lambda t, v: dict(op="gshift", t=t, v=v), tgt, v),
        G.builds(lambda t, v: dict(op="lshift", t=t, v=v), tgt, v),
        G.builds(lambda t, r, c, cs: dict(op="lrot", t=t, r=r, c=c, cs=cs),
                 tgt, rot, center, cs),
        G.builds(lambda w, v: dict(op="whole", w=w, v=v),
                 st.sampled_from(["gshift", "lshift"]), v),
        G.builds(lambda w, r, c, cs: dict(op="whole", w=w, r=r, c=c, cs=cs),
                 st.sampled_from(["grot", "lrot"]), rot, center, cs),
        G.builds(lambda t, s: dict(op="surface", t=t, s=s), tgt, surf),
        G.builds(lambda t, s: dict(op="perturb", t=t, s=s), tgt, pert),
        G.builds(lambda t, e: dict(op="insert", t=t, e=e), tgt, ins),
        G.builds(lambda t: dict(op="remove", t=t), tgt),
        G.builds(lambda t, w: dict(op="unknown", t=t, w=w), tgt,
                 st.integers(0, 7)),
    )


def _extras():
    stop = G.builds(lambda f, r: dict(f=f, r=r), G.frame(2.0, 2), G.num(1, 3))
    return st.lists(st.tuples(
        st.integers(0, 20),
        st.one_of(
            G.builds(lambda s: dict(stop=s), stop),
            st.sampled_from([dict(backDist=3.0), dict(tag="x"),
                             dict(medium=1.5),
                             dict(R_outer=2.0, R_inner=0.5)]))).map(list),
        max_size=3)


def _edit_case():
    return st.fixed_dictionaries(dict(
        sys=st.one_of(S.system(S.element(), 1, 4),
                      S.system(S.element(), 1, 3, groups="mostly")),
        unique=st.booleans(),
        few=st.sampled_from([0, 2, 4]),
        root=st.integers(0, 5), ops=st.lists(_ops(), min_size=1, max_size=6),
        extras=_extras()))


def _few(sysc, k):
    """The same with names from a small set, so that they repeat."""
    def go(n):
        n = dict(n, name=n["name"] % k)
        if "items" in n:
            n["items"] = [go(i) for i in n["items"]]
        return n
    return go(sysc)


def _prepare(case):
    """The tree, with extra attributes, rooted at a group."""
    sysc = case["sys"]
    if not case["unique"] and case["few"]:
        sysc = _few(sysc, case["few"])
    root = S.expand(sysc, case["unique"])
    groups = [nd for _, nd in S.full_names(root) if nd.items is not None]
    # mostly the top
    root = groups[case["root"]] if 0 < case["root"] < len(groups) else root
    nodes = [nd for _, nd in S.full_names(root)]
    for nd in nodes:
        nd.extra = {}
    for i, ex in case.get("extras", ()):
        nd = nodes[i % len(nodes)]
        for k, v in ex.items():
            if k == "stop":
                s = S.Node(kind="iface", name="stop", items=None, skip=False,
                           frame=O.Frame.spec(v["f"]), surf=dict(t="plane"),
                           n1=dict(t="const", n=1.0), n2=dict(t="const", n=1.0),
                           obsc=dict(t="circle", r=v["r"], x=0.0, y=0.0),
                           fc=None, rc=None, screen=None, extra={})
                nd.extra["stopSurface"] = s
            elif k in ("R_outer", "R_inner"):
                if nd.items is None:
                    nd.extra[k] = v
            else:
                nd.extra[k] = v
    return root


def _raises(f, msg, errs=(ValueError,)):
    try:
        f()
    except errs:
        return
    fail(msg)


def _apply(opt, nd, op, ctx, nested_too=True):
    """-> (new optic, new reference tree), or None if the operation does not
    apply."""
    names = S.full_names(nd)
    pm = partials(nd)
    new = copy.deepcopy(nd)
    if op["op"] == "whole":
        w = op["w"]
        if w == "gshift":
            _rigid(new, np.eye(3), np.zeros(3), np.array(op["v"]))
            return opt.withGlobalShift(op["v"]), new
        if w == "lshift":
            _rigid(new, np.eye(3), np.zeros(3), nd.frame.rot@np.array(op["v"]))
            return opt.withLocalShift(np.array(op["v"])), new
        R = O.rot_list(op["r"])
        kw = {}
        c = np.zeros(3)
        if op["c"] is not None:
            kw["rotCenter"] = c = np.array(op["c"])
        fr = O.Frame() if w == "grot" else nd.frame
        if op["cs"] is not None:
            fr = O.Frame.spec(op["cs"])
            kw["coordSys"] = S.make_cs(fr)
        p = fr.to_global(c)
        if w == "grot":
            _rigid(new, R, p)
            return opt.withGlobalRotation(R, **kw), new
        _rigid(new, nd.frame.rot@R@nd.frame.rot.T, p)
        return opt.withLocalRotation(R, **kw), new
    # target: an element and one of its names
    full, x = names[op["t"][0] % len(names)]
    toks = full.split(".")
    k = op["t"][1] % len(toks)
    name = ".".join(toks[k:])
    if op["op"] == "unknown":
        name = ["no such", name+"x", "x"+name, name+".", "."+name, "",
                name+"."+toks[0]+".y", toks[-1][:-1]+"?"][op["w"]]
        if name in pm:
            return None
        pm[name] = None
    if pm[name] is None:
        # ambiguous or unknown
        ctx.event("ambiguous" if op["op"] != "unknown" else "unknown name")
        pl = batoid.Plane()
        for lab, f in (
                ("withGloballyShiftedOptic",
                 lambda: opt.withGloballyShiftedOptic(name, [0.0, 0, 1])),
                ("withLocallyShiftedOptic",
                 lambda: opt.withLocallyShiftedOptic(name, [0.0, 0, 1])),
                ("withLocallyRotatedOptic",
                 lambda: opt.withLocallyRotatedOptic(name, np.eye(3))),
                ("withSurface", lambda: opt.withSurface(name, pl)),
                ("withPerturbedSurface",
                 lambda: opt.withPerturbedSurface(name, pl)),
                ("withInsertedOptic", lambda: opt.withInsertedOptic(
                    name, batoid.Baffle(pl, name="new"))),
                ("withRemovedOptic", lambda: opt.withRemovedOptic(name))):
            _raises(f, f"{lab} accepts the name {name!r}",
                    (ValueError, KeyError))
        return opt, nd
    full = pm[name]
    x = _find(new, full)
    msg = f"{op['op']} {name!r}"
    if op["op"] == "gshift":
        _rigid(x, np.eye(3), np.zeros(3), np.array(op["v"]))
        return opt.withGloballyShiftedOptic(name, op["v"]), new
    if op["op"] == "lshift":
        _rigid(x, np.eye(3), np.zeros(3), x.frame.rot@np.array(op["v"]))
        return opt.withLocallyShiftedOptic(name, np.array(op["v"])), new
    if op["op"] == "lrot":
        R = O.rot_list(op["r"])
        kw = {}
        c = np.zeros(3)
        if op["c"] is not None:
            kw["rotCenter"] = c = np.array(op["c"])
        fr = x.frame
        if op["cs"] is not None:
            fr = O.Frame.spec(op["cs"])
            kw["coordSys"] = S.make_cs(fr)
        _rigid(x, x.frame.rot@R@x.frame.rot.T, fr.to_global(c))
        return opt.withLocallyRotatedOptic(name, R, **kw), new
    if op["op"] in ("surface", "perturb"):
        if x.items is not None:
            return None
        s = G.build_surface(op["s"])
        if op["op"] == "surface":
            x.surf = op["s"]
            x.perturbed = False
            return opt.withSurface(name, s), new
        x.surf = dict(t="sum", items=[x.surf, op["s"]])
        x.perturbed = True
        return opt.withPerturbedSurface(name, s), new
    if nd.lens or full == nd.name:
        return None
    nested = full.count(".") > 1
    if nested and not nested_too:
        return None
    parent = new
    for t in full.split(".")[1:-1]:
        parent = next(i for i in parent.items if i.name == t)
    sib = {i.name for i in parent.items}
    pos = [i.name for i in parent.items].index(x.name)
    if op["op"] == "remove":
        if len(parent.items) < 2 or (nested and parent.lens):
            return None
        del parent.items[pos]
        got = opt.withRemovedOptic(name)
    else:
        if nested and parent.lens:
            return None
        e = op["e"]
        nm = S.NAMES[e["name"]]
        while nm in sib:
            nm += "'"
        el = S.Node(kind=e["kind"], name=nm, items=None, skip=False,
                    frame=O.Frame(np.array(e["tilt"]+[1.0]), O.rot_list(
                        [["x", e["tilt"][0]]])),
                    surf=e["surf"], n1=x.n1, n2=e.get("n", x.n1) if
                    e["kind"] == "refr" else x.n1, obsc=e.get("obsc"),
                    fc=e.get("fc"), rc=e.get("rc"), screen=None, extra={})
        parent.items.insert(pos, el)
        got = opt.withInsertedOptic(name, S.build(el))
    if nested:
        # recorded finding: silently ignored
        try:
            same_optic(got, nd, msg)
        except AssertionError:
            return got, new
        ctx.known("nested-insert-remove",
                  f"{msg} returns the system unchanged")
        return got, nd
    return got, new


def _use(opt, sysc):
    """What a user does with a system; an edited copy must not remember it."""
    rays = S.make_rays(sysc, n=4, flags=False)
    opt.trace(S.to_rv(rays))
    opt.trace(S.to_rv(rays), reverse=True)
    opt.traceFull(S.to_rv(rays))
    opt.traceFull(S.to_rv(rays), reverse=True)
    out = []
    for rev in (False, True):
        try:
            out.append(opt.traceSplit(S.to_rv(rays), minFlux=0.3,
                                      reverse=rev))
        except (ValueError, AttributeError, NotImplementedError,
                AssertionError) as e:
            out.append(type(e).__name__)
    return out


def _same_split(a, b, msg):
    if isinstance(a, str) or isinstance(b, str):
        require(a == b, f"{msg}: {a!r} or {b!r}")
        return
    for x, y in zip(a, b):
        require([i.path for i in x] == [i.path for i in y],
                f"{msg}: paths {[i.path for i in x]}")
        for i, j in zip(x, y):
            if len(i) != len(j):
                fail(f"{msg}: {len(i)} rays along {i.path}")
            close(i.coordSys.origin, j.coordSys.origin, 1e-9, msg+": origin")
            ok = ~(np.array(i.failed) | np.array(j.failed))
            close(np.array(i.r)[ok], np.array(j.r)[ok], 1e-6, msg+": r",
                  rtol=1e-6)
            close(np.array(i.flux), np.array(j.flux), 1e-9, msg+": flux")


@sub("C23", "history", _edit_case, 4000,
     rule="two or more modifications were applied")
def history(case, ctx):
    nd = _prepare(case)
    opt = S.build(nd)
    hist = [(opt, nd, "original")]
    applied = 0
    used = case["sys"]["rays"]["seed"] % 3 == 0 and case["root"] == 0
    for op in case["ops"]:
        if case["sys"]["rays"]["seed"] % 2:
            # with and without names looked up before
            opt.itemDict, getattr(opt, "_names", None)
        if used:
            _use(opt, case["sys"])
        keep = hash(opt), repr(opt)
        res = _apply(opt, nd, op, ctx)
        if res is None:
            continue
        require((hash(opt), repr(opt)) == keep,
                f"{op['op']}: hash or repr of the original changed")
        opt, nd = res
        lab = f"after {op['op']}"
        same_optic(opt, nd, lab)
        hist.append((opt, nd, lab))
        applied += 1
        ctx.event(op["op"] if op["op"] != "whole" else "whole "+op["w"])
    for o, n, lab in hist:
        same_optic(o, n, lab+", at the end")
        _check_dict(o, n, lab)
    ctx.nt(applied > 1)
    # the edited system traces like the one built from scratch
    els = S.flatten(nd)
    if els and case["root"] == 0:
        rays = S.make_rays(case["sys"], n=6, flags=False)
        stt, _ = S.trace(els, S.State(rays))
        S.compare(opt.trace(S.to_rv(rays)), stt, "trace of the edited system",
                  1e-7)
        back = stt.rays.copy()
        back.v = -back.v
        ok = ~(stt.bad | back.fail | ~np.isfinite(back.r).all(axis=1))
        back.r[~ok], back.v[~ok] = [0.0, 0.0, -1.0], [0.0, 0.0, 1.0]
        back.vig, back.fail = ~ok, ~ok
        st2, _ = S.trace(els, S.State(back), True)
        S.compare(opt.trace(S.to_rv(back), reverse=True), st2,
                  "reverse trace of the edited system", 1e-7)
        if used:
            for got, ref, d in zip(_use(opt, case["sys"]),
                                   _use(S.build(nd), case["sys"]),
                                   ("", " in reverse")):
                _same_split(got, ref, "split trace of the edited system"+d)
            ctx.event("used between the modifications")


@sub("C23", "interface", lambda: st.fixed_dictionaries(dict(
        sys=S.system(S.element(), 1, 1, groups=False), extras=_extras(),
        ops=st.lists(_ops(), min_size=1, max_size=5))), 2000,
     rule="a modification was applied")
def interface(case, ctx):
    """The same on single elements."""
    root = S.expand(case["sys"])
    nd = root.items[0]
    nd.extra = {}
    for i, ex in case["extras"]:
        if "stop" in ex:
            nd.extra["stopSurface"] = S.Node(
                kind="iface", name="stop", items=None, skip=False,
                frame=O.Frame.spec(ex["stop"]["f"]), surf=dict(t="plane"),
                n1=dict(t="const", n=1.0), n2=dict(t="const", n=1.0),
                obsc=None, fc=None, rc=None, screen=None, extra={})
        else:
            nd.extra.update(ex)
    opt = S.build(nd)
    hist = [(opt, nd)]
    n = 0
    for op in case["ops"]:
        new = copy.deepcopy(nd)
        if op["op"] in ("gshift", "lshift", "lrot"):
            op = dict(op, op="whole", w=op["op"])
        if op["op"] == "whole":
            opt, nd = _apply(opt, nd, op, ctx)
        elif op["op"] == "surface":
            new.surf, new.perturbed = op["s"], False
            opt, nd = opt.withSurface(G.build_surface(op["s"])), new
        elif op["op"] == "perturb":
            new.surf = dict(t="sum", items=[nd.surf, op["s"]])
            new.perturbed = True
            opt = opt.withPerturbedSurface(G.build_surface(op["s"]))
            nd = new
        else:
            continue
        n += 1
        hist.append((opt, nd))
    for o, x in hist:
        same_optic(o, x, "element")
    ctx.nt(n > 0)
    ctx.event(nd.kind)


# ------------------------------------------------------------------------ C24

def _check_dict(opt, nd, msg):
    names = S.full_names(nd)
    d = opt.itemDict
    require(set(d) == {nm for nm, _ in names} and len(d) == len(names),
            f"{msg}: itemDict has {sorted(d)}")

    def go(o, prefix):
        nm = prefix+o.name
        require(d[nm] is o, f"{msg}: itemDict[{nm!r}] is another object")
        for i in getattr(o, "items", ()):
            go(i, nm+".")
    go(opt, "")


def _check_names(opt, nd, msg):
    pm = partials(nd)
    amb = 0
    for p, full in pm.items():
        if full is None:
            amb += 1
            _raises(lambda: opt[p], f"{msg}: ambiguous name {p!r} is accepted")
            continue
        toks = full.split(".")
        o = opt
        for t in toks[1:]:
            o = next(i for i in o.items if i.name == t)
        require(opt[p] is o, f"{msg}: [{p!r}] is {opt[p].name!r}, not {full}")
    return amb


@sub("C24", "lookup", lambda: st.fixed_dictionaries(dict(
        sys=S.system(S.element(), 2, 4, groups="mostly"), unique=st.sampled_from(
            [False, False, True]), few=st.sampled_from([0, 1, 2, 4]),
        root=st.integers(0, 3), bad=st.lists(st.text(
            "ML1.0_ aeX", max_size=6), max_size=4),
        ops=st.lists(_ops(), max_size=4))), 3000,
     rule="an element is nested, or names are ambiguous")
def lookup(case, ctx):
    nd = _prepare(case)
    opt = S.build(nd)
    _check_dict(opt, nd, "new system")
    amb = _check_names(opt, nd, "new system")
    pm = partials(nd)
    for b in case["bad"]:
        if b not in pm:
            _raises(lambda: opt[b], f"unknown name {b!r} is accepted")
    depth = max(nm.count(".") for nm, _ in S.full_names(nd))
    hist = [(opt, nd)]
    for op in case["ops"]:
        res = _apply(opt, nd, op, ctx, False) \
            if op["op"] != "unknown" else None
        if res is None:
            continue
        opt, nd = res
        hist.append((opt, nd))
    for o, n in hist:
        _check_dict(o, n, "modified system")
        _check_names(o, n, "modified system")
    # subsystems look up relative to themselves
    for nm, x in S.full_names(nd):
        if x.items is not None:
            _check_names(opt.itemDict[nm], x, f"subsystem {nm}")
    ctx.nt(depth > 1 or amb > 0)
    ctx.event("ambiguous" if amb else "all unambiguous")
    ctx.event(f"depth={depth}")
