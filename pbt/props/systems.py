"""C19 sequential tracing, C20 full and path tracing, C21 split tracing, C22
reversibility."""
import numpy as np
from hypothesis import strategies as st

import batoid
from batoid.optic import getGlobalRays

from .. import gens as G
from .. import oracle as O
from .. import sysgen as S
from .. import tele as T
from ..core import close, fail, require, same, sub


def _check_same_obj(out, rv, msg):
    require(out is rv, f"{msg}: the input rays are not returned")


def _reversed(rays, t=0.0):
    out = rays.copy()
    out.v = -out.v
    out.t = np.full(len(out), t)
    return out


# ------------------------------------------------------------------------ C19

def _sys_case(**kw):
    d = dict(sys=S.system(S.element(), 1, 6), reverse=st.booleans(),
             wide=st.sampled_from([False, False, True]))
    d.update(kw)
    return st.fixed_dictionaries(d)


def _start(case, root, els):
    """Rays for the case: into the front, or back into the end."""
    rays = S.make_rays(case["sys"], radius=1.5 if case.get("wide") else 0.5,
                       ang=0.08 if case.get("wide") else 0.02)
    if not case["reverse"]:
        return rays
    fl = (rays.vig.copy(), rays.fail.copy())
    rays.vig[:] = False
    rays.fail[:] = False
    stt, _ = S.trace(els, S.State(rays))
    out = _reversed(stt.rays)
    with np.errstate(all='ignore'):
        back = 0.3*out.v/np.sqrt(np.sum(out.v**2, axis=-1))[:, None]
    out.r = out.r-back
    lost = stt.bad | stt.rays.fail | ~np.isfinite(out.r).all(axis=1)
    out.r[lost], out.v[lost] = [0.0, 0.0, -1.0], [0.0, 0.0, 1.0]
    out.vig, out.fail = fl[0] | lost, fl[1] | lost
    return out


@sub("C19", "sequence", _sys_case, 4500,
     rule="two or more elements act and a ray is compared at the end")
def sequence(case, ctx):
    root = S.expand(case["sys"])
    els = S.flatten(root)
    rays = _start(case, root, els)
    stt, _ = S.trace(els, S.State(rays), case["reverse"])
    opt = S.build(root)
    rv = S.to_rv(rays)
    out = opt.trace(rv, reverse=case["reverse"])
    _check_same_obj(out, rv, "trace")
    if not els:
        same(np.array(rv.r), rays.r, "empty system: position")
        return
    n = S.compare(out, stt, "trace"+(" reversed" if case["reverse"] else ""))
    ctx.nt(len(els) > 1 and n > 0)
    ctx.event(f"elements={len(els)}")
    for e in els:
        ctx.event(e.kind)
    if len(els) != len(S.flatten(root, True)):
        ctx.event("skipped elements")
    if case["reverse"]:
        ctx.event("reverse")


@sub("C19", "element", lambda: st.fixed_dictionaries(dict(
        sys=S.system(S.element(), 1, 1, groups=False, gskip=False),
        reverse=st.booleans(), method=st.sampled_from(
            ["trace", "interact", "intersect", "named"]))), 3000,
     rule="a ray is compared after the element")
def element(case, ctx):
    """The methods of a single element."""
    root = S.expand(case["sys"])
    nd = root.items[0]
    case = dict(case, wide=True)
    nd.skip = False
    rays = _start(case, root, [nd])
    opt = S.build(nd)
    rv = S.to_rv(rays)
    meth = case["method"]
    mode, ob = "natural", None
    if meth == "trace":
        out = opt.trace(rv, reverse=case["reverse"])
        ob = nd.obsc
    elif meth == "interact":
        out = opt.interact(rv, reverse=case["reverse"])
    elif meth == "intersect":
        out = opt.intersect(rv, reverse=case["reverse"])
        mode = "pass"
    elif nd.kind == "mirror":
        out = opt.reflect(rv, reverse=case["reverse"])
    elif nd.kind in ("refr", "screen"):
        out = opt.refract(rv, reverse=case["reverse"])
    else:
        return
    _check_same_obj(out, rv, meth)
    keep = nd.obsc
    nd.obsc = ob
    stt = S.act(nd, S.State(rays), mode, case["reverse"])
    nd.obsc = keep
    n = S.compare(out, stt, f"{nd.kind}.{meth}")
    ctx.nt(n > 0)
    ctx.event(f"{nd.kind}.{meth}")


@sub("C19", "telescopes", lambda: st.fixed_dictionaries(dict(
        file=T.files(), seed=G.seeds,
        amp=st.sampled_from([0.0, 0.0, 1e-4, 1e-3]),
        field=st.lists(G.num(-0.008, 0.008, 4), min_size=2, max_size=2),
        reverse=st.booleans(), frame=st.one_of(st.none(), G.frame(5.0, 2)))),
     400, rule="rays reach the end of the telescope unvignetted")
def telescopes(case, ctx):
    nd = T.node(case["file"])
    if case["amp"] > 0:
        nd = T.misaligned(nd, case["seed"], case["amp"])
        opt = S.build(nd)
    else:
        opt = T.optic(case["file"])
    els = S.flatten(nd)
    fr = O.Frame.spec(case["frame"]) if case["frame"] is not None else None
    rays = T.pupil_rays(nd, case["seed"], 60, case["field"], 1.05, True, fr)
    stt, _ = S.trace(els, S.State(rays), start=False)
    rv = S.to_rv(rays)
    out = opt.trace(rv)
    _check_same_obj(out, rv, "trace")
    n = S.compare(out, stt, case["file"], 1e-8)
    if case["reverse"]:
        back = _reversed(stt.rays)
        lost = stt.bad | stt.rays.fail
        back.r[lost], back.v[lost] = [0.0, 0.0, -1.0], [0.0, 0.0, 1.0]
        back.fail = back.fail | lost
        back.vig = back.vig | lost
        st2, _ = S.trace(els, S.State(back), True, start=False)
        out = opt.trace(S.to_rv(back), reverse=True)
        S.compare(out, st2, case["file"]+" reversed", 1e-7)
    ctx.nt(n > 0 and bool((~stt.rays.vig & ~stt.bad).any()))
    ctx.event(case["file"].split("/")[0])


# ------------------------------------------------------------------------ C20

def _arr_same(a, b, msg, frames=True):
    """Two batoid bundles hold the same rays."""
    if frames:
        close(a.coordSys.origin, b.coordSys.origin, 1e-12, msg+": origin")
        close(a.coordSys.rot, b.coordSys.rot, 1e-12, msg+": rot")
    same(a.wavelength, b.wavelength, msg+": wavelength")
    same(a.vignetted, b.vignetted, msg+": vignetted")
    same(a.failed, b.failed, msg+": failed")
    ok = ~np.array(a.failed)
    for k in ("r", "v", "t", "flux"):
        close(np.array(getattr(a, k))[ok], np.array(getattr(b, k))[ok], 1e-11,
              f"{msg}: {k}", rtol=1e-11)


def _unmodified(rv, rays, msg):
    for k, f in (("r", "r"), ("v", "v"), ("t", "t"), ("w", "wavelength"),
                 ("f", "flux"), ("vig", "vignetted"), ("fail", "failed")):
        same(getattr(rv, f), getattr(rays, k), f"{msg}: input {f} modified")
    close(rv.coordSys.origin, rays.frame.o, 1e-12, msg+": input coordSys")
    close(rv.coordSys.rot, rays.frame.rot, 1e-12, msg+": input coordSys")


def _named(case):
    """A system whose elements have different names, names that only differ by
    their groups, or none."""
    root = S.expand(case["sys"], case["names"] == "unique")
    if case["names"] == "none":
        for e in S.flatten(root, True):
            e.name = None
    return root


def _keys(names, keys):
    """A record for every element, under its name the first time."""
    require(len(keys) == len(names),
            f"traceFull visits {keys} instead of {names}")
    for i, (n, k) in enumerate(zip(names, keys)):
        require(k == n if n not in names[:i] else str(k).startswith(str(n)),
                f"traceFull visits {keys} instead of {names}")


NAMING = st.sampled_from(["unique", "unique", "shared", "none"])


@sub("C20", "full", lambda: _sys_case(names=NAMING), 3500,
     rule="two or more elements act and a ray is compared at the end")
def full(case, ctx):
    root = _named(case)
    els = S.flatten(root)
    rays = _start(case, root, els)
    rev = case["reverse"]
    stt, hist = S.trace(els, S.State(rays), rev)
    opt = S.build(root)
    rv = S.to_rv(rays)
    tf = opt.traceFull(rv, reverse=rev)
    _unmodified(rv, rays, "traceFull")
    names = [h[0].name for h in hist]
    _keys(names, list(tf))
    recs = list(tf.values())
    plain = opt.trace(S.to_rv(rays), reverse=rev)
    if not els:
        return
    _arr_same(recs[-1]["out"], plain, "last output and plain trace")
    prev = rv
    for (e, before, after), (k, d) in zip(hist, tf.items()):
        require(set(d) == {"name", "in", "out"}, f"keys {sorted(d)} at {k}")
        require(d["name"] == e.name, f"name {d['name']} at {k}")
        _arr_same(d["in"], prev, f"input of {k}")
        S.compare(d["out"], after, f"output of {k}")
        prev = d["out"]
    n = int((~stt.bad & ~stt.rays.fail).sum())
    # a later trace from a recorded bundle does not change the record
    i = case["sys"]["rays"]["seed"] % len(names)
    keep = O.Rays.of(recs[i]["out"])
    nxt = recs[i]["out"].copy()
    opt.trace(nxt)
    _unmodified(recs[i]["out"], keep, "record")
    ctx.nt(len(els) > 1 and n > 0)
    ctx.event(f"elements={len(els)}")


def _path_case():
    el = S.element(kinds=("refr", "refr", "baffle", "mirror", "iface",
                          "screen"), coat=False)
    return st.fixed_dictionaries(dict(
        sys=S.system(el, 2, 5), turns=st.lists(st.integers(0, 9), max_size=4),
        first=st.integers(0, 2), single=st.sampled_from([0]*11+[1]), dotted=st.lists(st.integers(0, 3),
                                                 max_size=8)))


def _walk(n, first, turns):
    """Indices visited: forward from `first`, turning around at the chosen
    elements, ending at either end of the system."""
    first = min(first, n-2)
    seq, pos, d = [first], first, 1
    lo = first
    for t in turns:
        if d > 0:
            if pos >= n-1:
                break
            target = pos+1+t % (n-1-pos)
        else:
            if pos <= lo:
                break
            target = lo+t % (pos-lo)
        seq.extend(range(pos+d, target+d, d))
        pos, d = target, -d
    end = n-1 if d > 0 else lo
    seq.extend(range(pos+d, end+d, d))
    return seq


@sub("C20", "path", _path_case, 3000,
     rule="the path turns around at least once and a ray is compared at its "
          "end")
def path(case, ctx):
    root = S.expand(case["sys"])
    els = S.flatten(root, True)       # elements in a path are never skipped
    if len(els) < 2:
        return
    seq = _walk(len(els), case["first"], case["turns"])
    if case["single"]:
        seq = seq[:1]      # what traceSplit records for a direct reflection
    elif len(seq) < 2:
        return
    names = _lookup_names(root, els, case["dotted"])
    pnames = [names[i] for i in seq]
    # reference: forward and backward passes, reflecting at the turns
    rays = S.make_rays(case["sys"])
    stt = S.State(rays)
    # bring the rays to the first element of the path: through those before it
    for e in els[:seq[0]]:
        stt = S.act(e, stt, "natural")
    lost = stt.bad | stt.rays.fail
    if lost.all():
        return
    rays = stt.rays.take(~lost)
    stt = S.State(rays)
    states, rev, turns = [], False, 0
    for k, i in enumerate(seq):
        turn = k+1 < len(seq) and (seq[k+1] < i) != rev
        turn |= len(seq) == 1
        new = S.act(els[i], stt, "reflect" if turn else "natural", rev)
        states.append((els[i], stt, new, turn))
        if turn:
            rev = not rev
            turns += 1
        stt = new
    opt = S.build(root)
    rv = S.to_rv(rays)
    out = opt.trace(rv, path=pnames)
    _check_same_obj(out, rv, "trace")
    n = S.compare(out, stt, f"trace along {pnames}")
    rv = S.to_rv(rays)
    tf = opt.traceFull(rv, path=pnames)
    _unmodified(rv, rays, "traceFull with a path")
    count = {}
    keys = []
    for i in seq:
        nm = els[i].name
        keys.append(f"{nm}_{count.get(nm, 0)}")
        count[nm] = count.get(nm, 0)+1
    require(list(tf) == keys, f"traceFull keys {list(tf)} instead of {keys}")
    prev = rv
    for k, (e, before, after, turn) in zip(keys, states):
        d = tf[k]
        require(d["name"] == e.name, f"name {d['name']} at {k}")
        _arr_same(d["in"], prev, f"path: input of {k}")
        S.compare(d["out"], after, f"path: output of {k}")
        prev = d["out"]
    _arr_same(prev, out, "path: last output and plain trace")
    ctx.nt(turns > 0 and n > 0)
    ctx.event(f"turns={turns}")


def _lookup_names(root, els, pick):
    """For every element one of its names, by choice short or dotted."""
    out = []
    full = {id(nd): nm for nm, nd in S.full_names(root)}
    for k, e in enumerate(els):
        nm = full[id(e)]
        toks = nm.split(".")
        c = pick[k % len(pick)] if pick else 0
        if c == 0:
            out.append(e.name)       # names are unique in the whole tree
        else:
            out.append(".".join(toks[-min(c+1, len(toks)):]))
    return out


@sub("C20", "vertices", lambda: _sys_case(
        gs=st.one_of(st.none(), G.frame(4.0, 2)), ab=st.tuples(
            st.integers(0, 9), st.integers(0, 9)).map(list),
        names=st.sampled_from(["unique", "shared"]),
        none=st.integers(0, 3)), 2500,
     rule="three or more surfaces and a ray that is vignetted on the way or "
          "passes all")
def vertices(case, ctx):
    root = _named(case)
    els = S.flatten(root)
    if not els:
        return
    rays = _start(case, root, els)
    opt = S.build(root)
    tf = opt.traceFull(S.to_rv(rays), reverse=case["reverse"])
    names = list(tf)
    a, b = sorted(i % len(names) for i in case["ab"])
    kw = {}
    if case["none"] & 1:
        a = 0
    else:
        kw["start"] = names[a]
    if case["none"] & 2:
        b = len(names)-1
    else:
        kw["end"] = names[b]
    gf = O.Frame.spec(case["gs"]) if case["gs"] is not None else O.Frame()
    if case["gs"] is not None:
        kw["globalSys"] = S.make_cs(gf)
    xyz, raylen = getGlobalRays(tf, **kw)
    n, m = len(rays), b-a+1
    require(np.shape(xyz) == (n, 3, m+1), f"shape of vertices {np.shape(xyz)}")
    require(np.shape(raylen) == (n,), f"shape of raylen {np.shape(raylen)}")
    bundles = [tf[names[a]]["in"]]+[tf[k]["out"] for k in names[a:b+1]]
    count = np.ones(n, int)
    for j, rv in enumerate(bundles):
        f = O.Frame(rv.coordSys.origin, rv.coordSys.rot)
        p = gf.to_local(f.to_global(np.array(rv.r)))
        ok = ~np.array(rv.failed)
        close(xyz[ok, :, j], p[ok], 1e-10, f"vertex {j}")
        if j > 0:
            count += ~np.array(rv.vignetted)
    same(raylen, count, "number of vertices before vignetting")
    for bad in (dict(start="no such"), dict(end="no such")):
        try:
            getGlobalRays(tf, **bad)
        except ValueError:
            continue
        fail(f"getGlobalRays accepts {bad}")
    if len(names) > 1:
        try:
            getGlobalRays(tf, start=names[1], end=names[0])
        except ValueError:
            pass
        else:
            fail("getGlobalRays accepts an end before the start")
    ctx.nt(len(names) > 2 and n > 0)
    ctx.event(f"surfaces={m}")


# ------------------------------------------------------------------------ C21

def _split_case():
    R = G.num(0.2, 0.6)
    coat = st.one_of(
        G.builds(lambda r, t: [r, t], R, G.num(0.4, 1)),
        G.builds(lambda r: [r, 1-r], R),
        G.builds(lambda r: [r, 1-r], R),
        st.sampled_from([None, [0.0, 1.0], [0.05, 0.9]]))
    kinds = ("refr", "refr", "refr", "refr", "mirror", "baffle", "screen")
    el = st.one_of(*[S.element(kinds, coat=False, obsc=False,
                               tilt=0.03)]*3,
                   S.element(kinds, coat=False))

    def put(e, fc, rc):
        e = dict(e)
        if e["kind"] in ("refr", "baffle"):
            e["fc"], e["rc"] = fc, rc
        if e["kind"] == "mirror":
            # (reflectivity, transmissivity)
            e["fc"] = fc[::-1] if fc else None
            e["rc"] = rc[::-1] if rc else None
        if e["kind"] == "screen":
            e.pop("fc", None)
            e.pop("rc", None)
        return {k: v for k, v in e.items() if v is not None}
    el = G.builds(put, el, coat, coat)
    return st.fixed_dictionaries(dict(
        sys=S.system(el, 2, 4), reverse=st.booleans(),
        det=st.one_of(st.none(), S.element(kinds=("det",), coat=False,
                                           skip=False)),
        detc=coat, minFlux=st.sampled_from([0.02, 0.05, 0.15, 1e-2])))


DEFAULT = dict(mirror=[1.0, 0.0], refr=[0.0, 1.0], baffle=[0.0, 1.0],
               det=[0.0, 1.0])


def _split_reference(els, rays, minFlux, reverse, limit=400):
    """All paths: {(direction, names): State}.  Returns None if there are too
    many."""
    n = len(els)
    out = {}
    work = [(S.State(rays), (), reverse, n-1 if reverse else 0)]
    steps = 0
    while work:
        stt, names, rev, i = work.pop()
        steps += 1
        if steps > limit:
            return None
        e = els[i]
        names = names+(e.name,)
        if e.kind == "screen":
            branches = [("natural", 1.0, rev)]
        else:
            if e.kind == "det":
                c = e.fc
            else:
                c = e.fc if rev else e.rc
            if c is None:
                c = DEFAULT[e.kind]
            if e.kind == "mirror":
                branches = [("reflect", c[0], rev)]
            elif e.kind == "baffle":
                branches = [("pass", c[1], rev)]
            else:
                # a detector transmits by refraction between its media
                branches = [("refract", c[1], rev),
                            ("reflect", c[0], not rev)]
        for mode, coef, rv in branches:
            new = S.act(e, stt, mode, rev)
            new.rays.f = new.rays.f*coef
            with np.errstate(all='ignore'):
                new.bad |= ~new.rays.vig & (
                    np.abs(new.rays.f-minFlux) < 1e-9*minFlux)
            drop = (new.rays.vig | ~(new.rays.f >= minFlux)) & ~new.bad
            # a ray the code may keep or drop is kept here, but stays `bad`
            new = S.State(new.rays.take(~drop), new.bad[~drop])
            # bad rays that are certainly below the threshold
            low = new.rays.f < minFlux*(1-1e-6)
            new = S.State(new.rays.take(~low), new.bad[~low])
            # nothing is known about rays once they are bad: follow them for
            # their label only
            if len(new.rays) == 0:
                continue
            if not rv and i == n-1:
                out[("forward", names)] = new
            elif rv and i == 0:
                out[("reverse", names)] = new
            else:
                work.append((new, names, rv, i+1 if not rv else i-1))
    return out


def _label(rays):
    """Give every ray its own wavelength, to recognise it by."""
    rays.w = 500e-9*(1+np.arange(len(rays))*1e-7)
    return rays


@sub("C21", "split", _split_case, 3000,
     rule="three or more paths leave the system")
def split(case, ctx):
    sysc = dict(case["sys"])
    det = case["det"]
    if det is not None and not case["reverse"]:
        det = dict(det)
        if case["detc"] is not None:
            det["fc"] = case["detc"]
        sysc["items"] = list(sysc["items"])+[det]
    root = S.expand(sysc)
    els = S.flatten(root)
    rays = _start(dict(sys=sysc, reverse=case["reverse"]), root, els)
    # directions and media: recompute the speeds for the labels' wavelengths
    sp = np.sqrt(np.sum(rays.v**2, axis=-1))
    m = root.n2 if case["reverse"] else root.n1
    d = rays.v/np.where(sp > 0, sp, 1)[:, None]
    rays = _label(rays)
    rays.v = d/O.index(m, rays.w)[:, None]
    rays.f = np.where(rays.f > 0, rays.f, 1.0)
    opt = S.build(root)
    rv = S.to_rv(rays)
    start = rv.copy()
    ref = _split_reference(els, rays, case["minFlux"], case["reverse"]) \
        if els else None
    if els and ref is None:
        ctx.event("too many paths")
        return
    fwd, back = opt.traceSplit(rv, minFlux=case["minFlux"],
                               reverse=case["reverse"])
    if not els:
        return
    seen = set()
    good = 0
    nms = [e.name for e in S.flatten(root, True)]
    retrace = not case["reverse"] and len(els) > 1 and \
        len(set(nms)) == len(nms)
    first = {w: i for i, w in enumerate(rays.w)}
    for name, lst in (("forward", fwd), ("reverse", back)):
        for b in lst:
            key = (name, tuple(b.path))
            require(key not in seen, f"path {key} is returned twice")
            seen.add(key)
            require(len(b) > 0, f"empty bundle for {key}")
            require(not np.any(b.vignetted), f"vignetted rays along {key}")
            require(bool(np.all(np.array(b.flux) >= case["minFlux"])),
                    f"rays below the threshold along {key}: {b.flux}")
            if key not in ref:
                fail(f"a bundle is returned for path {key}, which no ray "
                     "survives")
            stt = ref[key]
            idx = {w: i for i, w in enumerate(stt.rays.w)}
            for w in b.wavelength:
                require(w in idx, f"{key}: ray {w} should not survive")
            got = {w: j for j, w in enumerate(b.wavelength)}
            require(len(got) == len(b), f"{key}: a ray appears twice")
            ok = [i for i, w in enumerate(stt.rays.w) if not stt.bad[i]]
            for i in ok:
                require(stt.rays.w[i] in got,
                        f"{key}: ray {stt.rays.w[i]} is missing")
            if ok:
                sel = [got[stt.rays.w[i]] for i in ok]
                S.compare(b[np.array(sel)], S.State(stt.rays.take(ok)),
                          f"rays along {key}")
                good += 1
                if retrace:
                    # the recorded path can be traced by itself
                    w0 = [first[stt.rays.w[i]] for i in ok]
                    again = opt.trace(start[np.array(w0)], path=list(b.path))
                    bb = b[np.array(sel)]
                    tf = opt.traceFull(start[np.array(w0)], path=list(b.path))
                    _arr_same(list(tf.values())[-1]["out"], again,
                              f"traceFull and trace along path {key}")
                    same(np.array(again.vignetted), np.zeros(len(ok), bool),
                         f"vignetting of a trace along path {key}")
                    require(again.coordSys == bb.coordSys,
                            f"coordinate system of a trace along {key}")
                    for f, t in (("r", 1e-9), ("v", 1e-9), ("t", 1e-9)):
                        close(np.array(getattr(again, f)),
                              np.array(getattr(bb, f)), t,
                              f"{f} of a trace along path {key}")
    for key, stt in ref.items():
        if key not in seen and not stt.bad.all():
            fail(f"no bundle for path {key}, which {(~stt.bad).sum()} rays "
                 "survive")
    ctx.nt(good > 2)
    ctx.event(f"paths={min(len(seen), 20)}")


@sub("C21", "telescopes", lambda: st.fixed_dictionaries(dict(
        file=st.sampled_from([f for f in T.PLAIN if "LSST_" in f
                              or "HSC" in f or "DECam" in f]),
        seed=G.seeds, R=st.sampled_from([0.02, 0.05, 0.1]),
        field=st.lists(G.num(-0.01, 0.01, 4), min_size=2, max_size=2),
        minFlux=st.sampled_from([3e-3, 1e-3, 3e-4]))), 60,
     rule="at least three paths beyond the direct one reach the detector")
def split_telescopes(case, ctx):
    """Ghosts of a shipped telescope with imperfectly coated refractive
    surfaces."""
    nd = T.node(case["file"])
    import copy
    nd = copy.deepcopy(nd)
    rng = np.random.default_rng(case["seed"])

    def coat(n):
        if n.items is not None:
            for i in n.items:
                coat(i)
        elif n.kind == "refr":
            r = case["R"]*rng.uniform(0.3, 1.0)
            n.fc = [r, 1-r]
            r = case["R"]*rng.uniform(0.3, 1.0)
            n.rc = [r, 1-r]
        elif n.kind == "det":
            n.fc = [case["R"], 1-case["R"]]
        elif n.kind == "mirror":
            n.fc = [0.95, 0.0]
            n.rc = [0.9, 0.0]
    coat(nd)
    els = S.flatten(nd)
    if any(e.kind == "iface" for e in els):
        return     # no split defined for a plain interface
    rays = T.pupil_rays(nd, case["seed"], 8, case["field"])
    rays = _label(rays)
    rays.v = rays.v/np.sqrt(np.sum(rays.v**2, axis=-1))[:, None] \
        / O.index(nd.n1, rays.w)[:, None]
    rays.f[:] = 1.0
    ref = _split_reference(els, rays, case["minFlux"], False, limit=6000)
    if ref is None:
        ctx.event("too many paths")
        return
    opt = S.build(nd)
    fwd, back = opt.traceSplit(S.to_rv(rays), minFlux=case["minFlux"])
    seen = {}
    for name, lst in (("forward", fwd), ("reverse", back)):
        for b in lst:
            key = (name, tuple(b.path))
            require(key not in seen, f"path {key} is returned twice")
            seen[key] = b
    good = 0
    for key, stt in ref.items():
        ok = np.flatnonzero(~stt.bad)
        if key not in seen:
            require(len(ok) == 0, f"no bundle for path {key}")
            continue
        b = seen[key]
        got = {w: j for j, w in enumerate(b.wavelength)}
        for i in ok:
            require(stt.rays.w[i] in got, f"{key}: a ray is missing")
        if len(ok):
            sel = np.array([got[stt.rays.w[i]] for i in ok])
            S.compare(b[sel], S.State(stt.rays.take(ok)), f"rays along {key}",
                      1e-7)
            good += 1
    for key in seen:
        require(key in ref, f"a bundle is returned for path {key}")
    ctx.nt(good > 3)
    ctx.event(f"paths={min(len(seen)//10*10, 200)}+")


# ------------------------------------------------------------------------ C22

def _rev_case():
    el = S.element(kinds=("refr", "refr", "refr", "mirror", "mirror",
                          "baffle", "iface"), coat=False, tilt=0.2)
    return st.fixed_dictionaries(dict(
        sys=S.system(el, 1, 6), wide=st.booleans(), t0=G.num(-3, 3),
        gap=G.num(0, 2)))


def _line_close(rv, r0, d0, msg, tol, ok):
    """Rays of rv (global) lie on the lines r0 + s d0 and run along -d0."""
    f = O.Frame(rv.coordSys.origin, rv.coordSys.rot)
    r = f.to_global(np.array(rv.r))[ok]
    v = f.vec_to_global(np.array(rv.v))[ok]
    v = v/np.sqrt(np.sum(v*v, axis=-1))[:, None]
    close(v, -d0[ok], tol, msg+": direction")
    dr = r-r0[ok]
    perp = dr-np.sum(dr*d0[ok], axis=-1)[:, None]*d0[ok]
    close(perp, 0*perp, tol, msg+": distance from the original line")


def _there_and_back(opt, rays, ok, ctx, msg, t0=0.0, gap=0.0, tol=3e-8):
    """rays: reference Rays into the front.  ok: well-conditioned rays."""
    f0 = rays.frame
    g0 = f0.to_global(rays.r)
    d0 = f0.vec_to_global(rays.v)
    d0 = d0/np.sqrt(np.sum(d0*d0, axis=-1))[:, None]
    tf = opt.traceFull(S.to_rv(rays))
    names = list(tf)
    if not names:
        return 0
    last = tf[names[-1]]["out"]
    r, v = np.array(last.r), np.array(last.v)
    t = np.full(len(rays), t0)
    r = r+v*gap            # start somewhere behind the last surface
    tin = np.array(last.t)+gap
    good = ok & ~np.array(last.vignetted)
    bad = ~np.isfinite(r).all(axis=1) | ~good
    r[bad], v[bad] = [0.0, 0.0, -1.0], [0.0, 0.0, 1.0]
    m = O.Rays(r, -v, t, rays.w, rays.f, bad.copy(), bad.copy(),
               O.Frame(last.coordSys.origin, last.coordSys.rot))
    tb = opt.traceFull(S.to_rv(m), reverse=True)
    require(list(tb) == names[::-1],
            f"{msg}: visited {list(tb)} on the way back")
    end = tb[names[0]]["out"]
    # trace without the history: same rays, up to the final frame
    pl = opt.trace(S.to_rv(m), reverse=True)
    same(np.array(pl.vignetted)[good], np.array(end.vignetted)[good],
         f"{msg}: vignetting after trace(reverse=True)")
    fp = O.Frame(pl.coordSys.origin, pl.coordSys.rot)
    fq = O.Frame(end.coordSys.origin, end.coordSys.rot)
    _line_close(pl, fq.to_global(np.array(end.r)),
                d0, f"{msg}: trace(reverse=True)", tol, good)
    close(np.array(pl.t)[good], np.array(end.t)[good], tol,
          f"{msg}: optical path after trace(reverse=True)")
    lost = good & np.array(end.vignetted)
    if lost.any():
        fail(f"{msg}: ray {np.argmax(lost)} is lost on the way back")
    _line_close(end, g0, d0, msg+", back at the front", tol, good)
    # optical path between the surfaces
    for k in names:
        a = tf[k]["out"]
        b = tb[k]["out"]
        fa = O.Frame(a.coordSys.origin, a.coordSys.rot)
        fb = O.Frame(b.coordSys.origin, b.coordSys.rot)
        close(fb.to_global(np.array(b.r))[good],
              fa.to_global(np.array(a.r))[good], tol, f"{msg}: point on {k}")
        close((np.array(b.t)-t0)[good], (tin-np.array(a.t))[good], tol,
              f"{msg}: optical path between {k} and the end")
    # all the way to the start
    out = end.copy().propagate(float(np.max(np.array(end.t)))+1.0)
    T1 = np.array(out.t)
    fe = O.Frame(out.coordSys.origin, out.coordSys.rot)
    p = fe.to_global(np.array(out.r))
    vv = fe.vec_to_global(np.array(out.v))
    # position at the time equal to the forward travel time
    dt = (tin-rays.t)+t0-T1
    close((p+vv*dt[:, None])[good], g0[good], tol, msg+": back at the start")
    return int(good.sum())


@sub("C22", "system", _rev_case, 4000,
     rule="two or more elements act and a ray makes it there and back")
def reversible(case, ctx):
    root = S.expand(case["sys"])
    els = S.flatten(root)
    rays = S.make_rays(case["sys"], radius=1.2 if case["wide"] else 0.5,
                       ang=0.1 if case["wide"] else 0.02, flags=False)
    stt, hist = S.trace(els, S.State(rays))
    ok = ~stt.bad & ~stt.rays.fail
    # also on the way back the rays must stay in the well-behaved region
    back = _reversed(stt.rays)
    back.r = back.r+stt.rays.v*case["gap"]
    back.r[~ok], back.v[~ok] = [0.0, 0.0, -1.0], [0.0, 0.0, 1.0]
    if els:
        st2, _ = S.trace(els, S.State(back), True)
        ok &= ~st2.bad
    n = _there_and_back(S.build(root), rays, ok, ctx, "system", case["t0"],
                        case["gap"])
    ctx.nt(len(els) > 1 and n > 0)
    ctx.event(f"elements={len(els)}")


@sub("C22", "telescopes", lambda: st.fixed_dictionaries(dict(
        file=T.files(), seed=G.seeds,
        amp=st.sampled_from([0.0, 1e-4, 1e-3]),
        field=st.lists(G.num(-0.008, 0.008, 4), min_size=2, max_size=2),
        gap=st.sampled_from([0.0, 1e-3, 0.02]))), 250,
     rule="rays make it through the telescope and back")
def reversible_telescopes(case, ctx):
    nd = T.node(case["file"])
    if case["amp"] > 0:
        nd = T.misaligned(nd, case["seed"], case["amp"])
        opt = S.build(nd)
    else:
        opt = T.optic(case["file"])
    rays = T.pupil_rays(nd, case["seed"], 40, case["field"])
    n = _there_and_back(opt, rays, np.ones(40, bool), ctx, case["file"],
                        0.3, case["gap"])
    ctx.nt(n > 0)
    ctx.event(case["file"].split("/")[0])
