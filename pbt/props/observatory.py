"""C35 the Rubin app (sky, telescope and rays follow the controls) and
C36 Zernike pyramid plots.

The app is driven without a browser: its controls are traitlets whose values
are set as a user would, the drawn things are the coordinates of its scatters.
"""
import contextlib
import io
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import batoid

from .. import gens as G
from .. import oracle as O
from ..core import close, fail, require, same, sub

DEG = math.pi/180
LAT, LON = -30.2446, -70.7494


def _app():
    import matplotlib
    matplotlib.use("Agg")
    import batoid.app
    return batoid.app


# ------------------------------------------------------- reference astronomy

def sidereal(jd, lon):
    """Meeus (12.4), degrees."""
    d = jd-2451545.0
    T = d/36525
    # whole days first: keeps the precision of the fraction
    w = math.floor(d)
    turn = 360.98564736629*(d-w)+(0.98564736629*w) % 360
    return (280.46061837+turn+0.000387933*T**2-T**3/38710000+lon) % 360


def altaz_dir(alt, az):
    """(north, west, up)"""
    alt, az = np.asarray(alt)*DEG, np.asarray(az)*DEG
    return np.array([np.cos(alt)*np.cos(az), -np.cos(alt)*np.sin(az),
                     np.sin(alt)])


def eq_dir(ra, dec):
    ra, dec = np.asarray(ra)*DEG, np.asarray(dec)*DEG
    return np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra),
                     np.sin(dec)])


def sky_matrix(lst, lat):
    """Equatorial to (north, west, up)."""
    # the meridian has right ascension lst
    c, s = math.cos(lst*DEG), math.sin(lst*DEG)
    m = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])   # to (meridian, east, pole)
    c, s = math.cos(lat*DEG), math.sin(lat*DEG)
    north = -s*m[0]+c*m[2]
    west = -m[1]
    up = c*m[0]+s*m[2]
    return np.array([north, west, up])


def _shape(v, how):
    if how == "scalar":
        return v[0]
    if how == "2d":
        return np.array([v, v[::-1]])
    return np.array(v)


@sub("C35", "sky", lambda: st.fixed_dictionaries(dict(
        how=st.sampled_from(["scalar", "1d", "2d"]),
        ra=st.lists(st.one_of(G.num(-400, 800), G.num(0, 360, 6),
                              st.sampled_from([0.0, 180.0, 360.0])),
                    min_size=1, max_size=5),
        dec=G.num(-89.9, 89.9), dec2=G.num(-90, 90),
        jd=st.one_of(G.num(2451545, 2470000, 5), G.num(2305447, 2600000, 5),
                     st.sampled_from([2451545.0, 2460676.25])),
        lat=st.one_of(st.just(LAT), G.num(-85, 85)),
        lon=st.one_of(st.just(LON), G.num(-180, 360)))), 1500,
     rule="away from the equator and not at the epoch")
def sky(case, ctx):
    app = _app()
    jd, lat, lon = case["jd"], case["lat"], case["lon"]
    L = app.lst(jd, lon)
    want = sidereal(jd, lon)
    close((L-want+180) % 360-180, 0.0, 1e-5, "sidereal time (degrees)")
    require(0 <= L <= 360, f"sidereal time {L}")
    M = sky_matrix(want, lat)
    ra = _shape(case["ra"], case["how"])
    dec = np.full_like(ra, case["dec"]) if case["how"] != "scalar" \
        else case["dec"]
    alt, az = app.eq_to_az(ra, dec, jd, lat, lon)
    n = np.einsum("ij,j...->i...", M, eq_dir(ra, dec))
    # the arc sine loses digits at the zenith
    close(altaz_dir(alt, az), n, 2e-7, "direction of an equatorial position")
    require(np.all(np.abs(alt) <= 90), "altitude")
    ra2, dec2 = app.az_to_eq(alt, az, jd, lat, lon)
    close(eq_dir(ra2, dec2), eq_dir(ra, dec), 1e-6, "there and back")
    # from the horizon
    ra3, dec3 = app.az_to_eq(dec, ra, jd, lat, lon)
    close(eq_dir(ra3, dec3), np.einsum("ji,j...->i...", M, altaz_dir(dec, ra)),
          3e-7, "equatorial position of a direction")
    close(altaz_dir(*app.eq_to_az(ra3, dec3, jd, lat, lon)),
          altaz_dir(dec, ra), 1e-6, "back and there")
    ctx.nt(abs(lat) > 5 and abs(case["dec"]) > 5 and jd != 2451545.0)
    ctx.event(case["how"])


# ------------------------------------------------------------------- the app

_CACHE = {}


def _fiducial(rtp):
    """The telescope at rest with the camera turned, local to its M1 vertex."""
    if "tel" not in _CACHE:
        _CACHE["tel"] = batoid.Optic.fromYaml("LSST_r_align_holes.yaml")
    return _CACHE["tel"].withLocallyRotatedOptic(
        "LSSTCamera", O.rot_list([["z", rtp*DEG]]))


def _start(app):
    import IPython.display
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: None
    IPython.display.display = lambda *a, **k: None
    a = app.RubinCSApp()
    with contextlib.redirect_stdout(io.StringIO()):
        a.display()
    return a


def _xyz(s):
    return np.array([np.asarray(s.x, float), np.asarray(s.y, float),
                     np.asarray(s.z, float)])


def _motion(alt, az):
    """(R, t) from the telescope at rest to where it points."""
    R = O.rot_list([["z", (90-az)*DEG], ["x", (90-alt)*DEG]])
    c = np.array([0, 0, 5.425])
    return R, R@(np.array([0, 0, 3.53])-c)+c


def _wrap(d):
    return (d+180) % 360-180


AXES = dict(CCS=("CCS",), OCS=("OCS",), ZCS=("ZCS",), EDCS=("EDCS", "sky"),
            DVCS=("DVCS", "sky"))


def _check_cheap(a, m, ctx):
    """Pointing, sky and axes."""
    for k in ("ra", "dec", "alt", "az", "jd", "rtp", "thx", "thy"):
        same(getattr(a, k+"_control").value, getattr(a, k),
             f"the {k} control")
    L = sidereal(a.jd, LON)
    M = sky_matrix(L, LAT)
    d = altaz_dir(a.alt, a.az)
    # (errors add up where the arc sines lose digits)
    close(M@eq_dir(a.ra, a.dec), d, 1e-6,
          "RA/Dec and altitude/azimuth are different directions")
    R, t = _motion(a.alt, a.az)
    tel = a.actual_telescope
    fid = _fiducial(a.rtp)
    for name in ("M1", "LSSTCamera", "Detector"):
        close(tel[name].coordSys.rot, R@fid[name].coordSys.rot, 1e-9,
              f"orientation of {name}")
        close(tel[name].coordSys.origin, R@fid[name].coordSys.origin+t, 1e-8,
              f"position of {name}")
    close(tel["M1"].coordSys.rot[:, 2], d, 1e-9, "pointing")
    # stars and constellations
    app = _app()
    if "stars" not in _CACHE:
        _CACHE["stars"] = np.array(app.get_stars_xyzs(a.maglim)[:3])
        _CACHE["cons"] = np.array(app.get_constellations_xyz())
    for name, s in (("stars", a.stars), ("cons", a.constellations)):
        want = M@_CACHE[name]*15000
        got = _xyz(s)
        if m["horizon"]:
            edge = np.abs(want[2]) < 1e-2
            want[:, want[2] < 0] = np.nan
            got, want = got[:, ~edge], want[:, ~edge]
        close(got, want, 5e-3, f"{name} on the sky")
    # elevation bearings turn with the azimuth
    p = _xyz(a.elevation_bearings)
    p = p[:, np.isfinite(p[0])]
    q = O.rot_list([["z", (90-a.az)*DEG]]).T@p
    dx = np.abs(q[0])
    close(np.minimum(np.abs(dx-4.4), np.abs(dx-4.5)), np.zeros(dx.size), 1e-6,
          "elevation bearings")
    r = np.hypot(q[1], q[2]-5.425)
    close(np.minimum(np.abs(r-1.5), np.abs(r-1.75)), np.zeros(r.size), 1e-6,
          "elevation bearings (radius)")
    # coordinate axes
    Rx, Ry, Rz = (lambda k: lambda v: O.rot_list([[k, v]]))("x"), \
        (lambda k: lambda v: O.rot_list([[k, v]]))("y"), \
        (lambda k: lambda v: O.rot_list([[k, v]]))("z")
    det = R@fid["Detector"].coordSys.rot
    deto = R@fid["Detector"].coordSys.origin+t
    sky = det@Rz(math.pi)
    skyo = sky[:, 2]*15000
    m1 = R@fid["M1"].coordSys.rot
    m1o = R@fid["M1"].coordSys.origin+t
    T = Rz(math.pi/2)@Rx(math.pi)
    want = dict(
        CCS=[(R@fid["LSSTCamera"].coordSys.rot,
              R@fid["LSSTCamera"].coordSys.origin+t)],
        OCS=[(m1, m1o)], ZCS=[(m1@Ry(math.pi), m1o)],
        EDCS=[(det, deto), (sky, skyo)], DVCS=[(det@T, deto), (sky@T, skyo)])
    for name, frames in want.items():
        views = getattr(a, name)
        require(len(views) == 3*len(frames), f"{name}: {len(views)} axes")
        for i, s in enumerate(views):
            require(bool(s.visible) == m[name],
                    f"{name} axis {i}: visible is {s.visible}")
            if not m[name]:
                continue
            rot, o = frames[i//3]
            p = _xyz(s)
            require(p.shape == (3, 2), f"{name} axis {i}: shape {p.shape}")
            close(p[:, 0], o, 1e-5, f"{name} axis {i}: origin")
            u = p[:, 1]-p[:, 0]
            close(u/np.linalg.norm(u), rot[:, i % 3], 1e-6,
                  f"{name} axis {i}: direction")
    require(bool(a.rays.visible) == m["rays"], "visibility of the rays")
    require(bool(a.telescope.visible) == m["telescope"],
            "visibility of the telescope")


def _check_full(a, m, ctx):
    R, t = _motion(a.alt, a.az)
    fid = _fiducial(a.rtp)
    mesh = np.array(fid.get3dmesh())
    close(_xyz(a.telescope), R@mesh+t[:, None], 1e-5, "telescope mesh")
    # focal plane outline, on the detector and on the sky
    p = _xyz(a.fp)
    det = R@fid["Detector"].coordSys.rot
    deto = R@fid["Detector"].coordSys.origin+t
    raft = 0.31527*2/5
    sraft = 15000*0.7*DEG
    n = (p.shape[1]-1)//2
    require(p.shape[1] == 2*n+1 and np.all(np.isnan(p[:, n])),
            f"outline of {p.shape[1]} points")
    q = det.T@(p[:, :n]-deto[:, None])
    s = det.T@p[:, n+1:]
    s[:2] *= -1
    s[2] -= 15000
    same(np.isnan(q), np.isnan(s), "gaps in the two outlines")
    w = ~np.isnan(q[0])
    for b, size, tol, what in ((q, raft, 1e-7, "detector"),
                               (s, sraft, 1e-3, "sky")):
        close(b[2, w], np.zeros(w.sum()), tol, f"{what} outline: plane")
        c = b[:2, w]/size
        close(c, np.round(c-0.5)+0.5, 1e-5, f"{what} outline: raft corners")
        require(np.max(np.abs(c)) < 2.6 and np.all(
            np.min(np.abs(c), axis=0) < 1.6), f"{what} outline: extent")
    close(s[:2, w]/sraft, q[:2, w]/raft, 1e-5, "outlines differ")
    segs = {tuple(np.round(2*np.sort(np.array(
        [q[:2, i]/raft, q[:2, i+1]/raft]), axis=0).ravel()).astype(int))
        for i in range(n-1) if w[i] and w[i+1]}
    exp = set()
    for v in (-5, -3, -1, 1, 3, 5):
        e = 3 if abs(v) == 5 else 5
        exp |= {(-e, v, e, v), (v, -e, v, e)}
    require(segs == exp, f"outline segments {sorted(segs ^ exp)}")
    # rays
    tel = a.actual_telescope
    th = (a.thx*DEG, a.thy*DEG)
    if m["rays"]:
        rv = batoid.RayVector.asFan(
            optic=fid, wavelength=620e-9, theta_x=th[0], theta_y=th[1],
            nx=30, ny=30, lx=8.359, ly=8.359)
        v0, r0 = rv.v.copy(), rv.r.copy()
        cs0 = rv.coordSys
        first = cs0.toGlobal(r0+v0*(-15000-rv.t)[:, None])
        pts = [first]
        for e in fid.traceFull(rv.copy()).values():
            o = e["out"]
            g = o.coordSys.toGlobal(o.r)
            g[o.vignetted] = np.nan
            pts.append(g)
        pts.append(np.full_like(first, np.nan))
        want = np.array(pts).transpose(1, 0, 2).reshape(-1, 3).T
        got = _xyz(a.rays)
        close(got, R@want+t[:, None], 1e-5, "drawn rays")
    # spot and wavefront: those of the telescope at rest
    sysm = fid.withLocallyShiftedOptic("Detector", (0, 0, a.z_offset*1e-3))
    pert = [sysm, fid]
    if abs(m["perturb"]) > 1e-6:
        for i, s_ in enumerate(pert):
            pert[i] = batoid.CompoundOptic(
                (batoid.OPDScreen(
                    batoid.Plane(), batoid.Zernike(
                        [0]*m["noll"]+[m["perturb"]*1e-6], R_outer=4.18,
                        R_inner=0.61*4.18), name="PS",
                    obscuration=batoid.ObscNegation(batoid.ObscCircle(5.0)),
                    coordSys=s_.stopSurface.coordSys), *s_.items),
                name="PS0", backDist=s_.backDist, pupilSize=s_.pupilSize,
                inMedium=s_.inMedium, stopSurface=s_.stopSurface,
                sphereRadius=s_.sphereRadius,
                pupilObscuration=s_.pupilObscuration, coordSys=s_.coordSys)
    rays = batoid.RayVector.asPolar(
        optic=pert[0], wavelength=620e-9, nrad=50, naz=300, theta_x=th[0],
        theta_y=th[1])
    pert[0].trace(rays)
    chief = batoid.RayVector.fromStop(
        0, 0, optic=pert[0], wavelength=620e-9, theta_x=th[0], theta_y=th[1])
    pert[0].trace(chief)
    xy = (rays.r-chief.r[0])[:, :2]*1e6
    vis = ~rays.vignetted
    off = np.ma.getdata(a.spot_scatter.get_offsets())
    shown = np.broadcast_to(a.spot_scatter.get_alpha(), vis.shape) > 0
    # rays at the very edge of the pupil go either way
    ring = np.hypot(*_pupil(fid, th)[:, :2].T)
    inner = ring < ring.max()-1e-6
    outer = ring > ring.min()+1e-6
    close(np.where(inner & outer, shown, vis).astype(float),
          vis.astype(float), 0, "rays shown in the spot diagram")
    if shown.any():
        x = 1.5*np.quantile(np.abs(xy[shown].T), 0.98)
        close(off[shown], (xy/x)[shown], 1e-6+1e-5/x, "spot diagram")
    wf = batoid.wavefront(pert[1], *th, 620e-9, nx=256).array
    got = a.wf_imshow.get_array()[:, ::-1]
    mask = np.ma.getmaskarray(got)
    differ = mask != np.ma.getmaskarray(wf)
    u = np.linspace(-1, 1, 256)
    u, v = np.meshgrid(u, u)
    require(differ.sum() <= 8, f"{differ.sum()} points of the wavefront image "
            "are masked wrongly")
    B = O.zern_basis(22, u[~mask], v[~mask], 1.0, 0.61)
    data = np.ma.getdata(wf)[~mask]
    coef, _, rank, _ = np.linalg.lstsq(B[1:].T, data, rcond=None)
    close(np.ma.getdata(got)[~mask].astype(float), data-coef[:3]@B[1:4], 1e-5,
          "wavefront image")


def _pupil(tel, th):
    """Where the rays of the spot diagram cross the stop."""
    rays = batoid.RayVector.asPolar(
        optic=tel, wavelength=620e-9, nrad=50, naz=300, theta_x=th[0],
        theta_y=th[1])
    s = tel.stopSurface
    return batoid.intersect(s.surface, rays, s.coordSys).r


def _event():
    flag = st.sampled_from(["telescope", "horizon", "rays", "CCS", "OCS",
                            "ZCS", "EDCS", "DVCS"])
    deg = st.one_of(G.num(-180, 360), st.sampled_from([0.0, 90.0, 180.0]))
    return st.one_of(
        st.tuples(st.just("ra"), deg), st.tuples(st.just("dec"), G.num(-89, 89)),
        st.tuples(st.just("alt"), st.one_of(G.num(-89, 89), G.num(20, 89))),
        st.tuples(st.just("az"), deg),
        st.tuples(st.just("jd"), G.num(2451545, 2470000, 5)),
        st.tuples(st.just("flag"), flag), st.tuples(st.just("flag"), flag),
        st.tuples(st.just("rtp"), G.num(-90, 90)),
        st.tuples(st.sampled_from(["thx", "thy"]), G.num(-1.2, 1.2)),
        st.tuples(st.just("z"), G.num(-2, 2)),
        st.tuples(st.just("noll"), st.integers(2, 22)),
        st.tuples(st.just("perturb"), st.one_of(
            G.num(-1, 1), st.just(0.0)))).map(list)


@sub("C35", "app", lambda: st.fixed_dictionaries(dict(
        ev=st.lists(_event(), min_size=1, max_size=9))), 72,
     rule="the telescope moved and a control of another kind was used")
def app_(case, ctx):
    app = _app()
    import matplotlib.pyplot as plt
    a = _start(app)
    try:
        m = dict(telescope=True, horizon=False, rays=True, CCS=False,
                 OCS=False, ZCS=False, EDCS=True, DVCS=False, noll=4,
                 perturb=0.0)
        _check_cheap(a, m, ctx)
        for what, v in case["ev"]:
            old = {k: getattr(a, k) for k in
                   ("ra", "dec", "alt", "az", "jd", "rtp", "thx", "thy",
                    "z_offset")}
            with contextlib.redirect_stdout(io.StringIO()):
                if what == "flag":
                    m[v] = not m[v]
                    getattr(a, v+"_control").value = m[v]
                else:
                    getattr(a, what+"_control").value = v
            if what in ("noll", "perturb"):
                m[what] = v
            new = dict(old)
            if what in ("alt", "az", "ra", "dec"):
                new[what] = v
                if what in ("alt", "az"):
                    close(altaz_dir(a.alt, a.az),
                          altaz_dir(new["alt"], new["az"]), 1e-6,
                          f"direction after setting {what}")
                else:
                    close(eq_dir(a.ra, a.dec), eq_dir(new["ra"], new["dec"]),
                          1e-6, f"direction after setting {what}")
                keep = ("jd", "rtp", "thx", "thy", "z_offset")
            elif what == "jd":
                same(a.jd, v, "jd")
                close([a.alt, _wrap(a.az-old["az"])], [old["alt"], 0.0], 1e-4,
                      "altitude and azimuth after setting the time")
                keep = ("rtp", "thx", "thy", "z_offset")
            else:
                keep = [k for k in old if k != what and not (
                    what == "z" and k == "z_offset")]
                if what in old:
                    same(getattr(a, what), v, what)
                elif what == "z":
                    same(a.z_offset, v, "z offset")
            for k in keep:
                same(getattr(a, k), old[k], f"{k} after setting {what}")
            _check_cheap(a, m, ctx)
        _check_full(a, m, ctx)
    finally:
        plt.close(a._mpl_fig) if hasattr(a, "_mpl_fig") else plt.close("all")
    kinds = {k for k, _ in case["ev"]}
    ctx.nt(bool(kinds & {"ra", "dec", "alt", "az"}) and len(kinds) > 1)
    for k in kinds:
        ctx.event(k)


# ------------------------------------------------------------------------ C36

@sub("C36", "pyramid", lambda: st.fixed_dictionaries(dict(
        jmin=st.sampled_from([4, 4, 1, 2, 3]), n=st.integers(0, 18),
        pts=st.integers(1, 12), seed=G.seeds, vdim=st.sampled_from(
            [None, True, False]), s=st.one_of(st.none(), G.num(0.5, 20)),
        lim=st.one_of(st.none(), st.tuples(G.num(-3, 0), G.num(0.1, 3)).map(
            list)), size=st.one_of(st.none(), st.tuples(
                G.num(6, 20), G.num(6, 12)).map(list)),
        cmap=st.sampled_from([None, "viridis", "gray"]),
        callback=st.booleans(), save=st.booleans(), fig=st.booleans(),
        lists=st.booleans(), dpi=st.sampled_from([None, 50]))), 130,
     rule="at least three radial orders")
def pyramid(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from batoid.plotUtils import zernikePyramid
    jmin = case["jmin"]
    jmax = max(5, jmin)+case["n"]
    rng = np.random.default_rng(case["seed"])
    k = case["pts"]
    xs, ys = rng.uniform(-2, 2, k), rng.uniform(-2, 2, k)
    zs = rng.normal(size=(jmax-jmin+1, k))
    before = [v.copy() for v in (xs, ys, zs)]
    kw = {}
    if case["vdim"] is not None:
        kw["vdim"] = case["vdim"]
    if case["s"] is not None:
        kw["s"] = case["s"]
    if case["lim"]:
        kw["vmin"], kw["vmax"] = case["lim"]
    if case["cmap"]:
        kw["cmap"] = case["cmap"]
    if jmin != 4:
        kw["jmin"] = jmin
    given = None
    if case["fig"]:
        given = kw["fig"] = Figure(figsize=case["size"] or (13, 8))
    else:
        if case["size"]:
            kw["figsize"] = tuple(case["size"])
        if case["dpi"]:
            kw["dpi"] = case["dpi"]
    called = []
    if case["callback"]:
        kw["callback"] = lambda fig, axes: called.append(
            (fig, dict(axes), [ax.get_title() for ax in axes.values()]))
    plt.close("all")
    try:
        with tempfile.TemporaryDirectory() as d:
            if case["save"]:
                kw["filename"] = os.path.join(d, "p.png")
            ax_, ay_ = (list(xs), list(ys)) if case["lists"] else (xs, ys)
            fig = zernikePyramid(ax_, ay_, zs, **kw)
            if case["save"]:
                require(os.path.getsize(kw["filename"]) > 100,
                        "no figure in the file")
    finally:
        plt.close("all")
    for a, b, n in zip((xs, ys, zs), before, ("xs", "ys", "zs")):
        same(a, b, n+" modified")
    if given is not None:
        require(fig is given, "the given figure is not the one returned")
    else:
        close(fig.get_size_inches(), case["size"] or (13, 8), 1e-9,
              "figure size")
        if case["dpi"]:
            same(fig.dpi, 50, "dpi")
    axes = {}
    for ax in fig.axes:
        if ax.get_title():
            require(ax.get_title() not in axes, "two plots of one title")
            axes[ax.get_title()] = ax
    want = [f"Z{j}" for j in range(jmin, jmax+1)]
    require(sorted(axes) == sorted(want), f"plots {sorted(axes)}")
    require(len(fig.axes) == 2*len(want), "one colour bar for each plot")
    if case["callback"]:
        require(len(called) == 1 and called[0][0] is fig, "callback calls")
        require(set(called[0][1]) == set(range(jmin, jmax+1)),
                "axes given to the callback")
        for j, ax in called[0][1].items():
            require(ax is axes[f"Z{j}"], f"axes {j} given to the callback")
    nm = {j: O.noll(j) for j in range(jmin, jmax+1)}
    lo, hi = case["lim"] or (-1, 1)
    pos = {}
    for j, (n, mm) in nm.items():
        ax = axes[f"Z{j}"]
        require(len(ax.collections) == 1, f"Z{j}: {len(ax.collections)} plots")
        c = ax.collections[0]
        same(np.ma.getdata(c.get_offsets()), np.stack([xs, ys], 1),
             f"Z{j}: positions")
        same(np.ma.getdata(c.get_array()), zs[j-jmin], f"Z{j}: values")
        div = max(n, 1) if case["vdim"] is not False else 1
        close(c.get_clim(), (lo/div, hi/div), 1e-12, f"Z{j}: colour limits")
        require(c.get_cmap().name == (case["cmap"] or "seismic"),
                f"Z{j}: colour map")
        close(c.get_sizes(), [case["s"] or 5], 1e-12, f"Z{j}: marker size")
        p = ax.get_position(original=True)
        pos[n, mm] = (p.x0+p.width/2, p.y0+p.height/2)
        same([len(ax.get_xticks()), len(ax.get_yticks())], [0, 0],
             f"Z{j}: ticks")
    # a pyramid: x proportional to m, the orders below one another
    x0, x2 = pos[2, 0][0], pos[2, -2][0]
    pitch = (x0-x2)/2
    require(pitch > 0, "Z5 is not left of Z4")
    for (n, mm), (x, y) in pos.items():
        close(x, x0+pitch*mm, 1e-6, f"({n}, {mm}): horizontal position")
        for (n2, _), (_, y2) in pos.items():
            if n2 == n:
                close(y2, y, 1e-9, f"({n}, {mm}): row")
            elif n2 > n:
                require(y2 < y, f"order {n2} is not below order {n}")
    orders = {n for n, _ in pos}
    ctx.nt(len(orders) >= 3)
    ctx.event(f"{len(orders)} orders")
