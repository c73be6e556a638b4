"""Independent reader of optical system descriptions (the YAML format of
batoid/data), producing the reference tree of sysgen."""
import glob
import os

import numpy as np
import yaml

from . import oracle as O
from .sysgen import Node

VACUUM = dict(t="const", n=1.0)


def surface(c):
    t = c["type"]
    if t == "Plane":
        return dict(t="plane")
    if t == "Tilted":
        return dict(t="tilted", tx=c["tanx"], ty=c["tany"])
    if t == "Paraboloid":
        return dict(t="parab", R=c["R"])
    if t == "Sphere":
        return dict(t="sphere", R=c["R"])
    if t == "Quadric":
        return dict(t="quadric", R=c["R"], k=c["conic"])
    if t == "Asphere":
        return dict(t="asphere", R=c["R"], k=c["conic"],
                    coefs=[float(a) for a in c["coefs"]], imin=c.get("imin", 2))
    if t == "Zernike":
        return dict(t="zernike", coef=[float(a) for a in c["coef"]], Ro=c.get("R_outer", 1.0),
                    Ri=c.get("R_inner", 0.0), x0=c.get("x_origin", 0.0),
                    y0=c.get("y_origin", 0.0))
    if t == "Sum":
        return dict(t="sum", items=[surface(i) for i in c["items"]])
    raise ValueError(t)


def medium(c):
    if isinstance(c, (int, float)):
        return dict(t="const", n=float(c))
    t = c["type"]
    if t == "ConstMedium":
        return dict(t="const", n=c["n"])
    if t == "TableMedium":
        return dict(t="table", w=list(c["wavelengths"]), n=list(c["ns"]))
    if t == "SellmeierMedium":
        return dict(t="sellmeier",
                    c=[c[k] for k in ("B1", "B2", "B3", "C1", "C2", "C3")])
    if t == "SumitaMedium":
        return dict(t="sumita", c=[c[f"A{i}"] for i in range(6)])
    if t == "Air":
        out = dict(t="air")
        for k, s in (("pressure", "p"), ("temperature", "T"),
                     ("h2o_pressure", "h")):
            if k in c:
                out[s] = c[k]
        return out
    raise ValueError(t)


def obsc(c):
    t = c["type"]
    x, y = c.get("x", 0.0), c.get("y", 0.0)
    if t.startswith("Clear"):
        return dict(t="not", item=obsc(dict(c, type="Obsc"+t[5:])))
    if t == "ObscCircle":
        return dict(t="circle", r=c["radius"], x=x, y=y)
    if t == "ObscAnnulus":
        return dict(t="annulus", ri=c["inner"], ro=c["outer"], x=x, y=y)
    if t == "ObscRectangle":
        return dict(t="rect", w=c["width"], h=c["height"], x=x, y=y,
                    th=c.get("theta", 0.0))
    if t == "ObscRay":
        return dict(t="ray", w=c["width"], th=c["theta"], x=x, y=y)
    if t == "ObscPolygon":
        return dict(t="polygon", xs=list(c["xs"]), ys=list(c["ys"]))
    if t == "ObscNegation":
        return dict(t="not", item=obsc(c["original"]))
    if t in ("ObscUnion", "ObscIntersection"):
        return dict(t="or" if t == "ObscUnion" else "and",
                    items=[obsc(i) for i in c["items"]])
    raise ValueError(t)


def frame(c, f):
    """Shifts and rotations in the written order, each in the frame reached so
    far."""
    o, rot = np.array(f.o, float), np.array(f.rot, float)
    for k, v in c.items():
        if k in ("x", "y", "z"):
            o = o+rot[:, "xyz".index(k)]*v
        elif k == "shift":
            o = o+rot@np.array(v, float)
        elif k in ("rotX", "rotY", "rotZ"):
            rot = rot@O.rot_axis(k[3].lower(), v)
    return O.Frame(o, rot)


KIND = dict(Mirror="mirror", RefractiveInterface="refr", Baffle="baffle",
            Detector="det", Interface="iface", OPDScreen="screen")
EXTRA = ("backDist", "sphereRadius", "pupilSize", "pupilObscuration",
         "R_outer", "R_inner")


def read(c, parent=None, n1=None, n2=None):
    """Description -> Node tree with explicit frames and media; Node.extra
    holds the extra attributes, Node.cls the class name."""
    parent = parent if parent is not None else O.Frame()
    f = frame(c["coordSys"], parent) if "coordSys" in c else parent
    m1 = medium(c["inMedium"]) if "inMedium" in c else (n1 or VACUUM)
    if "outMedium" in c:
        m2 = medium(c["outMedium"])
    else:
        m2 = n2 if n2 is not None else m1
    extra = {k: c[k] for k in EXTRA if k in c}
    if "stopSurface" in c:
        extra["stopSurface"] = read(c["stopSurface"])
    kw = dict(name=c.get("name", ""), frame=f, n1=m1, n2=m2, skip=False,
              extra=extra, cls=c["type"])
    t = c["type"]
    if t == "Lens":
        g = medium(c["medium"])
        a, b = c["items"]
        return Node(kind="group", lens=True, medium=g,
                    items=[read(a, f, m1, g), read(b, f, g, m2)], **kw)
    if t == "CompoundOptic":
        return Node(kind="group", lens=False,
                    items=[read(i, f, m1, m2) for i in c["items"]], **kw)
    return Node(kind=KIND[t], surf=surface(c["surface"]),
                obsc=obsc(c["obscuration"]) if "obscuration" in c else None,
                screen=surface(c["screen"]) if t == "OPDScreen" else None,
                fc=None, rc=None, items=None, **kw)


def files():
    import batoid
    out = []
    for p in sorted(glob.glob(os.path.join(batoid.datadir, "*", "*.yaml"))):
        out.append(os.path.relpath(p, batoid.datadir))
    return out


_loaded = {}


def load(rel):
    """The description in a shipped file."""
    import batoid
    if rel not in _loaded:
        with open(os.path.join(batoid.datadir, rel)) as f:
            _loaded[rel] = yaml.safe_load(f)
    return _loaded[rel]["opticalSystem"]
