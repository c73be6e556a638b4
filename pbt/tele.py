"""Shipped telescopes as test subjects: reference trees, rays through their
entrance pupils, small random misalignments."""
import copy

import numpy as np
from hypothesis import strategies as st

import batoid

from . import config as C
from . import gens as G
from . import oracle as O
from . import sysgen as S

SKIP = ("LSST/CBP.yaml", "apochromats/donsoptikz1.yaml")
# tilted surfaces: recorded finding tilted-normal
TILTED = ("AuxTel/AuxTel.yaml",)
FILES = [f for f in C.files() if f not in SKIP]
PLAIN = [f for f in FILES if f not in TILTED]



def files(pool=None):
    """Strategy: telescope family first, then the file."""
    fam = {}
    for f in pool or PLAIN:
        key = f.split("/")[1].split("_")[0].split(".")[0]
        fam.setdefault(key, []).append(f)
    return st.one_of([st.sampled_from(v) for v in fam.values()])


_nodes, _opts = {}, {}


def node(rel):
    if rel not in _nodes:
        _nodes[rel] = C.read(C.load(rel))
    return _nodes[rel]


def optic(rel):
    """A telescope loaded by batoid (shared: never modify)."""
    if rel not in _opts:
        _opts[rel] = batoid.Optic.fromYaml(rel.split("/")[1])
    return _opts[rel]


def misaligned(nd, seed, amp):
    """A copy of the tree with every element moved a little."""
    rng = np.random.default_rng(seed)
    nd = copy.deepcopy(nd)

    def go(n):
        if n.items is None:
            R = O.rot_list([[a, float(rng.normal(0, amp))] for a in "xyz"])
            n.frame = O.Frame(n.frame.o+rng.normal(0, amp, 3), n.frame.rot@R)
            return
        for i in n.items:
            go(i)
    go(nd)
    return nd


def pupil_rays(nd, seed, n, field, oversize=1.0, flags=False, frame=None):
    ex = nd.extra
    rng = np.random.default_rng(seed)
    w = rng.choice([450e-9, 620e-9, 750e-9, 900e-9], n)
    x, y = G.disk(rng, n, ex["pupilSize"]/2*oversize)
    d = np.array([np.tan(field[0]), np.tan(field[1]), -1.0])
    d /= np.linalg.norm(d)
    P = ex["stopSurface"].frame.to_global(np.stack([x, y, 0*x], axis=-1))
    r = P-d*ex["backDist"]
    v = np.tile(d, (n, 1))/O.index(nd.n1, w)[:, None]
    fl = rng.choice([0]*9+[1, 3], n) if flags else np.zeros(n, int)
    rays = O.Rays(r, v, rng.uniform(-1, 1, n), w, rng.uniform(0.5, 1, n),
                  (fl & 1).astype(bool), (fl & 2).astype(bool))
    return rays.to(frame) if frame is not None else rays
