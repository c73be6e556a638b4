"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Rebuilds batoid from /repo and runs the checks of one property.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: error.
"""
import argparse
import fcntl
import json
import os
import subprocess
import sys


def build():
    with open("/tmp/.pbt-build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["bash", "/opt/vp/build.sh"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-3000:])
        sys.stderr.write("the build of /repo failed\n")
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if not a.no_build:
        build()
    here = os.path.dirname(os.path.abspath(__file__))
    os.chdir(here)
    sys.path.insert(0, here)
    import batoid
    assert batoid.__file__.startswith("/repo/"), batoid.__file__
    from pbt import core
    core.load_all()
    if a.replay:
        d = json.load(open(a.replay))
        for s in core.REGISTRY[d["property"]]:
            if s.name == d["sub"]:
                ctx, msg = core.run_case(s, d["case"], core.load_known(d["property"]))
                if msg:
                    print(f"{d['property']}/{d['sub']}: {msg}")
                    print(f"VIOLATION property={d['property']} replay={a.replay}")
                    sys.exit(1)
                print("replay: held")
                sys.exit(0)
        sys.exit("no such subcheck")
    sys.exit(core.run_property(a.property, a.tier, a.seed, scale=a.scale,
                               only=a.only, verbose=a.v))


main()
