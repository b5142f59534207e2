#!/usr/bin/env python3
"""Entry point of every check: check.py PROPERTY (tier and seed from VERIF_TIER, VERIF_SEED)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp      # noqa: E402
import feet    # noqa: E402
import geo     # noqa: E402
import dyn     # noqa: E402
import qp      # noqa: E402
import hum     # noqa: E402
import wg      # noqa: E402
import zeb     # noqa: E402
import traj    # noqa: E402
import inst    # noqa: E402

TABLE = {}
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]:
    TABLE[p] = feet.check
for p in ["C22", "C23", "C24"]:
    TABLE[p] = geo.check
TABLE["C21"] = dyn.check
for p in ["C25", "C26"]:
    TABLE[p] = qp.check
for p in ["C08", "C09", "C10"]:
    TABLE[p] = hum.check
for p in ["C11", "C12"]:
    TABLE[p] = wg.check
for p in ["C13", "C14", "C15", "C16", "C17", "C19"]:
    TABLE[p] = zeb.check
TABLE["C18"] = zeb.hot_starts
TABLE["C20"] = traj.check
TABLE["C27"] = inst.check
DRIVERS = ["zeb_driver.cpp", "traj_driver.cpp", "wg_driver.cpp", "feet_driver.cpp", "geo_driver.cpp", "dyn_driver.cpp", "hum_driver.cpp"]   # qp_driver builds fast



def setup():
    """Compile everything once (warms the compiler cache); fails if a tool is missing."""
    ctx = vp.Ctx("setup")
    try:
        for d in DRIVERS:
            vp.build(ctx, d)
    except vp.CheckError as e:
        print(e)
        return 2
    finally:
        import shutil
        shutil.rmtree(ctx.dir, ignore_errors=True)
    return 0


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        sys.exit(setup())
    sys.exit(vp.main(TABLE, sys.argv))
