import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
import odelib


def body(ck):
    rng = ck.rng
    ck.model("OdeMC", need=["MCNext"])
    scn = [odelib.instance(rng, s) for s in ck.generate("OdeGen", limit=ck.pick(700, 1872))]
    for name in ["RK2", "rk4", "RK4 ", "", "MIDPOIN", "RRK7", "IMPLICIT", "BDF2", "Steady", "RK3SSP", "RK6", "EULER"]:
        s = odelib.instance(rng, {"type": name, "mode": "script", "entropy": "quad", "steps": ["mid"]})
        scn.append(s)
    for name in ["RK4", "MIDPOINT"]:
        s = odelib.instance(rng, {"type": name, "mode": "script", "entropy": "quad", "steps": ["mid"]})
        s["oldkey"] = True
        scn.append(s)
    rng.shuffle(scn)
    odelib.replay(ck, scn)


main("C05", body)
