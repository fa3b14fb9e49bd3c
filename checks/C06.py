import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
import odelib


def body(ck):
    rng = ck.rng
    ck.model("OdeMC", need=["MCNext"])
    gen = [s for s in ck.generate("OdeGen", "OdeGenR.cfg")
           # slopes of no system at all belong to the one-stage scheme only
           if not (s["mode"] == "script" and s["type"] == "RRK6")]
    if len(gen) > ck.pick(1200, 6000):
        gen = rng.sample(gen, ck.pick(1200, 6000))
    odelib.replay(ck, [odelib.instance(rng, s) for s in gen])


main("C06", body)
