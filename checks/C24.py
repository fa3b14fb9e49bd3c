import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from fieldlib import *


def body(ck):
    rng = ck.rng
    ck.model("NormsMC", need=["MCField", "MCFun", "MCWeight"])
    exe = ck.build("fields", SOURCES)
    hs = ck.generate("NormsGen", limit=ck.pick(700, 6000)) + ck.generate("NormsGen", "NormsGenL.cfg", simulate=ck.pick(500, 3000), depth=12)
    scn = [norm_scenario(rng, h) for h in hs]
    rng.shuffle(scn)
    for mpi in (1, 2):
        mine = [s for i, s in enumerate(scn) if i % 2 == mpi - 1]
        for i in range(0, len(mine), 400):
            part = mine[i:i + 400]
            run = lambda: ck.run(exe, part, mpi=mpi)
            ev = run()
            if not ck.validate("NormsTrace", ev, rerun=run, label="%d-%d" % (mpi, i // 400)):
                return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Norm" and abs(unhex(e["r"])) > 1e-6])
            evs[i]["r"] = hexd(unhex(evs[i]["r"]) * (1 + 1e-6))
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("NormsTrace", ev, mut)


main("C24", body)
