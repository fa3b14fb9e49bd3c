import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from formlib import *


def body(ck):
    rng = ck.rng
    ck.model("FormsMC", need=["MCForm", "MCSet", "MCValue", "MCLin", "MCDeriv", "MCAdjoint"])
    exe = ck.build("forms", SOURCES, mfemx=True)
    hs = ck.generate("FormsGen", "FormsDerivsGen.cfg") + ck.generate("FormsGen", "FormsDerivsGenL.cfg", simulate=ck.pick(2200, 19000), depth=12)
    f = Forms(rng)
    rng.shuffle(hs)
    scn = [f.scenario(h, True) for h in hs[:ck.pick(2400, 20000)]]
    for i in range(0, len(scn), 400):
        part = scn[i:i + 400]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("FormsTrace", ev, rerun=run, label=str(i // 400)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Deriv" and len(e["post"]) == 1 and abs(unhex(e["post"][0])) > 1e-3])
            evs[i]["post"][0] = hexd(unhex(evs[i]["post"][0]) * (1 + 1e-3))
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("FormsTrace", ev, mut)


main("C25", body)
