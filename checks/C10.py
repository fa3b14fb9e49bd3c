import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from formlib import *


def body(ck):
    rng = ck.rng
    ck.model("FormsMC", need=["MCForm", "MCSet", "MCValue", "MCLin", "MCDeriv", "MCAdjoint"])
    exe = ck.build("forms", SOURCES, mfemx=True)
    hs = ck.generate("FormsGen", "FormsValuesGen.cfg") + ck.generate("FormsGen", "FormsValuesGenL.cfg", simulate=ck.pick(900, 6000), depth=12)
    f = Forms(rng)
    rng.shuffle(hs)
    scn = [f.scenario(h, False) for h in hs[:ck.pick(1200, 12000)]]
    for i in range(0, len(scn), 600):
        part = scn[i:i + 600]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("FormsTrace", ev, rerun=run, label=str(i // 600)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Value" and len(e["got"]) == 1 and abs(unhex(e["got"][0])) > 1e-6])
            evs[i]["got"][0] = hexd(unhex(evs[i]["got"][0]) * (1 + 1e-8))
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("FormsTrace", ev, mut)


main("C10", body)
