import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def body(ck):
    rng = ck.rng
    ck.assumptions.append("OpenMDAO, mphys and pyMISO are not installed: components run against stand-ins with the methods and argument names of the bindings")
    ck.model("ComponentMC", need=["MCMake", "MCCall", "MCLin"])
    hs = ck.generate("ComponentGen", limit=ck.pick(1500, 6000)) + ck.generate("ComponentGen", "ComponentGenL.cfg", simulate=ck.pick(600, 8000), depth=13)
    hs += [h for h in hs if h[0][1] in ("mesh", "builder")] * ck.pick(20, 200)
    scn = [{"seed": rng.getrandbits(32), "cmds": h} for h in hs]
    exe = os.path.join(VERIF, "drivers", "component.py")
    for i in range(0, len(scn), 1200):
        part = scn[i:i + 1200]
        run = lambda: ck.run(exe, part, args=[REPO])
        ev = run()
        if not ck.validate("ComponentTrace", ev, rerun=run, label=str(i // 1200)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Residual"])
            evs[i]["res"][0] += 1
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("ComponentTrace", ev, mut)


main("C32", body)
