import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def scenario(rng, h, big):
    cmds = []
    for op in h:
        if op[0] == "build":
            m = op[1]
            two = m in ("tri", "quad", "thin", "curved") or (big and m in ("tri2", "quad2"))
            cmds.append({"op": "build", "mesh": m, "kind": op[2], "p": rng.choice([1, 2]) if two else 1})
        elif op[0] == "move":
            cmds.append({"op": "move"})
        elif op[0] == "notify":
            cmds.append({"op": "notify", "what": op[1]})
        elif op[0] == "mult":
            cmds.append({"op": "mult", "x": rng.choice(["any", "any", "grad", "zero"]), "again": rng.random() < .4})
        elif op[1] == "other":
            cmds.append({"op": "other", "wrt": rng.choice(["state", "mesh", "", "out", "In"])})
        else:
            cmds.append({"op": op[1]})
    return {"seed": rng.getrandbits(32), "cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("the weak divergence and the discrete gradient come from mfem; the overlay adds the reverse mode mfem 4.5.2 lacks")
    ck.model("ProjectorMC", need=["MCBuild", "MCMove", "MCNotify", "MCMult", "MCVjp"])
    hs = ck.generate("ProjectorGen", limit=ck.pick(160, 2000)) + ck.generate("ProjectorGen", "ProjectorGenL.cfg", simulate=ck.pick(260, 3000), depth=14)
    scn = [scenario(rng, h, not ck.quick) for h in hs]
    exe = ck.build("projector", ["utils/irrotational_projector.cpp", "utils/div_free_projector.cpp", "physics/mfem_common_integ.cpp",
                                 "physics/miso_input.cpp", "utils/utils.cpp"], mfemx=True)
    for i in range(0, len(scn), 250):
        part = scn[i:i + 250]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("ProjectorTrace", ev, rerun=run, label=str(i // 250)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("Mult", "VjpIn", "VjpMesh") and any(unhex(v) for v in e.get("x", e.get("p")))])
            e = evs[i]
            f = "y" if e["event"] == "Mult" else "out"
            big = max(abs(unhex(v)) for v in e[f] + e.get("x", e.get("p")))
            e[f] = [hexd(unhex(v) + .05 * big * len(e[f])) for v in e[f]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("ProjectorTrace", ev, mut)


main("C26", body)
