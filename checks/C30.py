import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SOURCES = ["utils/l2_transfer_operator.cpp", "utils/utils.cpp", "physics/miso_input.cpp", "physics/finite_element_state.cpp",
           "physics/finite_element_vector.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp"]


def scenario(rng, h):
    cmds = []
    for op in h:
        if op[0] == "build":
            kind, m = op[1], op[2]
            two = m in ("tri", "quad", "curved")
            top = 3 if two else 2 if m == "hex" or kind == "scalar" else 1
            p = rng.randint(1, top)
            cmds.append({"op": "Build", "kind": kind, "mesh": m, "p": p, "q": rng.randint(0, 3 if two else 2), "ordering": rng.randint(0, 1)})
        elif op[0] == "vjp":
            cmds.append({"op": {"out": "VjpOut", "other": "VjpOther"}.get(op[1], "Vjp"), "wrt": rng.choice(["", "mesh", "In"]) if op[1] == "other" else op[1]})
        else:
            cmds.append({"op": op[0].capitalize(), "what": op[1]})
    return {"seed": rng.getrandbits(32), "cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("the reference basis functions come from mfem; the overlay adds the reverse mode mfem 4.5.2 lacks; one rank")
    ck.model("TransferMC", need=["MCBuild", "MCGive"])
    hs = ck.generate("TransferGen", limit=ck.pick(300, 4000)) + ck.generate("TransferGen", "TransferGenL.cfg", simulate=ck.pick(300, 4000), depth=10)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("transfer", SOURCES, mfemx=True)
    for i in range(0, len(scn), 200):
        part = scn[i:i + 200]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("TransferTrace", ev, rerun=run, label=str(i // 200)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Apply" and any(unhex(v) for v in e["out"][0])])
            e = evs[i]
            e["out"][0] = [hexd(unhex(v) + .01) for v in e["out"][0]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("TransferTrace", ev, mut)


main("C30", body)
