import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def scenario(rng, h):
    cmds, mask, kind = [], {}, {}
    of = {}
    for op in h:
        if op[0] == "make":
            _, o, k, m, g = op
            mask[o], kind[o], of[g] = m, k, o
            cmds += [{"cmd": "Make", "o": o, "kind": k, "mask": m}, {"cmd": "Wrap", "h": g, "o": o, "kind": k, "mask": m}]
        elif op[0] == "move":
            cmds.append({"cmd": "Move", "h": op[1], "g": op[2]})
        elif op[0] == "copy":
            cmds.append({"cmd": "Copy", "h": op[1], "g": op[2]})
        elif op[0] == "drop":
            cmds.append({"cmd": "Drop", "h": op[1]})
        elif op[0] == "call":
            cmds.append({"cmd": "Call", "h": op[1], "op": op[2], "boom": op[3]})
        elif op[0] == "all":
            cmds.append({"cmd": "CallAll", "hs": op[1], "op": op[2]})
        elif op[0] == "concrete":
            cmds.append({"cmd": "Concrete", "h": op[1], "as": op[2], "const": op[3]})
        else:
            cmds.append({"cmd": "Entropy", "h": op[1], "op": op[2]})
    return {"seed": rng.getrandbits(32), "cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("WrapMC", need=["MCMake", "MCWrap", "MCMove", "MCCopy", "MCDrop", "MCCall", "MCCallAll", "MCConcrete"])
    hs = ck.generate("WrapGen") + ck.generate("WrapGen", "WrapGenL.cfg", simulate=ck.pick(400, 6000), depth=20)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("wrap", ["physics/miso_integrator.cpp", "physics/miso_input.cpp", "utils/utils.cpp"])
    for i in range(0, len(scn), 2000):
        part = scn[i:i + 2000]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("WrapTrace", ev, rerun=run, label=str(i // 2000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("Call", "Drop") and (e["seen"] or e["freed"])])
            e = evs[i]
            if e["event"] == "Drop":
                e["freed"] = []
            elif rng.random() < .5:
                e["seen"][0]["args"]["wrt"] += "x"
            else:
                e["seen"].append(e["seen"][0])
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("WrapTrace", ev, mut)


main("C12", body)
