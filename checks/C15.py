import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def attrs(rng, how, n):
    if how == "one":
        return [rng.randint(1, n)]
    if how == "some":
        return rng.sample(range(1, n + 1), rng.randint(1, n))
    if how == "every":
        return list(range(1, n + 1))
    if how == "repeat":
        return [rng.randint(1, n) for _ in range(rng.randint(2, 5))]
    if how == "empty":
        return []
    l = rng.sample(range(1, n + 1), rng.randint(0, n))
    l.insert(rng.randint(0, len(l)), {"zero": 0, "above": n + rng.randint(1, 3), "negative": -rng.randint(1, n)}[how])
    return l


def entry(rng, how, n):
    if how in ("all", "none", "All", "", "null", "object"):
        return {"kind": how, "list": []}
    if how == "number":
        return {"kind": how, "list": [rng.randint(0, n + 1)]}
    return {"kind": "list", "list": attrs(rng, how, n)}


def scenario(rng, h):
    cmds, nd, nb = [], 1, 1
    for op in h:
        if op[0] == "mark":
            n = rng.randint(1, 8)
            cmds.append({"op": "mark", "api": op[1], "n": n, "entry": entry(rng, op[2], n)})
        elif op[0] == "load":
            nd, nb = rng.randint(1, 4), rng.randint(1, 5)
            sp = op[2]
            cmds.append({"op": "load", "el": op[1], "space": sp, "p": rng.randint(1, 2), "nd": nd, "nb": nb,
                         "internal": rng.random() < .7, "gap": rng.random() < .3})
        elif op[0] == "build":
            cmds.append({"op": "build", "form": op[1]})
        elif op[0] == "add":
            place = "bdr" if op[1] == "boundary" and sp == "l2" else op[1]     # no boundary elements in that space
            cmds.append({"op": "add", "place": place, "list": None if op[2] == "all" else attrs(rng, op[2], nd if place == "domain" else nb)})
        elif op[0] == "reselect":
            cmds.append({"op": "reselect", "list": attrs(rng, op[1], rng.choice([min(nd, nb), nd, nb]) if op[1] == "above" else min(nd, nb))})
        elif op[0] == "essential":
            cmds.append({"op": "essential", "entry": entry(rng, op[1], nb)})
        else:
            cmds.append({"op": op[0]})
    return {"seed": rng.getrandbits(32), "cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("which elements an mfem form visits for a marker array is mfem's; markers on inner boundaries and on domain terms of nonlinear forms come from the overlay")
    ck.model("MarkersMC", need=["MCLoad", "MCMark", "MCBuild", "MCAdd", "MCAddOn", "MCReselect", "MCEssential", "MCEval"])
    hs = ck.generate("MarkersGen", limit=ck.pick(900, 6000)) + ck.generate("MarkersGen", "MarkersGenL.cfg", simulate=ck.pick(300, 6000), depth=15) \
        + ck.generate("MarkersGen", "MarkersGenC.cfg", simulate=ck.pick(400, 6000), depth=15)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("markers", ["utils/utils.cpp", "common/functional_output.cpp", "common/miso_linearform.cpp", "physics/miso_nonlinearform.cpp",
                               "physics/miso_input.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp",
                               "physics/finite_element_vector.cpp"], mfemx=True)
    for i in range(0, len(scn), 1500):
        part = scn[i:i + 1500]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("MarkersTrace", ev, rerun=run, label=str(i // 1500)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("Mark", "Essential", "Eval") and (e.get("array") or e.get("dofs") or e.get("rows"))])
            e = evs[i]
            if e["event"] == "Mark":
                j = rng.randrange(len(e["array"]))
                if not e["ok"]:
                    e["ok"] = True
                e["array"][j] = 1 - e["array"][j]
            else:
                (e["dofs"] if e["event"] == "Essential" else e["rows"]).pop()
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("MarkersTrace", ev, mut)


main("C15", body)
