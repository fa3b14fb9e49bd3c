import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SOURCES = ["physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/current_load.cpp",
           "physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp", "common/coefficient.cpp",
           "physics/mfem_common_integ.cpp", "common/mfem_extensions.cpp", "utils/div_free_projector.cpp", "utils/irrotational_projector.cpp",
           "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "physics/miso_input.cpp", "utils/utils.cpp"]
S3 = ["x", "y", "z", "-z", "ring", "box1", "box2", "team13", "cwStator", "ccwStator"]
S2 = ["z", "-z", "box1", "box2"]


def current(rng, dim):
    attrs = rng.sample([1, 2, 3], rng.choice([2, 3, 3]))
    cur = {}
    for a in attrs:
        g = rng.choice(["coil", "phaseA", "phaseB"])
        s = rng.choice(S2 if dim == 2 else S3)
        cur.setdefault(g, {}).setdefault(s, []).append(a)
    return cur


def magnets(rng, m, curved, ops):
    dim = 2 if m in ("tri", "quad") else 3
    mats = {n: {k: v() for k, v in (("alpha_B_r", lambda: rng.uniform(-.3, .1)), ("T_ref", lambda: rng.uniform(280, 320)), ("B_r_T_ref", lambda: rng.uniform(.5, 1.6)))
                if rng.random() < .7} for n in ("Nd2Fe14B", "SmCo")}
    mag = {}
    for a in rng.sample([1, 2, 3], rng.choice([2, 3, 3])):
        s = rng.choice(["north", "south", "cw", "ccw", "x", "y"] + ["z"] * (dim == 3))
        mag.setdefault(rng.choice(sorted(mats)), {}).setdefault(s, []).append(a)
    n = [2, 2, 2] if dim == 3 else [3, 3, 1]
    return {"seed": rng.getrandbits(32), "cmds": [{"op": "Magnets", "mesh": m, "curved": curved == "curved", "nx": n[0], "ny": n[1], "nz": n[2], "magnets": mag, "materials": mats}]
            + [{"op": "MEval"}] * (4 * len(ops))}


def scenario(rng, h):
    if h[0][0] == "magnets":
        return magnets(rng, h[0][1], h[0][2], h[1:])
    (kind, m, curved), ops = h[0], h[1:]
    dim = 2 if m in ("tri", "quad") else 3
    cur = current(rng, dim)
    gs = sorted(cur)
    load = kind == "load"
    # a few interior nodes; densities vary over the elements
    n = {"tet": [2, 2, 2], "hex": [2, 2, rng.choice([2, 2, 3])]}.get(m, [3, 3, 1])
    p = 1
    if load and rng.random() < .2:
        n, p = ([2, 1, 1], 2)
    cmds = [{"op": "LBuild" if load else "Configure", "mesh": m, "curved": curved == "curved", "nx": n[0], "ny": n[1], "nz": n[2], "p": p, "current": cur}]
    if load and rng.random() < .6:
        cmds[0]["ess"] = rng.choice(["all", [1], [2, 5], [6]])
    num = lambda: rng.choice([0.0, 1.0, -1.0, rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-2, 2)])
    last = {}
    for op, what in ops:
        if op == "set":
            c = {"op": "LSet" if load else "Set", "cd": {}}
            if what == "one":
                c["cd"][rng.choice(gs)] = num()
            elif what == "all":
                c["cd"] = {g: num() for g in gs}
            elif what == "par":
                if rng.random() < .7:
                    c["n"] = rng.randint(3, 12)
                if "n" not in c or rng.random() < .7:
                    c["len"] = rng.uniform(.05, 1.0 if load else .3)
                if rng.random() < .3:
                    c["cd"][rng.choice(gs)] = num()
            elif what == "same":
                c["cd"] = {g: v for g, v in last.items()}
                if rng.random() < .3:
                    c["cd"]["nobody"] = num()
            last.update({g: v for g, v in c["cd"].items() if g in gs})
            cmds.append(c)
        elif op == "vjp":
            cmds.append({"op": "LVjp", "wrt": "group:" + rng.choice(gs) if what == "group" else rng.choice(["state", "mesh_coords", "density:coil"])})
        elif op == "mesh":
            cmds.append({"op": "LVjpMesh", "wrt": rng.choice(["mesh_coords"] * 4 + ["state"])})
        elif op == "eval":
            cmds += [{"op": "Eval"}] * 6
        else:
            cmds.append({"op": {"move": "LMove", "add": "LAdd", "cache": "Cache", "zero": "Zero", "restore": "Restore"}[op]})
    cmds += [{"op": "LAdd"}] if load else [{"op": "Eval"}] * 6
    return {"seed": rng.getrandbits(32), "cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("basis functions, mass matrices and discrete gradients come from mfem; the overlay gives mfem 4.5.2's coefficients of a position the reverse mode of MISO's fork")
    ck.model("CurrentSourceMC", need=["MCBuild", "MCSet", "MCMove", "MCAdd", "MCVjp", "MCStore", "MCClear", "MCRestore"])
    hs = ck.generate("CurrentSourceGen", limit=ck.pick(170, 1500)) + ck.generate("CurrentSourceGen", "CurrentSourceGenL.cfg", simulate=ck.pick(170, 2200), depth=10)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("current", SOURCES, mfemx=True, defines=["MFEMX_FUNCS"])
    for i in range(0, len(scn), 65):
        part = scn[i:i + 65]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("CurrentSourceTrace", ev, rerun=run, label=str(i // 65)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("LAdd", "Eval")])
            f = "after" if evs[i]["event"] == "LAdd" else "V"
            evs[i][f] = [hexd(unhex(v) + 1e-3) for v in evs[i][f]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("CurrentSourceTrace", ev, mut)


main("C33", body)
