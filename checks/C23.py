import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

WIRES = ["copperwire", "aluminumwire", "silverwire", "magnesiumwire", "ironwire"]
PLAIN = ["copper", "aluminum", "silver", "magnesium", "iron", "epoxy", "air", "moving_air", "2024_T3", "Nd2Fe14B", "hiperco50", "team13"]
# properties that some material defines as a number
CONST = {"copper": ["rho", "drho_df", "cv", "kappa"], "Nd2Fe14B": ["mu_r", "B_r", "alpha_B_r", "T_ref", "rho", "cv", "kappa", "max-temp", "ks", "beta", "alpha"],
         "hiperco50": ["cv", "kappa", "mu_r", "rho"], "team13": ["mu_r"], "air": ["rho", "cv", "kappa"]}
OTHER = ["cv", "mu_r", "B_r", "sigma", "alpha", "ks", "max-temp", "T_ref", "beta", "drho_df"]


def num(rng):
    return rng.choice([rng.randrange(1, 9), rng.uniform(.1, 9), 10.0 ** rng.randrange(-3, 6)])


def component(rng, shape, att, names):
    m = rng.choice(PLAIN)
    if shape == "plain":
        mat = m
    elif shape == "override":
        mat = {"name": m, rng.choice(["rho", "kappa", "cv"]): num(rng)}
        if rng.random() < .4:
            mat[rng.choice(["sigma", "mu_r"])] = num(rng)
    elif shape == "nested":
        m = rng.choice(["hiperco50", "Nd2Fe14B", "copperwire"])
        mat = {"name": m}
        if m == "hiperco50":
            mat["core_loss"] = {"steinmetz": {"ks": num(rng)}}
            if rng.random() < .5:
                mat["core_loss"]["CAL2"] = {"kh_T0": [num(rng)] * rng.randrange(1, 4)}
        elif m == "Nd2Fe14B":
            mat["Demag"] = {"T0": num(rng), rng.choice(["B_r_T0", "new"]): num(rng)}
        else:
            mat["conductivity"] = {"linear": {"T_ref": num(rng)}}
    elif shape == "null":
        m = rng.choice(["iron", "air", "Nd2Fe14B", "2024_T3"])
        mat = {"name": m, rng.choice(["kappa", "rho", "cv", "absent"]): None}
        if m == "iron":
            mat.pop("kappa", None)
            mat.pop("rho", None)
        if m == "Nd2Fe14B" and rng.random() < .5:
            mat["Demag"] = {"T0": None, "alpha_B_r": None}
    elif shape == "new":
        m = rng.choice(["box1", "box2"])
        mat = {"name": m, "rho": num(rng), "kappa": num(rng), "cv": num(rng)}
    elif shape == "samename":
        m = names[0] if names else m
        mat = {"name": m, "rho": num(rng), "cv": num(rng)}
    elif shape == "mixture":
        mat = rng.choice(WIRES)
        m = mat
    elif shape == "base":               # a part of a mixture changes
        m = rng.choice(["copper", "epoxy", "aluminum", "silver"])
        mat = {"name": m, rng.choice(["rho", "kappa"]): num(rng)}
    names.append(m)
    if len(att) == 1 and rng.random() < .6:
        return {"attr": att[0], "material": mat}
    return {"attrs": att, "material": mat}


def components(rng, shape):
    if shape == "none":
        return None if rng.random() < .5 else {}
    n = 1 if shape == "plain" and rng.random() < .5 else rng.randrange(2, 5)
    kinds = [shape] + [rng.choice(["plain", "override", "nested", "null", "new", "mixture", "base", "samename"]) for _ in range(n - 1)]
    if shape == "samename":
        kinds = ["override"] + ["samename"] * (n - 1)
    if shape == "two":
        kinds = [rng.choice(["override", "base"]), "mixture"]
    if shape == "clash":
        kinds = [rng.choice(["plain", "mixture", "new"])] * 2
    rng.shuffle(kinds) if shape not in ("samename", "two") else None
    free = list(range(1, 13))
    names, out = [], []
    for k in kinds:
        a = sorted(rng.sample(free, rng.choice([1, 1, 2, 3])))
        if shape != "clash" or rng.random() < .3:
            free = [x for x in free if x not in a]
        elif out:
            a[0] = out[0].get("attr", 0) or out[0]["attrs"][0]
            if len(set(a)) < len(a):
                a = a[:1]
        if rng.random() < .3:
            rng.shuffle(a)
        out.append(component(rng, k if k != "samename" or names else "override", a, names))
    if rng.random() < .75:
        keys = rng.sample(["a", "b", "rotor", "stator", "windings", "zz", "m0", "heatsink"], len(out))
        return {k: c for k, c in zip(keys, out)}
    return out


def scenario(rng, h):
    cmds, solvers, coeffs = [], [], []
    for op in h:
        if op[0] == "solver":
            i = "s%d" % len(solvers)
            solvers.append(i)
            cmds.append({"cmd": "Solver", "id": i, "ctor": op[2], "components": components(rng, op[1])})
        elif op[0] == "coeff":
            k = "c%d" % len(coeffs)
            p = op[1] if op[1] != "other" else rng.choice(OTHER)
            coeffs.append(k)
            cmds.append({"cmd": "Coeff", "c": k, "id": rng.choice(solvers), "prop": p})
        elif op[0] == "input":
            w = rng.choice([0.0, 1.0, .5, rng.random(), rng.random()])
            n = op[1] if op[1] == "fill_factor" else rng.choice(["weight", "rho", "fill-factor", "state"])
            cmds.append({"cmd": "Input", "c": rng.choice(coeffs), "name": n, "w": hexd(w)})
        elif op[0] == "eval":
            for k in coeffs:
                for a in rng.sample(range(1, 14), 13) if rng.random() < .3 else rng.sample(range(1, 14), 5):
                    cmds.append({"cmd": "Eval", "c": k, "attr": a, "state": hexd(rng.uniform(-3, 500))})
        elif op[0] == "look":
            for i in solvers:
                cmds.append({"cmd": "Look", "id": i})
    # every history ends with a look at everything
    for k in coeffs:
        for a in range(1, 14):
            cmds.append({"cmd": "Eval", "c": k, "attr": a, "state": hexd(rng.uniform(-3, 500))})
    cmds += [{"cmd": "Look", "id": i} for i in solvers]
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("the data sheet spec/materials.json is the intended content of the library; the numbers in it were taken from the library and checked for consistency (curve data, mixtures), not against the manufacturers")
    ck.model("MaterialsMC", need=["MCLib", "MCSolver", "MCCoeff", "MCEval"])
    hs = ck.generate("MaterialsGen", limit=ck.pick(350, 6000)) + ck.generate("MaterialsGen", "MaterialsGenL.cfg", simulate=ck.pick(250, 3000), depth=14)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("materials", ["physics/pde_solver.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp",
                                 "common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp",
                                 "common/coefficient.cpp", "physics/miso_input.cpp", "common/ode.cpp", "common/mfem_extensions.cpp",
                                 "common/linesearch.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp",
                                 "common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "common/matrix_operators.cpp"], mfemx=True)
    for i in range(0, len(scn), 600):
        part = scn[i:i + 600]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("MaterialsTrace", ev, rerun=run, label=str(i // 600)):
            return
    if not ck.quick:
        def mut(evs, rng):
            k = rng.choice(["Eval", "Look", "Solver", "Coeff"])
            c = [i for i, e in enumerate(evs) if e["event"] == k]
            if not c:
                return None
            i = rng.choice(c)
            e = evs[i]
            if k == "Eval":
                e["v"] = e["vs"] = hexd(unhex(e["v"]) * 1.0001 + 1e-6)
            elif k == "Coeff":
                e["ok"] = not e["ok"]
            else:
                m = json.loads(json.dumps(e["mats"]))
                m["o"][rng.choice(["copper", "air"])]["o"]["rho"] = {"n": hexd(5.5)}
                e["mats"] = m
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("MaterialsTrace", ev, mut)


main("C23", body)
