import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

DEF = {"paraview": {"directory": "s", "log": 0, "fields": 0, "each-timestep": 0}, "flow-param": {"mach": 0, "Re": 0, "viscous": 0, "roll-axis": 0},
       "space-dis": {"degree": 0, "basis-type": 0, "lps-coeff": 0}, "time-dis": {"type": 0, "dt": 0, "t-final": 0, "max-iter": 0, "steady": 0},
       "nonlin-solver": {"type": 0, "maxiter": 0, "abstol": 0, "abort": 0}, "lin-solver": {"type": 0, "kdim": 0, "reltol": 0},
       "lin-prec": {"type": 0, "lev-fill": 0}, "adj-solver": {"type": 0, "maxiter": 0, "reltol": 0, "abstol": 0}, "adj-prec": {"ilu-type": 0},
       "petscsolver": {"pctype": 0}, "mesh": {"file": 0, "refine": 0}}
TOP = ["steady", "test-ode"]


def leaf(rng):
    return rng.choice([rng.randrange(-3, 200), rng.uniform(-2, 2), 1e-9, "text", "", True, False, [1, "x"], []])


def user(rng, shape):
    u = {}
    if shape == "many":
        for _ in range(rng.randrange(2, 6)):
            merge(u, user(rng, rng.choice(["leaf", "deep", "null", "replace", "add", "array", "print"])))
    sec = rng.choice(list(DEF))
    key = rng.choice(list(DEF[sec]))
    if shape == "leaf":
        u[rng.choice(TOP + ["new-key"])] = leaf(rng)
    elif shape == "deep":
        u[sec] = {key: leaf(rng)}
        if rng.random() < .4:
            u[sec][rng.choice(list(DEF[sec]))] = leaf(rng)
    elif shape == "null":
        if rng.random() < .3:
            u[rng.choice(TOP + [x for x in DEF if x != "adj-solver"] + ["absent"])] = None
        else:
            u[sec] = {rng.choice([key, "absent"]): None}
    elif shape == "replace":
        if rng.random() < .5:
            u[sec] = leaf(rng)
        else:
            u[sec] = {key: {"a": leaf(rng), "b": None, "c": {"d": None}}}
    elif shape == "add":
        u[rng.choice(["outputs", "bcs", "external-fields", sec])] = {"x%d" % rng.randrange(3): {"y": leaf(rng), "z": None if rng.random() < .3 else {}}}
    elif shape == "array":
        u[rng.choice(["components", sec])] = [leaf(rng), {"a": None}, None][:rng.randrange(4)]
    elif shape == "silent":
        u["silent"] = rng.random() < .7
        u["print-options"] = True
    elif shape == "print":
        u["print-options"] = rng.random() < .5
        u[sec] = {key: leaf(rng)}
    if rng.random() < .5 and "print-options" not in u:
        u["print-options"] = False
    return u


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v


def lin(rng, t):
    o = {"type": t, "reltol": rng.choice([1e-3, 1e-12, .5, rng.random()]), "maxiter": rng.randrange(1, 500), "printlevel": rng.choice([0, 0, 1, 2, 3])}
    if rng.random() < .6:
        o["abstol"] = rng.choice([0.0, 1e-14, 1e-5, rng.random()])
    if rng.random() < .6:
        o["kdim"] = rng.choice([-1, 1, 5, 37, 200])
    return o


def scenario(rng, h):
    cmds, live, n = [], [], 0
    for op in h:
        if op[0] in ("solver", "adjoint"):
            i = "s%d" % n
            n += 1
            u = user(rng, op[1] if op[0] == "solver" else rng.choice(["empty", "deep", "leaf"]))
            if op[0] == "adjoint":
                if not isinstance(u.get("adj-solver", {}), dict):
                    del u["adj-solver"]
                o = lin(rng, op[1])
                o["printlevel"] = 0
                for k in rng.sample(["abstol", "kdim", "maxiter", "reltol"], rng.randrange(3)):
                    o.pop(k, None)                  # left to the defaults
                u["adj-solver"] = o
            cmds.append({"cmd": "Solver", "id": i, "user": u})
            if op[0] == "adjoint":
                for j in live:
                    cmds.append({"cmd": "Look", "id": j})
                cmds.append({"cmd": "Adjoint", "id": i, "prec": rng.random() < .5})
            else:
                live.append(i)
        elif op[0] == "look":
            cmds += [{"cmd": "Look", "id": i} for i in live]
        elif op[0] == "linear":
            t = op[1] if op[1] != "default" else "hyprefgmres"
            o = lin(rng, t)
            p = "none" if op[2] == "none" else rng.choice(["amg", "ilu"]) if t.startswith("hypre") else "id"
            if t == "bicgstab":
                p = "none"
            cmds.append({"cmd": "Linear", "o": o, "prec": p})
        elif op[0] == "nonlinear":
            o = {"type": op[1], "reltol": rng.choice([1e-10, 1e-3, rng.random()]), "abstol": rng.choice([1e-9, 1e-12, rng.random()]),
                 "maxiter": rng.randrange(1, 12), "printlevel": rng.choice([-1, 0, 1])}
            if op[2] == "extra":
                for k, v in {"inexacttype": rng.choice([1, 2]), "rtol0": rng.uniform(.1, .8), "rtol_max": rng.uniform(.5, .95),
                             "alpha": rng.uniform(.1, 1.9), "gamma": rng.uniform(.2, 1.9)}.items():
                    if rng.random() < .6:
                        o[k] = v
                k = rng.random()
                if k < .15:
                    o["linesearch"] = "backtracking"
                elif k < .25:
                    o["linesearch"] = rng.choice(["armijo", {"type": "none"}])
                elif k < .9:
                    o["linesearch"] = {"type": "backtracking"}
                    for k, v in {"mu": rng.uniform(0, .4), "rhohi": rng.uniform(.5, .95), "rholo": rng.uniform(.05, .45), "interp-order": rng.choice([1, 2, 3]), "maxiter": rng.randrange(1, 8)}.items():
                        if rng.random() < .6:
                            o["linesearch"][k] = v
            cmds.append({"cmd": "Nonlinear", "o": o})
        elif op[0] == "ode":
            cmds.append({"cmd": "Ode", "o": {"type": op[1]} if op[1] != "deprecated" else {"type": "RK4", "ode-solver": "RK4"}})
    cmds += [{"cmd": "Look", "id": i} for i in live]
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("settings are read back from mfem's and hypre's solver objects, not inferred from their behaviour")
    ck.model("OptionsMC", need=["MCDefaults", "MCSolver", "MCLook"])
    hs = ck.generate("OptionsGen", limit=ck.pick(500, 6000)) + ck.generate("OptionsGen", "OptionsGenL.cfg", simulate=ck.pick(250, 4000), depth=12)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("options", ["common/abstract_solver.cpp", "common/default_options.cpp", "common/mfem_extensions.cpp", "common/ode.cpp",
                               "common/relaxed_newton.cpp", "common/linesearch.cpp", "utils/utils.cpp", "physics/miso_input.cpp"])
    for i in range(0, len(scn), 750):
        part = scn[i:i + 750]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("OptionsTrace", ev, rerun=run, label=str(i // 750)):
            return
    if not ck.quick:
        def mut(evs, rng):
            k = rng.choice(["Solver", "Linear", "Nonlinear", "Ode", "Look"])
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == k and (k != "Linear" or "rel" in e["r"]) and (k != "Nonlinear" or "rel" in e["r"])])
            e = evs[i]
            if k in ("Solver", "Look"):
                e["seen"] = json.loads(json.dumps(e["seen"]))
                e["seen"]["o"]["extra"] = {"n": hexd(1)}
            elif k == "Ode":
                e["r"] = {"ok": "error", "error": "ok"}[e["r"]]
            else:
                e["r"] = dict(e["r"])
                f = rng.choice(["rel", "abs", "maxit"])
                e["r"][f] = hexd(unhex(e["r"][f]) + 1)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("OptionsTrace", ev, mut)


main("C13", body)
