import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def spline(rng, bh):
    """knots and control points of a clamped spline on [0, bmax]"""
    p = rng.choice([2, 3, 3])
    n = rng.randint(p + 1, p + 5)
    bmax = rng.uniform(1, 3)
    inner = sorted(rng.uniform(.1, .9) * bmax for _ in range(n - p - 1))
    knots = [0.0] * (p + 1) + inner + [bmax] * (p + 1)
    if bh:      # an increasing curve through the origin
        h, cps = 0.0, [0.0]
        for _ in range(n - 1):
            h += rng.uniform(50, 3e4)
            cps.append(h)
    else:
        cps = [rng.uniform(4, 14) for _ in range(n)]
    return {"cps": cps, "knots": knots, "degree": p}


def params(rng, kind, model):
    u = rng.uniform
    if model == "linear":
        return {"alpha_resistivity": u(.001, .006), "T_ref": u(280, 320), "sigma_T_ref": u(1e6, 6e7)}
    if model in ("lognu", "bh"):
        return spline(rng, model == "bh")
    if model == "br":
        return {"alpha_B_r": u(-.3, .1), "T_ref": u(280, 320), "B_r_T_ref": u(.8, 1.5)}
    if model == "Demag":
        return {"T0": u(280, 320), "alpha_B_r": u(-.3, -.05), "B_r_T0": u(1.1, 1.5), "alpha_H_ci": u(-.8, -.3), "H_ci_T0": u(-2000, -900),
                "alpha_B_knee": u(.002, .006), "beta_B_knee": u(-3.5, -2.6), "alpha_H_knee": u(3, 8), "beta_H_knee": u(-4500, -3500)}
    k = kind
    poly = lambda: [u(.01, .05) * 2] + [u(-.02, .02) for _ in range(rng.randint(0, 4))]
    return {"T0": u(280, 320), "T1": u(360, 450), k + "_T0": poly(), k + "_T1": poly()}


GROUP = {"sigma": "conductivity", "nu": "reluctivity", "bknee": "Demag", "demag": "Demag", "kh": "core_loss", "ke": "core_loss"}
hx = lambda v: v if isinstance(v, int) else [hexd(x) for x in v] if isinstance(v, list) else hexd(v)
view = lambda d: {k: hx(v) for k, v in d.items()}


def build(rng, op):
    _, kind, wrap, shapes = op
    lib, comps, views, ranges, free = {}, {}, [], {}, [1, 2, 3, 4, 5]
    rng.shuffle(free)
    for i, (model, src, form) in enumerate(shapes):
        name, grp = "mat%d" % i, GROUP.get(kind)
        props = {k: v for k, v in {"sigma": rng.uniform(1e6, 6e7), "mu_r": rng.uniform(1, 2000), "kh": rng.uniform(.1, 3), "ke": rng.uniform(.1, 3)}.items() if rng.random() < .6}
        own, library = {}, {}
        if model not in ("string", "none", "nosuch", "team13", "constant") and (kind, model) != ("nu", "linear"):
            p, q = params(rng, kind, model), params(rng, kind, model)
            if model in ("lognu", "bh"):        # control points, knots and degree belong together
                q = p if src == "mixed" else q
                library = dict(q)
                own = dict(p) if src == "own" else {} if src == "lib" else {k: p[k] for k in p if rng.random() < .5}
                if src == "mixed":
                    library = {k: v if k not in own else (v + 1 if k == "degree" else [x * 1.5 for x in v]) for k, v in q.items()}
                if q["degree"] == 3 and "degree" not in own and rng.random() < .5:
                    library.pop("degree", None)
            else:
                own = dict(p) if src == "own" else {} if src == "lib" else {k: p[k] for k in p if rng.random() < .5}
                library = {} if kind == "br" else dict(q)
        mat = dict(props)
        if library:
            if grp == "Demag":
                mat[grp] = library
            else:
                mat[grp] = {model: library}
                if grp != "core_loss" and rng.random() < .5 and kind == "nu":   # another model's data next to it
                    o = "bh" if model == "lognu" else "lognu"
                    mat[grp][o] = spline(rng, o == "bh")
        lib[name] = mat
        m = {"name": name}
        if model == "string":
            m = name
        elif kind == "br":
            m = dict(own)
        elif model != "none":
            m[grp] = dict(own)
            if grp in ("conductivity", "reluctivity"):
                m[grp]["model"] = model
        k = 1 if form == "attr" else rng.randint(1, 2)
        attrs = [free.pop() for _ in range(k)]
        comps["part%d" % i] = dict({"attr": attrs[0]} if form == "attr" else {"attrs": attrs}, material=m)
        if kind == "br":
            attrs = [1, 2, 3, 4, 5, 6]
        views.append({"attrs": attrs, "model": model, "own": view(own), "lib": view(library), "props": view(props)})
        full = dict(library, **own)
        for a in attrs:
            ranges[a] = (model, full)
    if kind == "br":
        model = shapes[0][0]
        opt = comps["part0"]["material"]
        opt = {} if isinstance(opt, str) or model == "none" else opt
        views = [dict(views[0], model="br")]
        views[0]["own"] = view(opt)
        ranges = {a: ("br", opt) for a in range(1, 7)}
    else:
        opt = {"components": comps} if wrap == "components" else comps
    return {"op": "Build", "kind": kind, "options": opt, "lib": lib, "view": views}, kind, ranges


def state(rng, kind, r, regime):
    u = rng.uniform
    if kind == "nu":
        bmax = r[1]["knots"][-1] if r and r[0] in ("lognu", "bh") else 2.0
        return [{"any": u(.05, 1.2) * bmax, "low": u(.02, .1) * bmax, "high": u(1.01, 4) * bmax, "edge": bmax, "zero": 0.0}[regime]]
    T = {"any": u(280, 420), "low": u(200, 280), "high": u(420, 480), "edge": 293.15, "zero": 0.0}[regime]
    if regime == "edge" and r and r[1]:
        T = r[1].get("T_ref", r[1].get("T0", T))
    if kind in ("sigma", "br", "bknee"):
        return [max(T, 100.0) if kind == "sigma" else T]
    if kind == "demag":
        return [{"any": u(-1, 1.2), "low": u(-.1, .1), "high": u(1, 3), "edge": 1.0, "zero": 0.0}[regime], T if regime != "zero" else u(280, 420)]
    return [T, u(10, 2000) if regime != "zero" else 0.0, {"any": u(.1, 2), "low": u(.001, .1), "high": u(2, 4), "edge": 1.0, "zero": 0.0}[regime]]


def scenario(rng, h):
    b, kind, ranges = build(rng, h[0])
    cmds = [b]
    for op, a, reg in h[1:]:
        if op == "Lambda":
            cmds.append({"op": op, "v": hexd(rng.choice([0.0, 1.0, rng.uniform(0, 1)]))})
            continue
        if op == "Cont" or a <= 3 and rng.random() < .5 and ranges:
            a = rng.choice(sorted(ranges))
        if op == "Vec":
            a = rng.choice([1, 2, 3, 4])
        if op == "Plain" and kind == "demag" or op == "Plain" and kind == "sigma":
            op = "Eval"
        s = state(rng, kind, ranges.get(a), reg)
        c = {"op": op, "attr": a, "s": [hexd(x) for x in s], "first": rng.randrange(13)}
        if op == "Vec":
            c.update(b=[hexd(rng.uniform(-1, 1)) for _ in range(rng.choice([2, 3]))], dflt=rng.random() < .5)
            c["w"] = [hexd(rng.uniform(-1, 1)) for _ in c["b"]]
        if op == "Cont":
            c["lin"] = hexd(rng.uniform(.1, 10))
        cmds.append(c)
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("tinyspline is not installed: the reluctivity models run on a stand-in B-spline (shim/tinysplinecxx.h), judged against the Cox-de Boor recursion in spec/Jets.tla")
    ck.model("MatModelsMC", need=["Pick", "Look", "Lam"])
    hs = ck.generate("MatModelsGen")
    hs = hs * ck.pick(2, 20) + ck.generate("MatModelsGen", "MatModelsGenL.cfg", simulate=ck.pick(500, 8000), depth=12)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("matmodels", ["common/coefficient.cpp"] + ["physics/electromagnetics/%s.cpp" % f for f in (
        "cal2_ke_coefficient", "cal2_kh_coefficient", "conductivity_coefficient", "demag_flux_coefficient", "pm_demag_constraint_coeff",
        "reluctivity_coefficient", "remnant_flux_coefficient")] + ["physics/miso_input.cpp", "utils/utils.cpp"], mfemx=True, extra_inc=["physics/electromagnetics"])
    for i in range(0, len(scn), 3000):
        part = scn[i:i + 3000]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("MatModelsTrace", ev, rerun=run, label=str(i // 3000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Eval" and unhex(e["d"][-1]) != 0])
            e = evs[i]
            k = rng.choice(["v", "d"])
            if k == "v":
                e["v"] = hexd(unhex(e["v"]) * 1.001 + 1e-3)
            else:
                e["d"][-1] = hexd(unhex(e["d"][-1]) * 1.01)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("MatModelsTrace", ev, mut)


main("C27", body)
