import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from formlib import SOURCES

MORE = ["physics/thermal/thermal_residual.cpp"]


class Deal:
    def __init__(self, rng):
        self.rng, self.deck = rng, {}

    def __call__(self, key, items):
        if not self.deck.get(key):
            self.deck[key] = self.rng.sample(items, len(items))
        return self.deck[key].pop()


def residual(rng, deal, space):
    dg = space == "L2"
    el = deal(space, ["tri", "quad"] if dg else ["tri", "quad", "tet", "hex"])
    flat = el in ("tri", "quad")
    p = 1 if el == "hex" else rng.choice([1, 1, 2])
    basis = deal("basis" + space, ["L2", "l2", "DG", "dg"] if dg else ["H1", "h1"])
    maybe = lambda key: deal(space + key, [True, True, False])
    attrs = lambda: rng.choice([[1], [2], [1, 2]])
    num = lambda: rng.uniform(.3, 2)
    dis = {"degree": p, "basis-type": basis}
    opts = {"space-dis": dis, "components": {"a": {"attrs": [1], "material": {"name": "m1"}}, "b": {"attrs": [2], "material": {"name": "m2"}}}, "bcs": {},
            "lin-prec": deal("prec", [{"type": "hypreboomeramg", "printlevel": 0}, {"type": "none"}, {"type": "hypreilu", "printlevel": 0, "ilu-type": 0, "lev-fill": 1, "ilu-reorder": 1}])}
    form = {"basis": basis, "degree": p, "penalty": [], "convection": [], "outflux": [], "essential": [], "weak": [], "contact": [], "interface": []}
    terms = [("Diffusion", "domain", [], [], "")]
    mu = float((p + 1) ** 2)
    if maybe("pen"):
        mu = rng.uniform(5, 15)
        dis["sipg-penalty"] = mu
        form["penalty"] = [hexd(mu)]
    if dg:
        terms.append(("DGInterior", "interior", [], [mu, 1.0], ""))

    def pair(o, form, key, name, default):
        if rng.random() < .75:
            o[key] = num()
            form[name] = [hexd(o[key])]
            return o[key]
        form[name] = []
        return default
    if maybe("conv"):
        a = attrs()
        if rng.random() < .25:
            opts["bcs"]["convection"] = a
            form["convection"] = [{"attrs": a, "h": [], "temp": []}]
            d = [1.0, 1.0]
        else:
            o, f = {"attrs": a}, {"attrs": a}
            d = [pair(o, f, "h", "h", 1.0), pair(o, f, "fluid_temp", "temp", 1.0)]
            opts["bcs"]["convection"] = o
            form["convection"] = [f]
        terms.append(("Convection", "bdr", a, d, ""))
    if maybe("out"):
        a = attrs()
        if rng.random() < .25:
            opts["bcs"]["outflux"] = a
            form["outflux"] = [{"attrs": a, "flux": []}]
            d = [1.0]
        else:
            o, f = {"attrs": a}, {"attrs": a}
            d = [pair(o, f, "flux", "flux", 1.0)]
            opts["bcs"]["outflux"] = o
            form["outflux"] = [f]
        terms.append(("Outflux", "bdr", a, d, ""))
    ess = []
    if maybe("ess"):
        ess = rng.choice([[1], [2]]) if not dg else attrs()
        opts["bcs"]["essential"] = ess
        form["essential"] = [ess]
        if dg:
            terms.append(("DGDiffusion", "bdr", ess, [mu], "essential"))
    if flat and maybe("weak"):
        a = attrs()
        opts["bcs"]["weak-essential"] = a
        form["weak"] = [a]
        terms.append(("DGDiffusion", "bdr", a, [mu], "weak"))
    if dg:
        names = rng.sample(["gap", "a", "slot", "zz"], 4)
        for key, kind, ty in (("thermal_contact_resistance", "contact", "Contact"), ("convection", "interface", "Interface")):
            for _ in range(deal(kind, [0, 1, 2])):
                nm, a, o = names.pop(), attrs(), {}
                h, t = num(), num()
                o = {"attrs": a, "h": h}
                f = {"attrs": a, "name": nm, "h": [hexd(h)]}
                d = [h]
                if kind == "interface":
                    o["fluid_temp"] = t
                    f["temp"] = [hexd(t)]
                    d = [h, t]
                opts.setdefault("interfaces", {}).setdefault(key, {})[nm] = o
                form[kind].append(f)
                terms += [("DGInterior", "internal", a, [mu, -1.0], nm), (ty, "internal", a, d, nm)]
    if not opts["bcs"] and rng.random() < .5:
        del opts["bcs"]
    numbers = []
    if form["convection"]:
        numbers += ["h", "fluid_temp"]
    if form["outflux"]:
        numbers += ["outflux"]
    numbers += ["h:" + c["name"] for c in form["contact"] + form["interface"]] + ["fluid_temp:" + c["name"] for c in form["interface"]]
    world = {"op": "form", "seed": rng.getrandbits(48), "el": el, "nd": 2, "nb": 2, "internal": dg, "curve": rng.choice([1, 1, 2]), "fam": space, "p": p,
             "fields": {"dirichlet_bc": {}, "thermal_load": {"fam": space, "p": p}}, "kind": "residual", "sname": "state", "terms": [], "ess": ess if not dg else [], "defaults": {}}
    return {"op": "res", "options": opts, "materials": {"m1": {"kappa": num(), "rho": num()}, "m2": {"kappa": num(), "rho": num()}}, "world": world, "form": form,
            "terms": [dict(type=a, place=b, attrs=c, d=[hexd(x) for x in d], name=e) for a, b, c, d, e in terms], "numbers": numbers}


def scenario(rng, deal, h):
    cfg = residual(rng, deal, h[0][1])
    names = ["state", "mesh_coords", "dirichlet_bc", "thermal_load"] + cfg["numbers"]
    rev = not any(t["type"] == "DGDiffusion" for t in cfg["terms"])
    k, cmds, fresh = 0, [cfg], False

    def add(op, **kw):
        nonlocal k
        k += 1
        cmds.append(dict(op=op, k=k, **kw))
    pick = lambda w: names if w == "all" else ["thermal_load"] if w == "load" else [rng.choice(names)] if w == "one" else rng.sample(names, rng.randint(1, len(names)))
    if rng.random() < .7:
        add("set", names=[n for n in names if n != "thermal_load" or rng.random() < .4], extra=False)
    for o in h[1:]:
        if o[0] in ("set", "eval", "lin"):
            ns = pick(o[1])
            if o[0] != "set" and "state" not in ns:
                ns = ns + ["state"]
            add(o[0], names=ns, extra=rng.random() < .2)
            fresh = o[0] == "lin" or fresh and False
            continue
        w = {"load": "thermal_load", "mesh": "mesh_coords", "state": "state"}.get(o[2]) if o[0] == "product" else None
        if o[0] == "product" and o[2] == "number":
            w = rng.choice(cfg["numbers"]) if cfg["numbers"] else "thermal_load"
        if w == "mesh_coords" and not rev or w == "outflux":
            w = "thermal_load"
        if not fresh:
            add("lin", names=["state"] + (["thermal_load"] if rng.random() < .3 else []), extra=False)
            fresh = True
        add(o[0], **({"wrt": w, "mode": o[1]} if o[0] == "product" else {}))
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("ThermalResMC", need=["MCMake", "MCSet", "MCEval", "MCLin", "MCUse"])
    exe = ck.build("thermalres", SOURCES + MORE, mfemx=True)
    hs = ck.generate("ThermalResGen", limit=ck.pick(500, 4000)) + ck.generate("ThermalResGen", "ThermalResGenL.cfg", simulate=ck.pick(500, 8000), depth=14)
    rng.shuffle(hs)
    deal = Deal(rng)
    scn = [scenario(rng, deal, h) for h in hs]
    for i in range(0, len(scn), 300):
        part = scn[i:i + 300]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("ThermalResTrace", ev, rerun=run, label=str(i // 300)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Eval" and abs(unhex(e["got"][0])) > 1e-3])
            evs[i]["got"][0] = hexd(unhex(evs[i]["got"][0]) * (1 + 1e-3))
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("ThermalResTrace", ev, mut)


main("C35", body)
