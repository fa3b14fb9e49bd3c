import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from formlib import SOURCES

MORE = ["physics/electromagnetics/" + f for f in ("magnetostatic_residual.cpp", "current_source_functions.cpp", "current_load.cpp",
        "magnetic_source_functions.cpp", "remnant_flux_coefficient.cpp")] + ["common/mfem_extensions.cpp", "utils/div_free_projector.cpp", "utils/irrotational_projector.cpp"]


class Deal:
    def __init__(self, rng):
        self.rng, self.deck = rng, {}

    def __call__(self, key, items):
        if not self.deck.get(key):
            self.deck[key] = self.rng.sample(items, len(items))
        return self.deck[key].pop()


def residual(rng, deal, space):
    dg, three = space == "L2", space == "ND"
    el = deal(space, ["tet", "hex"] if three else ["tri", "quad"])
    p = 1 if el == "hex" else rng.choice([1, 1, 2])
    basis = "nedelec" if three else deal("basis" + space, ["L2", "l2", "DG", "dg"] if dg else ["H1", "h1"])
    maybe = lambda key: deal(space + key, [True, True, False])
    attrs = lambda: rng.choice([[1], [2], [1, 2]])
    dis = {"degree": p, "basis-type": basis}
    precs = [{"type": "none"}, {"type": "hypreboomeramg", "printlevel": 0}, {"type": "hypreilu", "printlevel": 0, "ilu-type": 0, "lev-fill": 1, "ilu-reorder": 1}] + [{"type": "hypreams", "printlevel": 0}] * three
    opts = {"space-dis": dis, "bcs": {}, "lin-prec": deal("prec" + space, precs)}
    form = {"basis": basis, "degree": p, "dim": 3 if three else 2, "penalty": [], "essential": [], "weak": [], "current": [], "magnets": []}
    terms = [("CurlCurl" if three else "Diffusion", "domain", [], [], "")]
    mu = float((p + 1) ** 3)
    if maybe("pen"):
        mu = rng.uniform(5, 15)
        dis["sipg-penalty"] = mu
        form["penalty"] = [hexd(mu)]
    if dg:
        terms.append(("DGInterior", "interior", [], [mu, 1.0], ""))
    ess = []
    if maybe("ess"):
        ess = attrs() if dg or three else rng.choice([[1], [2]])
        opts["bcs"]["essential"] = ess
        form["essential"] = [ess]
        if dg:
            terms.append(("DGDiffusion", "bdr", ess, [mu], "essential"))
    if not three and maybe("weak"):
        a = attrs()
        opts["bcs"]["weak-essential"] = a
        form["weak"] = [a]
        terms.append(("DGDiffusion", "bdr", a, [mu], "weak"))
    what = "current" if three else deal("what" + space, ["current", "magnets", "both", "both"])
    mats = {}
    if what != "magnets":
        cur = {}
        for a in rng.choice([[1], [2], [1, 2], [1, 2]]):
            cur.setdefault(rng.choice(["coil", "phaseA", "phaseB"]), {}).setdefault(rng.choice(["z", "-z"] + ["x", "y"] * three), []).append(a)
        opts["current"] = cur
        form["current"] = [{"group": g, "attrs": sorted(a for v in d.values() for a in v)} for g, d in sorted(cur.items())]
        terms.append(("Current", "load", sorted(a for c in form["current"] for a in c["attrs"]), [], ""))
    if what != "current":
        mats = {n: {"alpha_B_r": rng.uniform(-.3, .1), "T_ref": rng.uniform(.5, 1.5), "B_r_T_ref": rng.uniform(.5, 1.6)} for n in ("Nd2Fe14B", "SmCo")}
        mag = {}
        for a in rng.choice([[1], [2], [1, 2]]):
            mag.setdefault(rng.choice(sorted(mats)), {}).setdefault(rng.choice(["north", "south", "cw", "ccw", "x", "y"]), []).append(a)
        opts["magnets"] = mag
        form["magnets"] = [{"group": g, "attrs": sorted(a for v in d.values() for a in v)} for g, d in sorted(mag.items())]
        terms.append(("Magnet", "load", sorted(a for c in form["magnets"] for a in c["attrs"]), [], ""))
    if not opts["bcs"] and rng.random() < .5:
        del opts["bcs"]
    world = {"op": "form", "seed": rng.getrandbits(48), "el": el, "nd": 2, "nb": 2, "internal": False, "curve": 1 if three else rng.choice([1, 1, 2]), "fam": space, "p": p,
             "fields": {"dirichlet_bc": {}, "temperature": {"fam": "H1", "p": 1}}, "kind": "residual", "sname": "state", "terms": [], "ess": [] if dg else ess, "defaults": {}}
    return {"op": "res", "options": opts, "materials": mats, "world": world, "form": form,
            "terms": [dict(type=a, place=b, attrs=c, d=[hexd(x) for x in d], name=e) for a, b, c, d, e in terms], "numbers": ["current_density:" + c["group"] for c in form["current"]]}


def scenario(rng, deal, h):
    cfg = residual(rng, deal, h[0][1])
    names = ["state", "mesh_coords", "dirichlet_bc", "temperature"] + cfg["numbers"]
    rev = not any(t["type"] == "DGDiffusion" for t in cfg["terms"])
    k, cmds, fresh = 0, [cfg], False

    def add(op, **kw):
        nonlocal k
        k += 1
        cmds.append(dict(op=op, k=k, **kw))
    pick = lambda w: names if w == "all" else cfg["numbers"][:1] if w == "number" else [rng.choice(names)] if w == "one" else rng.sample(names, rng.randint(1, len(names)))
    add("set", names=names, extra=False)
    for o in h[1:]:
        if o[0] in ("set", "eval", "lin"):
            ns = list(pick(o[1]))
            if o[0] != "set" and "state" not in ns:
                ns = ns + ["state"]
            add(o[0], names=ns, extra=rng.random() < .2)
            fresh = o[0] == "lin"
            continue
        if o[0] == "product":
            w = {"mesh": "mesh_coords", "state": "state", "field": "temperature"}.get(o[2]) or (rng.choice(cfg["numbers"]) if cfg["numbers"] else "state")
            if w == "mesh_coords" and not rev:
                w = rng.choice(cfg["numbers"]) if cfg["numbers"] else "state"
            if w == "temperature" and not cfg["form"]["magnets"]:
                w = "state"
        if not fresh:
            add("lin", names=["state"], extra=False)
            fresh = True
        if o[0] == "product" and h[0][1] == "ND" and w.startswith("current"):
            o = [o[0], "vjp"]           # in space the load has no other
        elif o[0] == "product" and h[0][1] == "ND":
            continue
        add(o[0], **({"wrt": w, "mode": o[1]} if o[0] == "product" else {}))
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("MagResMC", need=["MCMake"])
    exe = ck.build("magres", SOURCES + MORE, mfemx=True, defines=["MFEMX_FUNCS", "MFEMX_MOVE"])
    hs = ck.generate("MagResGen", limit=ck.pick(300, 4000)) + ck.generate("MagResGen", "MagResGenL.cfg", simulate=ck.pick(300, 8000), depth=14)
    rng.shuffle(hs)
    deal = Deal(rng)
    scn = [scenario(rng, deal, h) for h in hs]
    for i in range(0, len(scn), 300):
        part = scn[i:i + 300]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("MagResTrace", ev, rerun=run, label=str(i // 300)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Eval" and abs(unhex(e["got"][0])) > 1e-3])
            evs[i]["got"][0] = hexd(unhex(evs[i]["got"][0]) * (1 + 1e-3))
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("MagResTrace", ev, mut)


main("C36", body)
