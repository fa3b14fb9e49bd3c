import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from formlib import SOURCES

MORE = ["physics/common_outputs.cpp", "physics/electromagnetics/electromag_outputs.cpp", "physics/electromagnetics/cal2_kh_coefficient.cpp",
        "physics/electromagnetics/cal2_ke_coefficient.cpp", "physics/electromagnetics/pm_demag_constraint_coeff.cpp", "physics/electromagnetics/demag_flux_coefficient.cpp"]
SPREAD = ("dcdist", "acdist", "coredist", "heat")
EVERY = ["wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length", "frequency", "num_turns", "num_slots"]


class Deal:
    def __init__(self, rng):
        self.rng, self.deck = rng, {}

    def __call__(self, key, items):
        if not self.deck.get(key):
            self.deck[key] = self.rng.sample(items, len(items))
        return self.deck[key].pop()


def output(rng, deal, out):
    force = out in ("force", "torque")
    el = deal(out, ["tri", "quad", "tet", "hex"])
    dim = 2 if el in ("tri", "quad") else 3
    fam = "ND" if force and dim == 3 else "H1"
    p = 1 if el == "hex" else rng.choice([1, 1, 2])
    t = p if el == "hex" else rng.choice([1, 1, 2])
    spread = out in SPREAD
    fields = {} if force else {"temperature": {"fam": "H1", "p": t}, "peak_flux": {"fam": "H1", "p": 1 if spread else rng.choice([1, 1, 2])}, "thermal_adjoint": {"fam": "H1", "p": t}}
    world = {"op": "form", "seed": rng.getrandbits(48), "el": el, "nd": 2, "nb": 2, "internal": False, "curve": rng.choice([1, 1, 2]), "fam": fam, "p": p, "fields": fields,
             "kind": "functional", "sname": "state", "terms": [], "ess": [], "defaults": {}}
    poly = lambda: [rng.uniform(.5, 1.5)] + [rng.uniform(-.1, .3) for _ in range(rng.randint(0, 2))]
    loss = lambda: {"T0": rng.uniform(.3, .6), "kh_T0": poly(), "T1": rng.uniform(1.0, 1.5), "kh_T1": poly(), "ke_T0": poly(), "ke_T1": poly()}
    lib = {"steel": {"rho": rng.uniform(.5, 2)}, "other": {"rho": rng.uniform(.5, 2)}}
    comps = {"a": {"attrs": [1], "material": {"name": "steel", "core_loss": loss()}}, "b": {"attr": 2, "material": {"name": "other", "core_loss": loss()}}}
    if rng.random() < .3:
        comps["b"]["material"] = "other"
    cfg = {"op": "out", "out": out, "world": world, "vary": out in ("dc", "ac") and rng.random() < .5, "attrs": rng.choice([None, [1], [2], [1, 2]]),
           "core": rng.choice([None, [1], [2]]), "ess": rng.choice([[], [1], [2], [1, 2]]) if spread else [], "components": comps, "materials": lib}
    if force:
        cfg["on"] = rng.choice([[1], [2]])
        if out == "torque":
            # an axis not through the origin
            cfg["axis"] = [0.0, 0.0, rng.choice([1.0, -1.0, 2.5])] if dim == 2 or rng.random() < .3 else [rng.uniform(-1, 1) for _ in range(3)]
            cfg["about"] = [rng.uniform(-.5, 1.5) for _ in range(3)]
        else:
            cfg["axis"] = [rng.uniform(-1, 1) for _ in range(3)]
    return cfg


NUMBERS = {"dc": EVERY[:4], "ac": ["frequency", "strand_radius", "stack_length", "strands_in_hand", "num_turns", "num_slots"], "core": ["frequency"], "dcdist": EVERY[:5],
           "acdist": ["frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots"], "coredist": ["frequency"], "heat": EVERY, "force": [], "torque": []}


def scenario(rng, deal, h):
    out = h[0][1]
    cfg = output(rng, deal, out)
    names = ["state", "mesh_coords"] + [f for f in cfg["world"]["fields"] if f != "thermal_adjoint"] + NUMBERS[out]
    k, cmds = 0, [cfg]

    def add(op, **kw):
        nonlocal k
        k += 1
        cmds.append(dict(op=op, k=k, **kw))
    pick = lambda w: names if w == "all" else [rng.choice(names)] if w == "one" else rng.sample(names, rng.randint(1, len(names)))
    add("value" if out in SPREAD else "set", names=names, extra=False, split=False)
    fresh = True
    for o in h[1:]:
        if o[0] == "set":
            add("set", names=pick(o[1]), extra=o[2] == "extra", split=o[2] == "split")
            fresh = False
        elif o[0] == "value":
            add("value", names=pick(o[1]), extra=rng.random() < .2)
            fresh = True
        else:
            if out in SPREAD and not fresh:
                add("value", names=[], extra=False)
                fresh = True
            w = {"state": "state", "mesh": "mesh_coords"}.get(o[2]) or deal(out + o[2], ["temperature", "peak_flux"] if o[2] == "field" else NUMBERS[out])
            if w in UNKNOWN.get(out, ()):
                continue
            add("deriv", wrt=w, mode=o[1])
    return {"cmds": cmds}


# products that the forms underneath do not offer
UNKNOWN = {"core": ("state",)}


def body(ck):
    rng = ck.rng
    ck.model("EMOutputsMC", need=["MCOut", "MCSet", "MCValue", "MCDeriv"])
    exe = ck.build("emout", SOURCES + MORE, mfemx=True)
    hs = ck.generate("EMOutputsGen", limit=ck.pick(500, 4000)) + ck.generate("EMOutputsGen", "EMOutputsGenL.cfg", simulate=ck.pick(700, 8000), depth=14)
    rng.shuffle(hs)
    deal = Deal(rng)
    scn = [scenario(rng, deal, h) for h in hs]
    for i in range(0, len(scn), 300):
        part = scn[i:i + 300]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("EMOutputsTrace", ev, rerun=run, label=str(i // 300)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Value" and abs(unhex(e["got"][0])) > 1e-3])
            evs[i]["got"][0] = hexd(unhex(evs[i]["got"][0]) * (1 + 1e-3))
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("EMOutputsTrace", ev, mut)


main("C34", body)
