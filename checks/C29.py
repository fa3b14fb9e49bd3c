import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SOURCES = ["utils/utils.cpp", "common/coefficient.cpp", "common/functional_output.cpp", "common/miso_linearform.cpp",
           "physics/miso_nonlinearform.cpp", "physics/miso_input.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp",
           "physics/finite_element_vector.cpp", "physics/fluidflow/flow_residual.cpp", "physics/fluidflow/flow_control_residual.cpp",
           "common/sbp_fe.cpp", "common/orthopoly.cpp", "common/mfem_extensions.cpp", "physics/diag_mass_integ.cpp"]
hx = lambda v: [hexd(x) for x in v]
GAINS = ("Kp", "Td", "Ti", "beta", "eta")


def given(rng, what):
    u = rng.uniform
    gain = lambda n: u(-2, 2) if n == "Kp" else u(.2, 3)
    d = {}
    if what == "all":
        d = {n: gain(n) for n in GAINS}
        if rng.random() < .5:
            d["target-entropy"] = u(-2, 2)
    elif what == "gains":
        d = {n: gain(n) for n in rng.sample(GAINS, rng.randint(1, 5))}
    elif what == "loop":
        d = {"closed-loop": rng.choice([0.0, 0.0, 1.0, 2.0])}
    elif what == "target":
        d = {"target-entropy": u(-2, 2)}
    elif what == "entropy":
        d = {"boundary-entropy": u(-2, 2)}
    d = {k: hexd(v) for k, v in d.items()}
    if what == "storage":
        b = u(-1, 1)
        d["P-matrix"] = hx([u(.1, 2), b, b, u(.1, 2)])
    elif what == "actuator":
        d["x-actuator"] = hx([u(.1, .9), u(-.1, .1)])
    return d


def scenario(rng, h, par):
    kind, test, basis, ev, flux = h[0]
    u = rng.uniform
    ops = []
    first = True
    for o, g in h[1:]:
        c = {"op": o, "x": hx([u(-1, 1), u(-1, 1)]), "d": hx([u(-1, 1), u(-1, 1)]), "amp": hexd(u(.01, .2))}
        if o == "BadP":
            b = u(-1, 1)
            c["in"] = {"P-matrix": hx([u(.1, 2), b, b + rng.choice([-1, 1]) * u(1e-6, 1), u(.1, 2)])}
            if par:
                continue                        # only the rank that holds the matrix refuses it
        else:
            c["in"] = given(rng, g)
            if first and rng.random() < .9 or not ops or first and o not in ("Entropy", "Output", "Mass", "Give"):
                if o in ("Mass", "BadBlock", "Supply", "Change") and kind == "flow":
                    ops.append({"op": "Give", "in": given(rng, "all"), "x": c["x"], "d": c["d"]})
                else:
                    c["in"] = dict(given(rng, "all"), **c["in"])
                first = False
        ops.append(c)
        if o == "BadP":                         # what a refused matrix leaves behind is not said
            break
    p = {"kind": kind, "test": test, "basis": basis, "flux": flux, "ranks": 2 if par else 1, "control": [], "far": []}
    if kind == "control":
        if ops and ops[0]["op"] == "BadP":
            ops.insert(0, {"op": "Give", "in": given(rng, "all"), "x": ops[0]["x"], "d": ops[0]["d"]})
        return {"p": p, "test": test, "ops": ops}
    deg = rng.randint(0, 2)
    attrs = [1, 2, 3, 4]
    control = rng.choice([[1], [1], [1, 2], [4, 1]])
    rest = [a for a in attrs if a not in control]
    far = rng.sample(rest, rng.randint(1, len(rest)))
    bcs = {"control": control, "far-field": far}
    if len(far) < len(rest):
        bcs["slip-wall"] = [a for a in rest if a not in far]
    opt = {"flow-param": {"mu": -1.0, "Re": 10.0, "Pr": .7, "mach": u(.1, .8), "aoa": u(-40, 40), "viscous": False, "entropy-state": ev, "roll-axis": 0, "pitch-axis": 1},
           "time-dis": {"steady": False}, "bcs": bcs, "test-ode": test, "lin-prec": {"type": "blockilu"},
           "outputs": {"boundary-entropy": {"boundaries": control}, "far-field-supply-rate": {"boundaries": far}},
           "space-dis": {"degree": deg, "lps-coeff": u(.1, 2) if rng.random() < .5 else 0.0, "iface-coeff": u(.1, 2) if rng.random() < .5 else 0.0,
                         "basis-type": basis, "flux-fun": flux}}
    mesh = {"dim": 2, "n": [rng.randint(2, 3), rng.randint(1, 2)], "periodic": False, "shift": hx(u(-.06, .06) for _ in range(37)), "free": rng.random() < .5,
            "origin": hx([0.0] * 3), "size": hx([1.0] * 3), "curve": 1, "bend": hexd(0.0), "parts": [rng.randrange(2) for _ in range(11)]}
    p.update(control=control, far=far)
    return {"p": p, "mesh": mesh, "options": opt, "ops": ops, "seed": rng.randrange(1 << 30)}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("drivers/flow.cpp lets mfem 4.5.2 forms be moved (MISO moves forms it has built; its own mfem can)")
    ck.assumptions.append("the coupled system is driven in two dimensions without viscosity, where the boundary flux is affine in the control")
    ck.model("FlowControlMC", need=["MCNew", "MCParams", "MCGive", "MCCoupled"])
    a = [h for h in ck.generate("FlowControlGen")]
    ctl = [h for h in a if h[0][0] == "control"] + ck.generate("FlowControlGen", "FlowControlGenL.cfg", simulate=ck.pick(200, 2500), depth=12)
    flow = [h for h in a if h[0][0] == "flow"]
    flow = rng.sample(flow, min(len(flow), ck.pick(120, 1500))) + ck.generate("FlowControlGen", "FlowControlGenF.cfg", simulate=ck.pick(100, 1200), depth=10)
    exe = ck.build("flowctrl", SOURCES, mfemx=True)
    for par in (False, True):
        sel = ctl + flow if not par else rng.sample(ctl, ck.pick(80, 600)) + rng.sample(flow, ck.pick(50, 500))
        rng.shuffle(sel)
        scn = [s for s in (scenario(rng, h, par) for h in sel if not (par and h[0][2] == "dsbp")) if s["ops"]]
        for i in range(0, len(scn), 400):
            part = scn[i:i + 400]
            run = lambda: ck.run(exe, part, **({"mpi": 2} if par else {}))
            ev = run()
            if not ck.validate("FlowControlTrace", ev, rerun=run, label="%s%d" % ("par" if par else "ser", i // 400)):
                return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Evaluate"])
            e = evs[i]
            e["r"][1] = hexd(unhex(e["r"][1]) * 1.001 + .001)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("FlowControlTrace", ev, mut)


main("C29", body)
