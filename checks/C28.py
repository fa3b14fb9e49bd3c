import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SOURCES = ["utils/utils.cpp", "common/coefficient.cpp", "common/functional_output.cpp", "common/miso_linearform.cpp",
           "physics/miso_nonlinearform.cpp", "physics/miso_input.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp",
           "physics/finite_element_vector.cpp", "physics/fluidflow/flow_residual.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp",
           "physics/diag_mass_integ.cpp"]
hx = lambda v: [hexd(x) for x in v]


def scenario(rng, h, par):
    _, dim, basis, flux, ev, visc, dom, lps, jump = h[0]
    ev = ev == "ent"
    dom = dom[0] if dom else ""
    periodic = dom == ""
    deg = rng.randint(0, 2) if basis == "dsbp" else rng.randint(0, 1) if dim == 3 else rng.randint(0, 3)
    u = rng.uniform
    n = {1: [rng.randint(3, 6)], 2: [3, 3] if periodic else [rng.randint(1, 3), rng.randint(1, 2)], 3: [3, 3, 3] if periodic else [1, 1, 1]}[dim]
    if par and not periodic:
        n = [max(2, k) for k in n]
    curve = 2 if dim == 2 and deg > 0 and rng.random() < .3 else 1    # degree 0 does not resolve the metric terms of a quadratic map
    nb = 2 * dim
    bcs = {}
    if not periodic:
        if dom in ("far-field", "slip-wall"):
            bcs = {dom: list(range(1, nb + 1))}
        else:
            kinds = ["slip-wall", "far-field"]
            if visc:
                kinds += ["no-slip-adiabatic"] + (["control", "viscous-mms"] if dom == "driven" and dim == 2 else [])
            elif dom == "driven" and dim == 2:
                kinds += ["control", "pump", "vortex"]
            for a in range(1, nb + 1):
                bcs.setdefault(rng.choice(kinds), []).append(a)
    par_ = {"mu": rng.choice([-1.0, 1.0, .7]), "Re": u(5, 100), "Pr": u(.5, 1), "mach": u(.1, 1.5), "aoa": 0.0 if dim == 1 else u(-40, 40)}
    flow = dict(par_, **{"viscous": visc, "entropy-state": ev, "roll-axis": 0, "pitch-axis": 1})
    opt = {"flow-param": flow, "time-dis": {"steady": False}, "bcs": bcs,
           "space-dis": {"degree": deg, "lps-coeff": u(.1, 2) if lps else 0.0, "iface-coeff": u(.1, 2) if jump else 0.0, "basis-type": basis, "flux-fun": flux}}
    mesh = {"dim": dim, "n": n, "periodic": periodic, "shift": hx(u(-.06, .06) for _ in range(37)), "free": rng.random() < .5,
            "origin": hx(u(-1, 1) for _ in range(3)), "size": hx([u(.5, 2)] * 3), "curve": curve, "bend": hexd(u(-.04, .04)),
            "parts": [rng.randrange(2) for _ in range(11)]}
    if "vortex" in bcs:                     # an annulus is expected: stay in the quadrant
        mesh["origin"] = hx([1.2, 1.2, 0.0])
    p = {"dim": dim, "ev": ev, "flux": flux, "visc": visc, "basis": basis, "deg": deg, "curved": curve > 1, "lps": lps, "jump": jump,
         "bcs": sorted(bcs), "ranks": 2 if par else 1, "par": {k: hexd(v) for k, v in par_.items()}}
    ops = []
    for o in h[1:]:
        st = o[1]
        if periodic and st in ("wave", "wlinear"):
            st = "smooth"
        if o[0] == "Jacobian" and dim == 3 and periodic:
            continue
        if o[0] == "L2Error" and periodic:
            continue                        # the nodes of a periodic mesh have several positions
        bs = sorted(rng.sample(range(1, nb + 1), rng.randint(1, nb)))
        c = {"op": o[0], "state": st, "amp": hexd(u(.01, .3)), "k": hexd(u(0, 2)), "rho": hexd(u(.5, 2)), "p": hexd(u(.5, 2)),
             "v": hx(u(-.5, .5) for _ in range(3)), "grad": hx(u(-.1, .1) for _ in range(3)), "cfl": hexd(u(.1, 2)), "h": hexd(1e-4),
             "outputs": [{"type": "entropy", "boundaries": []}], "grads": visc and periodic and curve == 1 and flux == "IR" and not lps and dim < 3,
             "entry": rng.choice([-1] + list(range(dim + 2)))}
        if not periodic and not visc:
            c["outputs"] += [{"type": t, "boundaries": bs} for t in ("drag", "lift")]
            if dim == 2:
                c["outputs"].append({"type": "boundary-entropy", "boundaries": bs})
        if o[0] == "OutputDeriv":
            if periodic:
                continue
            c["type"] = rng.choice(["drag", "lift"])
            c["boundaries"] = bs
        ops.append(c)
    return {"p": p, "mesh": mesh, "options": opt, "ops": ops, "seed": rng.randrange(1 << 30)}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("drivers/flow.cpp lets mfem 4.5.2 forms be moved (MISO moves forms it has built; its own mfem can)")
    ck.assumptions.append("mfem leaves faces shared by ranks out of a form's energy and gradient (\"TODO\" in its source): calcEntropyChange and Jacobian of dsbp are only checked on one rank")
    ck.model("FlowResMC", need=["MCSetup", "MCResidual"])
    hs = ck.generate("FlowResGen", limit=ck.pick(240, 1200)) + ck.generate("FlowResGen", "FlowResGenL.cfg", simulate=ck.pick(200, 2500), depth=10)
    exe = ck.build("flow", SOURCES, mfemx=True)
    for par in (False, True):
        sel = hs if not par else rng.sample(hs, ck.pick(60, 500))
        scn = [s for s in (scenario(rng, h, par) for h in sel) if s["ops"]]
        for i in range(0, len(scn), 220):
            part = scn[i:i + 220]
            run = lambda: ck.run(exe, part, **({"mpi": 2} if par else {}))
            ev = run()
            if not ck.validate("FlowResTrace", ev, rerun=run, label="%s%d" % ("par" if par else "ser", i // 220)):
                return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Residual"])
            e = evs[i]
            e["entropy"] = hexd(unhex(e["entropy"]) * 1.001 + .001)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("FlowResTrace", ev, mut)


main("C28", body)
