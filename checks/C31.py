import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SOURCES = ["utils/mesh_warper/mesh_warper.cpp", "utils/mesh_warper/mesh_move_integ.cpp", "utils/utils.cpp", "physics/miso_nonlinearform.cpp",
           "physics/miso_input.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp",
           "physics/pde_solver.cpp", "common/coefficient.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp",
           "common/evolver.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp",
           "common/inexact_newton.cpp", "common/linesearch.cpp", "common/material_library.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp",
           "physics/diag_mass_integ.cpp"]
OPS = {"residual": "Residual", "norm": "Norm", "solve": "Solve", "lin": "Linearize", "jvp": "Jvp", "vjp": "Vjp", "adjoint": "Adjoint", "total": "Total"}


def mesh(rng, m, p, nodes, curved):
    three = m in ("tet", "hex")
    if three and p == 2:
        m = "tet"
    n = (lambda: rng.randint(2, 2)) if three else (lambda: rng.randint(2, 3))
    nx, ny, nz = n(), n(), n()
    if three and p == 2:
        nx, ny, nz = 1, 1, rng.randint(1, 2)
    return {"mesh": m, "p": p, "nodes": nodes, "q": rng.choice([p, p, p, 1, 2]), "curved": curved == "curved", "nx": nx, "ny": ny, "nz": nz}


def scenario(rng, h):
    cmds = []
    for op in h:
        if op[0] == "build":
            cmds.append({"op": "Build", **mesh(rng, *op[1:])})
        else:
            cmds.append({"op": OPS[op[0]], "what": op[1]})
    return {"seed": rng.getrandbits(32), "cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.assumptions.append("reference basis functions, quadrature rules and iterative solvers come from mfem and hypre")
    ck.model("WarpMC", need=["MCBuild", "MCMove", "MCLin"])
    hs = ck.generate("WarpGen", limit=ck.pick(120, 1500)) + ck.generate("WarpGen", "WarpGenL.cfg", simulate=ck.pick(90, 1500), depth=10)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("warp", SOURCES, mfemx=True)
    for i in range(0, len(scn), 120):
        part = scn[i:i + 120]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("WarpTrace", ev, rerun=run, label=str(i // 120)):
            return
    par = [{"seed": 1, "cmds": [{"op": "Both", **mesh(rng, *(rng.choice(x) for x in (["tri", "quad", "tet", "hex"], [1, 2], ["none", "vdim", "nodes"], ["flat", "curved"])))}]}
           for _ in range(ck.pick(12, 100))]
    run = lambda: ck.run(exe, par, mpi=2)
    if not ck.validate("WarpTrace", run(), rerun=run, label="par"):
        return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Solve"])
            evs[i]["out"] = [hexd(unhex(v) + 1e-3) for v in evs[i]["out"]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("WarpTrace", ev, mut)


main("C31", body)
