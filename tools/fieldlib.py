"""Scenarios for the field and norm checks (C17, C24)."""
from mbv import hexd

SOURCES = ["physics/pde_solver.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp",
           "common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp",
           "physics/miso_input.cpp", "common/ode.cpp", "common/mfem_extensions.cpp",
           "common/linesearch.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp",
           "common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "common/matrix_operators.cpp"]
ALIAS = {"H1": ["H1", "h1", "CG", "cg"], "L2": ["L2", "l2", "DG", "dg"], "ND": ["ND", "nd", "nedelec"], "RT": ["RT", "rt"],
         "csbp": ["csbp", "CSBP"], "dsbp": ["dsbp", "DSBP"]}
DIM = {"seg": 1, "quad": 2, "tri": 2, "hex": 3, "tet": 3}


def hx(v):
    return [hexd(x) for x in v]


def mesh(rng, fams, solver=False, curve=None):
    types = ["seg", "quad", "tri", "hex", "tet"]
    if any(f in ("csbp", "dsbp") for f in fams):
        types = ["seg", "tri", "tri"]
    if "dsbp" in fams:
        types = ["tri"]
    if any(f in ("ND", "RT") for f in fams):
        types = [t for t in types if t != "seg"]
    t = rng.choice(types)
    n = {"seg": [rng.randrange(3, 7)], "quad": [rng.randrange(2, 4), rng.randrange(1, 4)], "tri": [rng.randrange(1, 4), rng.randrange(1, 3)],
         "hex": [2, 1, 1], "tet": [1, 1, 1]}[t]
    nc = t == "quad" and not solver and all(f in ("H1", "L2") for f in fams) and rng.random() < .5
    m = {"type": t, "n": n, "nc": nc, "curve": 0 if nc else (rng.choice([0, 0, 1, 2]) if curve is None else curve), "byvdim": rng.random() < .5,
         "shift": hx(rng.uniform(-.06, .06) for _ in range(37)), "parts": [rng.randrange(2) for _ in range(11)]}
    return m


def fun(rng, nl):
    return {"nl": nl, "c": [hx(rng.uniform(-1, 1) for _ in range(5)) for _ in range(4)]}


def degree(rng, fam, t):
    if fam in ("csbp", "dsbp"):
        return rng.randrange(0, 3)
    if t in ("hex", "tet"):
        return 1 if fam != "L2" else rng.randrange(0, 2)
    return rng.randrange(0 if fam in ("L2", "RT") else 1, 3)


def vdim(rng, fam):
    return 1 if fam in ("ND", "RT") else rng.choice([1, 1, 2, 3])


def solver(rng, i, fam, m=None):
    m = m or mesh(rng, [fam], solver=True)
    t = m["type"]
    ext = None
    if rng.random() < .7:
        ef = rng.choice(["H1", "L2"] + (["ND"] if t != "seg" else []))
        ext = {"ext": {"basis-type": rng.choice(ALIAS[ef]), "degree": degree(rng, ef, t), "num-states": vdim(rng, ef)}}
        if rng.random() < .4:
            ext["other"] = {"basis-type": "H1", "degree": 1, "num-states": rng.randrange(1, 3)}
    return {"cmd": "Solver", "id": i, "degree": degree(rng, fam, t), "basis": rng.choice(ALIAS[fam]), "vdim": vdim(rng, fam), "ext": ext,
            "count": rng.random() < .5, "mesh": m, "file": rng.random() < .4}


def scenario(rng, h):
    fams = sorted({o[2] for o in h if o[0] == "make"})
    meshes = [mesh(rng, fams) for _ in range(2 if any(o[0] == "move" for o in h) else rng.choice([1, 2]))]
    nlok = not any(m["nc"] for m in meshes)
    vals = lambda: hx(rng.uniform(-2, 2) for _ in range(rng.choice([1, 7, 13, 29])))
    cmds = []
    for o in h:
        op = o[0]
        if op == "make":
            mi = rng.randrange(len(meshes))
            fam = o[2]
            how = "plain" if rng.random() < .1 else rng.choice(["json", "json", "options"]) if fam in ("H1", "L2", "ND", "csbp") else "json"
            gd = None
            c = {"cmd": "Make", "name": o[1], "kind": o[3], "how": how, "mesh": mi, "basis": fam if how != "json" else rng.choice(ALIAS[fam]),
                 "degree": degree(rng, fam, meshes[mi]["type"]), "vdim": vdim(rng, fam), "byvdim": how != "options" or rng.random() < .5,
                 "nameless": rng.random() < .3}
            if how == "json" and fam in ("csbp", "dsbp") and rng.random() < .4:
                c["gd"] = rng.random() < .7
                if c["gd"] and fam == "dsbp" and rng.random() < .5:
                    c["basis"] = "H1"
            cmds.append(c)
        elif op == "copy":
            cmds.append({"cmd": "CopySpace", "name": o[1], "from": o[2], "kind": o[3]})
        elif op == "move":
            cmds.append({"cmd": "Move", "name": o[1], "from": o[2], "assign": rng.random() < .6})
        elif op == "dist":
            cmds.append({"cmd": "Distribute", "name": o[1], "t": vals()} if not o[1].endswith("mesh_coords") else {"cmd": "Collect", "name": o[1]})
        elif op == "coll":
            cmds.append({"cmd": "Collect", "name": o[1]})
        elif op == "poke":
            cmds.append({"cmd": "Poke", "name": o[1], "v": vals()} if not o[1].endswith("mesh_coords") else {"cmd": "Collect", "name": o[1]})
        elif op == "proj":
            # (a function of the coordinates has no fixed meaning while they are being set, so they are distributed)
            cmds.append({"cmd": "Project", "name": o[1], "fun": fun(rng, nlok and rng.random() < .7), "vec": rng.random() < .2, "coef": rng.random() < .5}
                        if not o[1].endswith("mesh_coords") else {"cmd": "Stretch", "name": o[1], "s": stretch(rng)})
        elif op == "eval":
            cmds.append({"cmd": "Eval", "name": o[1], "e": rng.randrange(50)})
        elif op == "solver":
            cmds.append(solver(rng, o[1], o[2]))
        elif op in ("set", "err"):
            c = {"cmd": "SetState" if op == "set" else "StateError", "id": o[1], "name": o[2], "short": rng.random() < .6,
                 "form": rng.choice(["fun", "fun", "coef", "coef", "whole"] + (["vec", "size"] if op == "err" else [])),
                 "fun": fun(rng, rng.random() < .7), "t": vals(), "other": vals(), "equal": rng.random() < .3}
            if o[2] == "mesh_coords":
                if op == "set":
                    c = {"cmd": "Stretch", "name": o[1] + ".mesh_coords", "s": stretch(rng)}
                else:
                    c["form"] = "vec"
            cmds.append(c)
        elif op == "coords":
            cmds.append({"cmd": "Coordinates", "id": o[1]})
        elif op == "size":
            cmds.append({"cmd": "Size", "id": o[1], "name": rng.choice(["dirichlet_bc", "mesh_coords", "ext", "other", "nothing", ""])})
        elif op == "start":
            cmds.append({"cmd": "Start", "id": o[1], "t": vals()})
        elif op == "swap":
            cmds.append({"cmd": "Swap", "id": o[1], "e": rng.randrange(9), "corner": rng.randrange(3), "reflect": rng.random() < .7})
            cmds.append({"cmd": "Start", "id": o[1], "t": vals()})
        elif op == "file":
            f = rng.choice([("nowhere", False), ("nowhere", True), ("a.mesh", True), ("a.vtk", False), ("a.vtk", True), ("a.smb", False), ("b.c.ugrid", False), ("b.ugrid", False),
                            ("x.mesh.", True), ("x.", False), ("x.meshy", False), ("dir.mesh/x", False)])
            e = f[0].rsplit(".", 1)[1] if "." in f[0] else ""
            cmds.append({"cmd": "MeshFile", "file": f[0], "given": f[1], "dot": "." in f[0], "ext": e})
    if len(meshes) == 2 and rng.random() < .5:     # a field is replaced by one of another mesh
        k = rng.choice(["state", "dual"])
        for i, n in ((0, "d"), (1, "e")):
            cmds.append({"cmd": "Make", "name": n, "kind": k, "how": "json", "mesh": i, "basis": "H1", "degree": 1, "vdim": rng.randrange(1, 3), "byvdim": True, "nameless": False})
            cmds.append({"cmd": "Distribute", "name": n, "t": vals()})
        cmds += [{"cmd": "Move", "name": "d", "from": "e", "assign": True}, {"cmd": "Collect", "name": "d"}]
    names = sorted({o[1] for o in h if o[0] in ("make", "copy", "move")})
    for n in names:
        cmds.append({"cmd": "Collect", "name": n})
    return {"meshes": meshes, "cmds": cmds}


def stretch(rng):
    """factors by which a mesh is scaled and bent"""
    return hx([rng.uniform(.7, 1.5), rng.uniform(-.1, .1), rng.uniform(-.5, .5)])


def norm_scenario(rng, h):
    fam = h[0][1]
    vals = lambda: hx(rng.uniform(-2, 2) for _ in range(rng.choice([1, 7, 13, 29])))
    m = mesh(rng, [fam])
    cmds = []
    if h[0][0] == "make":
        p = degree(rng, fam, m["type"])
        if fam == "L2" and rng.random() < .4:    # with rules that have negative weights
            while m["type"] not in ("tri", "tet"):
                m = mesh(rng, [fam])
            p = 0
            for i, o in enumerate(h):
                if o[0] == "norm" and o[1] == "norm":
                    h[i] = ["norm", "fun"] + list(o[2:])
        cmds.append({"cmd": "Make", "name": "a", "kind": "state", "how": "json", "mesh": 0, "basis": rng.choice(ALIAS[fam]), "degree": p,
                     "vdim": vdim(rng, fam), "byvdim": True, "nameless": False})
        cmds.append({"cmd": "Distribute", "name": "a", "t": vals()})
    else:
        cmds.append(solver(rng, "S", fam))
        cmds[0]["file"] = False
    for o in h[1:]:
        if o[0] == "norm":
            cmds.append({"cmd": "Norm", "name": "a", "form": o[1], "p": "inf" if o[2] == "inf" else hexd(float(o[2])), "entry": -1 if o[3] == "all" else int(o[3]),
                         "equal": o[4] == "equal", "fun": fun(rng, rng.random() < (.2 if o[4] == "equal" else .7)), "default": rng.random() < .15, "vec": rng.random() < .3, "peak": o[4] == "far" and rng.random() < (.7 if cmds[0].get("degree") == 0 else .1)})
        elif o[0] == "err":
            cmds.append({"cmd": "StateError", "id": "S", "name": o[2], "form": o[1], "equal": o[3] == "equal", "short": rng.random() < .6,
                         "fun": fun(rng, rng.random() < .7), "t": vals(), "other": vals()})
        elif h[0][0] == "make":
            cmds.append({"cmd": "Distribute" if o[0] == "dist" else "Poke", "name": "a", "t": vals(), "v": vals()})
    return {"meshes": [m], "cmds": cmds}
