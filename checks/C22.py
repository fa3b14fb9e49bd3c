import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

DIM = {"seg": 1, "tri": 2, "tet": 3}


def mesh(rng, h):
    _, kind, p, geo, coll = h
    d, p = DIM[kind], int(p)
    if coll == "dsbp" and kind != "tri":
        coll = "sbp"                           # that collection is two-dimensional
    sd = d if geo != "embedded" or d == 3 else rng.randrange(d + 1, 4)
    verts = [[0.0] * d] + [[1.0 if i == c else 0.0 for i in range(d)] for c in range(d)]
    els = [list(range(d + 1))]
    if geo != "unit" and rng.random() < .7:    # a second element behind the facet of the last vertices
        verts.append([1.5] * d if d > 1 else [2.5])
        els.append(list(range(1, d + 2)))
    scale = 1.0
    if geo != "unit":
        verts = [[x + rng.uniform(-.12, .12) for x in v] for v in verts]
    if geo == "stretched":
        f = [10.0 ** rng.uniform(-4, 4) for _ in range(d)]
        verts = [[x * s for x, s in zip(v, f)] for v in verts]
        for s in f:
            scale *= s
    if sd > d:
        A = [[rng.uniform(-1, 1) for _ in range(d)] for _ in range(sd)]
        for i in range(d):
            A[i][i] += 2.0
        verts = [[sum(A[r][c] * v[c] for c in range(d)) for r in range(sd)] for v in verts]
    curved = geo == "curved" or (geo == "embedded" and rng.random() < .5)
    for e in els:
        if d < 3 and rng.random() < .5:
            e.append(e.pop(0))
    return {"cmd": "Mesh", "dim": d, "sdim": sd, "p": p, "coll": coll, "verts": [[hexd(x) for x in v] for v in verts], "elems": els,
            "order": rng.choice([2, 2, 3]) if curved else rng.choice([0, 0, 1]), "seed": rng.randrange(10 ** 6),
            "amp": hexd(.03 if curved else 0.0), "vdim": rng.randrange(2), "scale": hexd(scale)}


def scenario(rng, h):
    cmds = []
    for o in h:
        if o[0] == "make":
            ns, vary = int(o[1]), o[2] == "vary"
            form = 2 if vary or rng.random() < .5 else 0 if ns == 1 else 1
            cmds.append({"cmd": "Make", "ns": ns, "vary": vary, "form": form})
        else:
            cmds.append(mesh(rng, o))
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("DiagMassMC", need=["MCMake", "MCAssemble", "MCTotal"])
    scn = [scenario(rng, h) for h in ck.generate("DiagMassGen", limit=ck.pick(1200, 100000)) + ck.generate("DiagMassGen", "DiagMassGenL.cfg", simulate=ck.pick(150, 3000), depth=14)]
    exe = ck.build("diagmass", ["physics/diag_mass_integ.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"])
    for i in range(0, len(scn), 2500):
        part = scn[i:i + 2500]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("DiagMassTrace", ev, rerun=run, label=str(i // 2500)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Assemble"])
            q = rng.choice(evs[i]["ent"])
            q[2] = hexd(unhex(q[2]) * 1.0001)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("DiagMassTrace", ev, mut)


main("C22", body)
