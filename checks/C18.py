import sys, os, itertools; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

NODES = {("seg", p): p + 2 for p in range(5)}
NODES.update({("tri", p): n for p, n in enumerate([3, 7, 12, 18, 27])})
NODES.update({("tet", 0): 4, ("tet", 1): 14})
DIM = {"seg": 1, "tri": 2, "tet": 3}


def mesh(rng, h):
    _, d, p, coll, a, b = h
    d, p = int(d), int(p)
    perm = lambda v, k: list(list(itertools.permutations(v))[int(k)])
    # two simplices sharing the facet of the vertices 1..d, and every boundary facet
    verts = [[0.0] * d] + [[1.0 if i == c else 0.0 for i in range(d)] for c in range(d)] + [[1.5] * d if d > 1 else [2.5]]
    verts = [[x + rng.uniform(-.15, .15) for x in v] for v in verts]
    shared = list(range(1, d + 1))
    els = [[0] + shared, shared + [d + 1]]
    bdr = []
    for apex, e in ((0, els[0]), (d + 1, els[1])):
        for drop in shared:
            f = [v for v in e if v != drop]
            rng.shuffle(f)
            bdr.append(f)
    lab = list(range(d + 2))
    rng.shuffle(lab)                       # global numbering of the vertices
    place = [None] * (d + 2)
    for v, l in enumerate(lab):
        place[l] = verts[v]
    ren = lambda e: [lab[v] for v in e]
    return {"cmds": [{"cmd": "Mesh", "dim": d, "p": p, "coll": coll, "verts": [[hexd(x) for x in v] for v in place],
                      "elems": [ren(perm(els[0], a)), ren(perm(els[1], b))], "bdr": [ren(f) for f in bdr]}]}


def scenario(rng, h):
    _, g, p, coll = h[0]
    p, d = int(p), DIM[g]
    n = NODES[g, p]
    num = lambda: float(rng.choice([rng.randrange(-3, 4), rng.uniform(-2, 2)]))
    mat = lambda r, c: [[hexd(num()) for _ in range(c)] for _ in range(r)]
    dims = {"seg": [1, 2, 3] if p < 2 else [1, 2], "tri": [2, 3] if p < 2 else [2], "tet": [3]}[g]
    cmds = [{"cmd": "Elem", "kind": g, "p": p, "coll": coll, "dim": rng.choice(dims)}]
    ns = [rng.choice([1, 2, 4])]
    cmds.append({"cmd": "Buffer", "B": mat(ns[0], n)})

    def point():
        w = sorted(rng.random() for _ in range(d))
        x = [b - a for a, b in zip([0.0] + w, w)]
        if rng.random() < .3:              # vertices, edges and faces of the element
            x = [round(v) * 1.0 for v in x] if rng.random() < .5 else [v if rng.random() < .5 else 0.0 for v in x]
        return x

    for o in h[1:]:
        c, i, j = rng.randrange(d), rng.randrange(n), rng.randrange(n)
        if o == "buffer":
            ns[0] = rng.choice([1, 2, 4])
            cmds.append({"cmd": "Buffer", "B": mat(ns[0], n)})
        elif o in ("norm", "normalias", "norminv"):
            k = "NormInv" if o == "norminv" else rng.choice(["Norm", "Norm", "NormInv"]) if o == "normalias" else "Norm"
            cmds.append({"cmd": k, "u": mat(ns[0], n), "alias": o == "normalias"})
            if k == "NormInv":             # keep the shared data of order one
                cmds.append({"cmd": "Buffer", "B": mat(ns[0], n)})
        elif o in ("weak", "weakT"):
            cmds.append({"cmd": "Weak", "c": c, "tr": o == "weakT", "u": mat(ns[0], n)})
        elif o in ("proj", "projT"):
            cmds.append({"cmd": "Proj", "tr": o == "projT", "u": mat(ns[0], n)})
        elif o in ("weaknode", "strongnode"):
            cmds.append({"cmd": "WeakNode" if o == "weaknode" else "StrongNode", "c": c, "i": i, "u": mat(rng.choice([1, 3, 5]), n)})
        elif o in ("entries", "skewrev"):
            if rng.random() < .2:
                j = i
            cmds.append({"cmd": "Entries" if o == "entries" else "SkewRev", "c": c, "i": i, "j": j, "s": hexd(num()),
                         "Ai": mat(d, d), "Aj": mat(d, d)})
        elif o == "shape-node":
            cmds.append({"cmd": "Shape", "node": i + 1, "copy": False, "x": []})
        elif o == "shape-off":
            cp = rng.random() < .3
            cmds.append({"cmd": "Shape", "node": i + 1 if cp else 0, "copy": cp, "x": [hexd(x) for x in point()]})
        elif o in ("dshape", "index") and (o == "dshape" or rng.random() < .6):
            cmds.append({"cmd": "DShape" if o == "dshape" else "Index", "node": i + 1, "copy": rng.random() < .5, "x": []})
        elif o in ("dshape-off", "index"):
            x = [.9 * v + .0107 * (k + 1) for k, v in enumerate(point())]
            cmds.append({"cmd": "DShape" if o != "index" else "Index", "node": 0, "copy": False, "x": [hexd(v) for v in x]})
        elif o in ("strongmat", "weakmat"):
            cmds.append({"cmd": "StrongMat" if o == "strongmat" else "WeakMat", "c": c, "tr": rng.random() < .5, "h": n})
        elif o == "row":
            cmds.append({"cmd": "StrongRow", "c": c, "i": i})
        elif o == "projmat":
            cmds.append({"cmd": "ProjMat"})
        else:
            cmds.append({"cmd": "Coords", "c": c})
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("SbpMC", need=["MCStep"])
    hs = ck.generate("SbpGen")
    meshes = [h for h in hs if h[0][0] == "mesh"]
    hs = [h for h in hs if h[0][0] != "mesh"]
    flat = [h for h in meshes if h[0][1] != "3"]
    deep = [h for h in meshes if h[0][1] == "3"]
    flat = rng.sample(flat, min(len(flat), ck.pick(160, 10000)))
    deep = rng.sample(deep, ck.pick(60, len(deep)))
    hs = rng.sample(hs, min(len(hs), ck.pick(1500, 100000)))
    long = ck.generate("SbpGen", "SbpGenL.cfg", simulate=ck.pick(300, 6000), depth=17)
    scn = [scenario(rng, h) for h in hs + long] + [mesh(rng, h[0]) for h in flat + deep]
    exe = ck.build("sbp", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"])
    for i in range(0, len(scn), 3000):
        part = scn[i:i + 3000]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("SbpTrace", ev, rerun=run, label=str(i // 3000)):
            return
    if not ck.quick:
        ev = ck.run(exe, scn[:1500])

        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("Weak", "Proj", "Norm")])
            r = rng.choice(evs[i]["B"])
            k = rng.randrange(len(r))
            r[k] = hexd(unhex(r[k]) + 1e-3)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("SbpTrace", ev, mut)


main("C18", body)
