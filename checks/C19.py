import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def points(rng, d, n):
    """points of the reference simplex -1 <= x, sum <= 2 - d, including its boundary"""
    ps = []
    for _ in range(n):
        k = rng.random()
        if k < .15:                                # vertex
            v = rng.randrange(d + 1)
            w = [1.0 if i == v else 0.0 for i in range(d + 1)]
        elif k < .3:                               # lattice point
            m = rng.choice([2, 3, 4])
            w = [0] * (d + 1)
            for _ in range(m):
                w[rng.randrange(d + 1)] += 1
            w = [x / m for x in w]
        else:
            w = [rng.random() if rng.random() < .8 else 0.0 for _ in range(d + 1)]
            if rng.random() < .1:                  # close to a vertex
                w = [x * 10.0 ** rng.choice([-3, -9, -15]) for x in w]
                w[rng.randrange(d + 1)] = 1.0
            t = sum(w)
            w = [x / t for x in w] if t > 0 else [1.0 / (d + 1)] * (d + 1)
        ps.append([2 * x - 1 for x in w[:d]])
    return [[hexd(p[i]) for p in ps] for i in range(d)]


def scenario(rng, h):
    cmds, last = [], None
    for o, a, b, c in h:
        d = {"jacobi": 1, "vseg": 1, "tri": 2, "vtri": 2, "tet": 3, "vtet": 3}.get(o, 0)
        e = {"cmd": o, "a": a, "b": b, "c": c}
        if d:
            n = last if last and rng.random() < .6 else rng.choice([1, 1, 2, 3, 7, 20])
            last = n
            for k, v in zip("xyz", points(rng, d, n)):
                e[k] = v
        cmds.append(e)
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("OrthoMC", need=["MCNext"])
    if not ck.quick:
        ck.model("OrthoMC", "OrthoMCT.cfg", need=["MCNext"], timeout=900)
    short = ck.generate("OrthoGen")
    long = ck.generate("OrthoGen", "OrthoGenL.cfg", simulate=ck.pick(250, 4000), depth=10)
    scn = [scenario(rng, h) for h in short * ck.pick(2, 10) + long]
    exe = ck.build("ortho", ["common/orthopoly.cpp", "utils/utils.cpp"])
    for i in range(0, len(scn), 2500):
        part = scn[i:i + 2500]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("OrthoTrace", ev, rerun=run, label=str(i // 2500)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if "P" in e])
            k = rng.randrange(len(evs[i]["P"]))
            evs[i]["P"][k] = hexd(unhex(evs[i]["P"][k]) * 1.0001 + 1e-6)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("OrthoTrace", ev, mut)


main("C19", body)
