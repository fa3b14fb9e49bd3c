import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
import math

GLL = {0: [0, 1], 1: [0, 1], 2: [0, 1, .5], 3: [0, 1, .5 - .5 / math.sqrt(5), .5 + .5 / math.sqrt(5)]}   # ends first, as elements store them
hx = lambda v: [hexd(x) for x in v]


def curve(rng, shape, p):
    """elements as functions of [0,1]; straight for p < 2, arcs of circles otherwise"""
    fs, closed = [], False
    if p < 2:
        if shape == "closed":
            n = rng.randrange(3, 9)
            a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n)) if rng.random() < .5 else [2 * math.pi * (i + rng.uniform(-.2, .2)) / n for i in range(n)]
            V = [[rng.uniform(.8, 1.2) * math.cos(t), rng.uniform(.8, 1.2) * math.sin(t)] for t in a]
            closed = True
        else:
            n, x, t = rng.randrange(1, 9), [rng.uniform(-1, 1), rng.uniform(-1, 1)], rng.uniform(0, 6)
            V = [x]
            for i in range(n):
                s = rng.uniform(.5, 1) * (10 ** rng.uniform(-1.3, 0) if shape == "uneven" else 1)
                t += rng.uniform(-1, 1) * (2.0 if shape == "uneven" else 1)
                x = [x[0] + s * math.cos(t), x[1] + s * math.sin(t)]
                V.append(x)
        V = V + ([V[0]] if closed else [])
        for a, b in zip(V, V[1:]):
            fs.append(lambda t, a=a, b=b: [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])])
        return fs, closed, 9.0
    R = rng.uniform(.5, 2)
    t0 = rng.uniform(0, 6)
    if shape == "closed":
        n = rng.randrange(8, 13)
        cuts = [t0 + 2 * math.pi * i / n for i in range(n + 1)]
        closed = True
    else:
        n = rng.randrange(1, 7)
        cuts = [t0]
        for i in range(n):
            cuts.append(cuts[-1] + rng.uniform(.3, .7) * (10 ** rng.uniform(-1, 0) if shape == "uneven" else 1))
    for a, b in zip(cuts, cuts[1:]):
        fs.append(lambda t, a=a, b=b: [R * math.cos(a + t * (b - a)), R * math.sin(a + t * (b - a))])
    return fs, closed, R


def make(rng, h):
    shape, p = h[1], int(h[2])
    if shape in ("volume", "tri"):
        while True:
            mk = [rng.randrange(2) for _ in range(4)]
            if any(mk):
                break
        mp = rng.randrange(3) if p > 1 else rng.choice([0, 0, 1, 2])
        nx, ny = (rng.randrange(3, 6), rng.randrange(1, 4)) if mp else (rng.randrange(1, 5), rng.randrange(1, 5))
        amp = rng.uniform(.5, 1.5)
        c = {"cmd": "Volume", "p": p, "nx": nx, "ny": ny, "tri": shape == "tri", "map": mp, "amp": hexd(amp), "byvdim": rng.random() < .5,
             "marker": mk, "other": rng.random() < .2}
        def f(x, y):
            if mp == 0:
                return [2 * x + .3 * y, y - .2 * x]
            if mp == 1:
                return [(1 + y) * math.cos(amp * x), (1 + y) * math.sin(amp * x)]
            return [3 * x + .1 * math.sin(2 * y), 2 * y + .15 * math.sin(3 * x)]
        sides = [lambda t: f(t, 0), lambda t: f(1, t), lambda t: f(t, 1), lambda t: f(0, t)]
        fs = []
        for s, n, m in zip(sides, (nx, ny, nx, ny), mk):
            if m:
                fs += [lambda t, s=s, i=i, n=n: s((i + t) / n) for i in range(n)]
        return c, fs, (.5 if mp else 9.0)
    fs, closed, R = curve(rng, shape, p)
    n = len(fs)
    V = [f(0) for f in fs] + ([] if closed else [fs[-1](1)])
    ids = list(range(len(V)))
    rng.shuffle(ids)
    X = [None] * len(V)
    for i, v in zip(ids, V):
        X[i] = v
    E = []
    order = list(range(n))
    rng.shuffle(order)
    out = []
    for e in order:
        a, b = e, (e + 1) % len(V)
        f = fs[e]
        if rng.random() < .4:
            f = (lambda t, g=fs[e]: g(1 - t))
            a, b = b, a
        out.append(f)
        E.append({"v": [ids[a], ids[b]], "attr": rng.randrange(1, 4), "x": [hx(f(t)) for t in GLL[p]]})
    return {"cmd": "Curve", "p": p, "verts": [hx(v) for v in X], "elems": E}, out, R


def point(rng, kind, fs, R, p):
    f = rng.choice(fs)
    t = rng.uniform(0, 1) if rng.random() < .7 else rng.choice([.01, .99, .5])
    lim = 3.0 if p < 2 else .25 * R
    a, b, c = f(max(t - 1e-4, 0)), f(min(t + 1e-4, 1)), f(t)
    u = [b[0] - a[0], b[1] - a[1]]
    s = math.hypot(*u)
    u = [u[0] / s, u[1] / s]
    nrm = [-u[1], u[0]]
    d = lim * 10 ** rng.uniform(-3, 0)
    if kind in ("above", "below"):
        return [c[i] + (d if kind == "above" else -d) * nrm[i] for i in range(2)]
    if kind == "on":
        return c
    if kind in ("vertex", "node"):
        v = f(rng.choice([0.0, 1.0]) if kind == "vertex" else rng.choice([0, .5, 1.0]))
        if kind == "node" and rng.random() < .5:
            return v
        t = rng.uniform(0, 2 * math.pi)
        return [v[0] + d * math.cos(t), v[1] + d * math.sin(t)]
    if kind == "beyond":
        v = f(1.0)
        return [v[i] + d * u[i] for i in range(2)]
    if kind == "centre":
        return [rng.uniform(-.2, .2), rng.uniform(-.2, .2)] if p < 2 else [c[i] + .3 * lim * nrm[i] for i in range(2)]
    t = rng.uniform(0, 2 * math.pi)
    r = rng.uniform(5, 1000) if p < 2 else 0
    return [r * math.cos(t), r * math.sin(t)] if p < 2 else [c[i] + d * nrm[i] for i in range(2)]


def scenario(rng, h):
    cmds, fs, alive = [], [], False
    for o in h:
        if o[0] == "make":
            c, fs, R = make(rng, o)
            p = int(o[2])
            cmds.append(c)
            alive = c["cmd"] == "Curve"
        elif o[0] == "ask":
            cmds.append({"cmd": "Distance", "x": hx(point(rng, o[1], fs, R, p))})
        elif o[0] == "element":
            if alive and p > 0:      # the element must have nodes
                e = rng.randrange(len(fs))
                g = fs[e:e + 1]
                cmds.append({"cmd": "Element", "e": e, "x": hx(point(rng, rng.choice(["above", "below", "vertex", "beyond", "on"]), g, R, p))})
        else:
            alive = False
            cmds.append({"cmd": o[0].capitalize()})
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("SurfaceMC", need=["Extend", "Move"])
    hs = ck.generate("SurfaceGen", limit=ck.pick(500, 100000)) + ck.generate("SurfaceGen", "SurfaceGenL.cfg", simulate=ck.pick(150, 2000), depth=14)
    scn = [scenario(rng, h) for h in hs]
    exe = ck.build("surface", ["utils/utils.cpp"])
    for i in range(0, len(scn), 1000):
        part = scn[i:i + 1000]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("SurfaceTrace", ev, rerun=run, label=str(i // 1000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Distance"])
            evs[i]["d"] = hexd(unhex(evs[i]["d"]) * 1.001 + 1e-4)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("SurfaceTrace", ev, mut)


main("C21", body)
