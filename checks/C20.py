import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
import math

G = 1.4


def state(r, u, p):
    return [r] + [r * x for x in u] + [p / (G - 1) + .5 * r * sum(x * x for x in u)]


def unit(rng, d):
    while True:
        v = [rng.gauss(0, 1) for _ in range(d)]
        s = math.sqrt(sum(x * x for x in v))
        if s > .1:
            return [x / s for x in v]


def regime(rng, d, kind, n):
    nn = math.sqrt(sum(x * x for x in n))
    n = [x / nn for x in n]
    r, p = rng.uniform(.4, 2), rng.uniform(.3, 2)
    if kind == "wild":
        r, p = 10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-3, 3)
    a = math.sqrt(G * p / r)
    if kind == "rest":
        u = [0.0] * d
        if d > 1 and rng.random() < .5:        # moving along the surface only
            t = unit(rng, d)
            k = sum(x * y for x, y in zip(t, n))
            u = [a * (x - k * y) for x, y in zip(t, n)]
    elif kind == "sonic":
        s = rng.choice([-1, 1]) * rng.choice([1, 1 + 1e-3, 1 - 1e-3, 1e-4])
        u = [s * a * x for x in n]
    else:
        m = {"sub": rng.uniform(0, .8), "super": rng.uniform(1.2, 4), "wild": rng.uniform(0, 5)}[kind]
        t = unit(rng, d)
        if kind == "super" and rng.random() < .7:      # mostly through the surface
            t = [x * rng.choice([-1, 1]) for x in n] if rng.random() < .5 else [(x + 3 * y) / 4 for x, y in zip(t, n)]
        u = [m * a * x for x in t]
    return state(r, u, p)


def other(rng, d, kind, q, n):
    if kind == "same":
        return list(q)
    if kind in ("near", "nearer"):
        e = 10 ** (rng.uniform(-3, -1) if kind == "near" else rng.uniform(-9, -3))
        r, u = q[0], [x / q[0] for x in q[1:-1]]
        p = (G - 1) * (q[-1] - .5 * r * sum(x * x for x in u))
        return state(r * (1 + e * rng.uniform(-1, 1)), [x + e * rng.uniform(-1, 1) for x in u], p * (1 + e * rng.uniform(-1, 1)))
    if kind == "mirror":
        return [q[0]] + [-x for x in q[1:-1]] + [q[-1]]
    return regime(rng, d, kind, n)


def command(rng, h):
    op, d, a, b, nk = h[0], int(h[1]), h[2], h[3], h[4]
    if op in ("vortexflux",):
        d = 2
    n = unit(rng, d)
    if nk == "axis":
        k = rng.randrange(d)
        n = [(rng.choice([-1.0, 1.0]) if i == k else 0.0) for i in range(d)]
    s = {"axis": rng.choice([1.0, .3]), "any": rng.uniform(.2, 3), "tiny": 10 ** rng.uniform(-6, -3), "huge": 10 ** rng.uniform(2, 5)}[nk]
    n = [x * s for x in n]
    c = {"cmd": "Eval", "op": op, "dim": d}
    hx = lambda v: [hexd(x) for x in v]
    if op == "freestream":
        roll = rng.randrange(d)
        pitch = rng.choice([i for i in range(d) if i != roll]) if d > 1 else 0
        return dict(c, mach=hexd(rng.uniform(.05, 2.5)), aoa=hexd(rng.uniform(-1, 1)), roll=roll, pitch=pitch, q=hx([1.0] * (d + 2)))
    if op == "logavg":
        x = 10 ** rng.uniform(-6, 6)
        e = {"same": 0, "near": 10 ** rng.uniform(-3, -1), "nearer": 10 ** rng.uniform(-12, -3), "mirror": rng.uniform(.05, .08)}.get(b, 10 ** rng.uniform(-1, 5))
        y = x * (1 + e) if rng.random() < .5 else x / (1 + e)
        return dict(c, n=hx([x, y]), q=hx([1.0] * (d + 2)))
    if op == "vortex":
        R, t = rng.uniform(1, 3), rng.choice([0, 1e-3, math.pi / 2 - 1e-3, rng.uniform(.01, 1.56)])
        return dict(c, dim=2, n=hx([R * math.cos(t) + 1e-9, R * math.sin(t)]) if t < 1.57 else hx([0.0, R]), step=hexd(2e-4 if t > 1e-2 and t < 1.5 else 2e-5), q=hx([1.0] * 4))
    if op == "mms":
        visc = a != "rest"
        dd = 3 if not visc else rng.choice([2, 3])
        return dict(c, dim=dd, viscous=visc, n=hx([rng.uniform(.02, .98) for _ in range(dd)]), step=hexd(1e-3), mu=hexd(rng.uniform(.01, 1)), Pr=hexd(rng.uniform(.6, 1)), q=hx([1.0] * (dd + 2)))
    q = regime(rng, d, a, n)
    r = other(rng, d, b, q, n)
    c.update(q=hx(q), n=hx(n))
    if op in ("roe", "ir", "irdiss", "bnd", "bndec", "far", "far2", "entropyref"):
        c["r"] = hx(r)
    if op == "irdiss":
        c["c"] = hexd(rng.choice([0.0, 1.0, rng.uniform(0, 2)]))
    if op == "bndec":
        c["ef"] = hexd(rng.uniform(-2, 2) * s)
    if op == "control":
        c["u"] = hexd(rng.choice([0.0, rng.uniform(-2, 2)]))
    if op in ("dqdw", "lps"):
        c["v"] = hx([rng.uniform(-1, 1) for _ in range(d + 2)])
        c["adj"] = [hx([rng.uniform(-1, 1) * s for _ in range(d)]) for _ in range(d)]
    if op == "vortexflux":
        R, t = rng.uniform(1, 3), rng.uniform(0, 1.57)
        c["x"] = hx([R * math.cos(t), R * math.sin(t)])
    if op in ("viscous", "tangent", "adiabatic", "noslip", "penalty", "dual"):
        u = rng.uniform(-2, 2)
        nn = math.sqrt(sum(x * x for x in n))
        rr = regime(rng, d, b, n)
        p = (G - 1) * (q[-1] - .5 * sum(x * x for x in q[1:-1]) / q[0])
        c.update(mu=hexd(10 ** rng.uniform(-3, 1)), Pr=hexd(rng.uniform(.5, 1.2)), jac=hexd(10 ** rng.uniform(-3, 1)), u=hexd(u), r=hx(rr),
                 at=hx(state(q[0], [u * x / nn for x in n], p)), Dw=[hx([rng.uniform(-1, 1) for _ in range(d + 2)]) for _ in range(d)])
    return c


def body(ck):
    rng = ck.rng
    ck.model("GasMC", need=["Pick", "Meet"])
    hs = ck.generate("GasGen")
    if ck.quick:
        by = {}
        for h in hs:
            by.setdefault(h[0], []).append(h)
        hs = [h for o in sorted(by) for h in rng.sample(by[o], min(len(by[o]), 110))]
    rep = ck.pick(1, 10)
    scn = [{"cmds": [command(rng, h) for _ in range(rep)]} for h in hs]
    exe = ck.build("gas", ["utils/utils.cpp"], extra_inc=["physics/fluidflow"])
    for i in range(0, len(scn), 4000):
        part = scn[i:i + 4000]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("GasTrace", ev, rerun=run, label=str(i // 4000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Eval" and e["op"] in ("euler", "ir", "bnd", "entvars", "adiabatic")])
            e = evs[i]
            k = max(range(len(e["out"])), key=lambda k: abs(unhex(e["out"][k])))
            e["out"][k] = e["outAD"][k] = hexd(unhex(e["out"][k]) * 1.001 + 1e-300)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("GasTrace", ev, mut)


main("C20", body)
