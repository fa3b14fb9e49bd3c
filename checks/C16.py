import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def body(ck):
    rng = ck.rng
    ck.model("RootFinderMC", need=["MCBegin", "MCEval", "MCFound", "MCFailed"])
    scn = []
    for s in ck.generate("RootFinderGen", limit=ck.pick(3000, 52488)):
        s["seed"] = rng.randrange(1 << 30)
        lo = rng.uniform(-3, 3)
        w = 10 ** rng.uniform(-3, 2)
        x = [lo, lo + w] if rng.random() < .8 else [lo + w, lo]
        s["x1"], s["x2"] = hexd(x[0]), hexd(x[1])
        s["ftol"] = hexd(rng.choice([1e-12, 1e-8, 1e-3, 0.0]))
        s["xtol"] = hexd(rng.choice([1e-12, 1e-6, 1e-2, 0.0, 10.0]))
        if s["maxit"] == 60:
            s["maxit"] = rng.choice([30, 60, 5])
        scn.append(s)
    for _ in range(ck.pick(800, 8000)):
        kind = rng.choice(["bisection", "secant"])
        c = [0.0] * 8
        k = rng.randrange(5)
        if k == 0:
            c[0], c[1] = rng.uniform(-1, 1), rng.uniform(-2, 2)
        elif k == 1:
            c[:4] = [rng.uniform(-1, 1) for _ in range(4)]
        elif k == 2:
            c[0], c[4], c[5] = -rng.uniform(.1, 3), 1.0, rng.uniform(-2, 2)
        elif k == 3:
            c[0], c[6], c[7] = rng.uniform(-.3, .3), 1.0, rng.uniform(.5, 5)
        else:  # a simple root at an end point
            c[0], c[1] = 0.0, rng.choice([1.0, -1.0])
        x = [rng.uniform(-2, 0), rng.uniform(0.01, 2)]
        if k == 4:
            x[rng.randrange(2)] = 0.0
        if rng.random() < .2:
            x.reverse()
        sc = 10 ** rng.uniform(-3, 3)
        scn.append({"kind": kind, "maxit": rng.choice([1, 5, 30, 60]), "seed": 1, "x1": hexd(x[0]), "x2": hexd(x[1]),
                    "ftol": hexd(rng.choice([1e-12, 1e-6, 0.0]) * sc), "xtol": hexd(rng.choice([1e-12, 1e-6, 1e-3])),
                    "coef": [hexd(y * (sc if i not in (5, 7) else 1)) for i, y in enumerate(c)]})
    exe = ck.build("rootfinder", ["utils/utils.cpp"])
    run = lambda: ck.run(exe, scn)
    ev = run()
    ok = ck.validate("RootFinderTrace", ev, rerun=run)
    if ok and not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Found"])
            if rng.random() < .5:
                evs[i]["x"] = hexd(unhex(evs[i]["x"]) + .01)
            else:
                evs[i] = {"event": "Failed"}
            return evs
        ck.selftest("RootFinderTrace", ev, mut)


main("C16", body)
