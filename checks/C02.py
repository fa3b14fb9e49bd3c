import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def params(rng, maxit):
    mode = rng.randrange(4)
    lo, hi, mu = [(0.1, 0.9, 1e-4), (0.1, 0.5, 1e-4), (0.25, 0.75, 0.1), (rng.uniform(.01, .4), rng.uniform(.5, .99), 10 ** rng.uniform(-6, -0.5))][mode]
    return {"mu": hexd(mu), "lo": hexd(lo), "hi": hexd(hi), "order": rng.choice([2, 3]), "maxit": maxit,
            "alpha": hexd(rng.choice([1.0, 1.0, 0.5, 2.0, 1e-3, rng.uniform(.1, 10)]))}


def body(ck):
    rng = ck.rng
    ck.model("LineSearchMC", need=["Eval", "Return"])
    scn = []
    for g in ck.generate("LineSearchGen", limit=ck.pick(900, 100000)):
        for _ in range(ck.pick(1, 3)):
            s = params(rng, g["maxit"])
            s["script"] = g["script"]
            if g["maxit"] > 4 and rng.random() < .5:    # all the way to giving up
                s["script"] = g["script"] + [rng.choice(["near", "bad", "huge", "inf", "nan"]) for _ in range(20)]
            sc = 10 ** rng.uniform(-8, 8)
            s["phi0"] = hexd(sc)
            s["dphi0"] = hexd(-sc * rng.choice([1.0, rng.uniform(.01, 10)]) if rng.random() < .95 else sc * rng.uniform(0, 1))
            s["r"] = [hexd(rng.random()) for _ in range(5)]
            scn.append(s)
    for _ in range(ck.pick(600, 6000)):
        s = params(rng, rng.choice([10, 10, 3, 25]))
        if rng.random() < .2:
            s["defaults"] = True
        k = rng.randrange(4)
        c = [0.0] * 8
        if k == 0:      # a quadratic whose minimum lies below the first safeguard
            c[0], c[1] = 1.0, -rng.uniform(.5, 2)
            c[2] = 10 ** rng.uniform(0, 3)
        elif k == 1:
            c[0], c[1], c[2], c[3] = rng.uniform(.5, 2), -rng.uniform(.1, 2), rng.uniform(-3, 30), rng.uniform(-3, 60)
        elif k == 2:
            c[0], c[1], c[4], c[5] = 1.0, -rng.uniform(1, 4), rng.uniform(.01, .2), rng.uniform(.5, 9)
        else:
            c[0], c[1], c[2], c[6], c[7] = 2.0, -1.0, rng.uniform(0, 5), rng.uniform(.01, .5), rng.uniform(1, 20)
        s["coef"] = [hexd(x) for x in c]
        s["nanfrom"] = hexd(rng.choice([1e300, 1e300, rng.uniform(.05, 2)]))
        scn.append(s)
    exe = ck.build("linesearch", ["common/linesearch.cpp"])
    run = lambda: ck.run(exe, scn)
    ev = run()
    ok = ck.validate("LineSearchTrace", ev, rerun=run)
    if ok and not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Return" and unhex(e["alpha"]) > 0])
            evs[i]["alpha"] = hexd(unhex(evs[i]["alpha"]) * 0.5)
            return evs
        ck.selftest("LineSearchTrace", ev, mut)
        def mut2(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Eval" and evs[i - 1]["event"] == "Eval"])
            evs[i]["alpha"] = hexd(unhex(evs[i - 1]["alpha"]) * 1.01)
            return evs
        ck.selftest("LineSearchTrace", ev, mut2)
    ck.assumptions += ["interpolation rule compared only where the interpolant's coefficients are well conditioned (relative 1e-5)"]


main("C02", body)
