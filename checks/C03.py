import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

DEF = {"mu": 1e-4, "hi": 0.9, "lo": 0.1, "order": 3, "lsmaxit": 10}


def config(rng, kind, lsmaxit):
    h = {"kind": kind, "how": "none", "t": hexd(rng.choice([1e-4, 1e-4, .1, .5]))}
    d = dict(DEF)
    if kind == "inexact":
        d = {"mu": 1e-4, "lo": 0.1, "hi": 0.5, "order": 2, "lsmaxit": 0}
    else:
        h["how"] = rng.choice(["object", "object", "partial", "string", "none", "unknown"])
        if h["how"] == "partial":
            d["lsmaxit"] = lsmaxit
        if h["how"] == "object":
            d = {"mu": rng.choice([1e-4, .1, .3]), "lo": rng.choice([.1, .3]), "hi": rng.choice([.9, .5, .7]),
                 "order": rng.choice([2, 3]), "lsmaxit": lsmaxit}
    for k in ("mu", "lo", "hi"):
        d[k] = hexd(d[k])
    h.update(d)
    return h


def solve(rng, n, maxit):
    s = {"n": n, "maxit": maxit, "seed": rng.randrange(1 << 30), "iterative": rng.random() < .9,
         "rel": hexd(rng.choice([1e-8, 1e-3, .5, 0.0])), "abs": hexd(rng.choice([0.0, 1e-10, 1e-4])),
         "x0": [hexd(rng.uniform(-2, 2)) for _ in range(n)], "b": [],
         "quality": rng.choice([0.0, 0.0, 0.0, 0.1, 0.5, -0.3]), "scale": 10 ** rng.uniform(-3, 3)}
    if rng.random() < .4:
        s["b"] = [hexd(rng.uniform(-1, 1)) for _ in range(n)]
    return s


def body(ck):
    rng = ck.rng
    ck.model("NewtonMC", need=["MCFirst", "MCJac", "MCSolve", "MCTrial", "MCDone", "MCAbort"])
    gen = ck.generate("NewtonGen", limit=ck.pick(900, 9000))
    scn = []
    while gen:
        k = gen[0]["kind"]
        grp = [g for g in gen[:rng.randrange(1, 4)] if g["kind"] == k]
        gen = gen[len(grp):]
        h = config(rng, k, grp[0]["lsmaxit"])
        sv = []
        for g in grp:
            s = solve(rng, rng.choice([1, 2, 3, 4]), g["maxit"])
            s["script"], s["tail"] = g["script"], g["tail"]
            sv.append(s)
        scn.append({"cfg": h, "solves": sv})

    def analytic(count, nmin):
        r = []
        for _ in range(count):
            h = config(rng, rng.choice(["relaxed", "inexact"]), rng.choice([10, 3, 1]))
            sv = []
            for _ in range(rng.randrange(1, 3)):
                s = solve(rng, rng.randrange(nmin, 5) // nmin * nmin, rng.choice([0, 1, 2, 10, 30]))
                s["sys"] = rng.randrange(6)
                if s["sys"] == 2 and s["n"] % 2:
                    s["n"] += 1
                    s["x0"].append(hexd(0.5))
                    if s["b"]:
                        s["b"].append(hexd(0.5))
                m = s["n"]
                s["x0"] = s["x0"][:m]
                s["b"] = s["b"][:m]
                sv.append(s)
            r.append({"cfg": h, "solves": sv})
        return r
    scn += analytic(ck.pick(250, 2500), 1)
    exe = ck.build("newton", ["common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "utils/utils.cpp"])
    run = lambda: ck.run(exe, scn)
    ev = run()
    ok = ck.validate("NewtonTrace", ev, rerun=run)
    par = analytic(ck.pick(60, 600), 2)
    for g in par:
        for s in g["solves"]:
            s["seed"] %= 1 << 30
    runp = lambda: ck.run(exe, par, mpi=2, timeout=100, args=["60"])
    ok = ck.validate("NewtonTrace", runp(), rerun=runp, label="2 ranks") and ok
    if ok and not ck.quick:
        def mut(evs, rng):
            d = [i for i, e in enumerate(evs) if e["event"] == "Done"]
            i = rng.choice(d)
            k = rng.randrange(3)
            if k == 0:
                evs[i]["conv"] = not evs[i]["conv"]
            elif k == 1:
                evs[i]["it"] += 1
            else:
                evs[i]["norm"] = hexd(unhex(evs[i]["norm"]) * 1.01 + 1e-300)
            return evs
        ck.selftest("NewtonTrace", ev, mut)
    ck.assumptions += ["the step length is recovered from the states visited; safeguards and interpolation are checked where it is sharp to 1e-8",
                       "a fatal library error is recorded through a stand-in for mfem::mfem_error"]


main("C03", body)
