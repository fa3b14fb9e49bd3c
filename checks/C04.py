import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

STEPPERS = ("RK1", "MIDPOINT", "PTC", "steady")


def numbers(rng, s):
    """Numbers for one abstract solve."""
    dt = 10 ** rng.uniform(-3, 1)
    t0 = rng.choice([0.0, 0.0, rng.uniform(-5, 5), rng.uniform(100, 1000)])
    r = s["ratio"]
    k = rng.randrange(1, 12)
    if r == "divides":
        dt = 2.0 ** rng.randrange(-6, 3)
        t0 = dt * rng.randrange(-8, 8)
        tf = t0 + k * dt
    elif r == "remainder":
        tf = t0 + (k + rng.uniform(.1, .9)) * dt
    elif r == "tiny":
        tf = t0 + (k + rng.choice([1e-7, 1e-4])) * dt
    elif r == "beyond":
        tf = t0 + rng.uniform(.01, .99) * dt
    elif r == "long":
        tf = t0 + 1000 * dt
    else:
        dt, t0 = 0.1, rng.choice([0.0, 0.3])
        tf = t0 + rng.choice([1.0, 0.7, 0.5])
    return t0, tf, dt


def body(ck):
    rng = ck.rng
    ck.model("MarchMC", need=["MCBegin", "MCInitial", "MCSize", "MCIter", "MCSlope", "MCExit", "MCTerm", "MCNewton"])
    scn = []
    for s in ck.generate("MarchGen", simulate=ck.pick(900, 12000), depth=5, limit=ck.pick(900, 30000)):
        logs = [dict(kind=k, init=s["logs"][k]["init"], each=s["logs"][k]["each"], final=s["logs"][k]["final"])
                for k in "AB" if s["logs"][k]["on"]]
        if rng.random() < .15 and logs:  # two loggers of a kind, with different options
            logs.append(dict(kind=logs[0]["kind"], init=rng.random() < .5, each=rng.random() < .5, final=rng.random() < .5))
        out = []
        for z in s["solves"]:
            ode = z["type"] in STEPPERS
            t0, tf, dt = numbers(rng, z)
            if not ode:
                t0, tf = 0.0, 1.0
            out.append({"exact": z["exact"], "q": {"ode": ode, "type": z["type"], "t0": hexd(t0), "tf": hexd(tf), "dt": hexd(dt),
                        "maxit": z["maxit"], "exact": z["exact"] != "no", "ownStep": z["ownStep"], "ownExit": z["ownExit"]}})
        scn.append({"solves": out, "logs": logs, "n": rng.randrange(1, 4), "seed": rng.randrange(1 << 30)})
    exe = ck.build("march", ["common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/evolver.cpp",
                             "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp",
                             "common/linesearch.cpp", "physics/miso_input.cpp", "utils/utils.cpp"])
    run = lambda: ck.run(exe, scn)
    ev = run()
    ok = ck.validate("MarchTrace", ev, rerun=run)
    if ok and not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Return" and e["recs"]])
            recs = [dict(r) for r in evs[i]["recs"]]
            j = rng.randrange(len(recs))
            if rng.random() < .5:
                del recs[j]
            else:
                recs[j]["time"] = hexd(unhex(recs[j]["time"]) + 1)
            evs[i]["recs"] = recs
            return evs
        ck.selftest("MarchTrace", ev, mut)


main("C04", body)
