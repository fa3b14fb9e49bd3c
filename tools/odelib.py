"""Shared by C05 and C06: instances and replay of integrator histories."""
from mbv import hexd, unhex

SRC = ["common/ode.cpp", "common/evolver.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp",
       "common/relaxed_newton.cpp", "common/linesearch.cpp", "physics/miso_input.cpp", "utils/utils.cpp"]


def instance(rng, s):
    s = dict(s)
    s["near"] = s["mode"] != "script" and s["entropy"] in ("quad", "exp", "log") and all(z in ("tiny", "small") for z in s["steps"])
    n = rng.randrange(1, 4)
    size = {"tiny": 1e-6, "small": .01, "mid": .1, "big": .4, "huge": 3.0}
    s["steps"] = [hexd(size[z] * rng.uniform(.5, 1.5)) for z in s["steps"]]
    if s["mode"] == "script" and s["type"] not in ("RRK", "RRKMIDPOINT", "RRK6"):
        s["steps"] = [hexd(unhex(z) * rng.choice([1, 1, -1, 10])) for z in s["steps"]]
    s.update(n=n, seed=rng.randrange(1 << 30), x=[hexd(rng.uniform(-1, 1)) for _ in range(n)],
             t=hexd(rng.choice([0.0, rng.uniform(-3, 3)])), damped=rng.random() < .4,
             cub=hexd(rng.choice([0.0, rng.uniform(0, .3)])), forc=hexd(rng.choice([0.0, rng.uniform(-1, 1)])))
    return s


def replay(ck, scn):
    exe = ck.build("ode", SRC)
    run = lambda: ck.run(exe, scn)
    ev = run()
    ok = ck.validate("OdeTrace", ev, rerun=run)
    if ok and not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Done"])
            k = rng.choice(["x", "t"])
            if k == "t":
                evs[i]["t"] = hexd(unhex(evs[i]["t"]) + 1e-3)
            else:
                evs[i]["x"] = [hexd(unhex(v) + 1e-9) for v in evs[i]["x"]]
            return evs
        ck.selftest("OdeTrace", ev, mut)
