import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SRC = ["common/ode.cpp", "common/evolver.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp",
       "common/relaxed_newton.cpp", "common/linesearch.cpp", "physics/miso_input.cpp", "utils/utils.cpp"]


def num(rng):
    return rng.choice([1, -1]) * rng.uniform(.1, 2)


def vec(rng, n, s=1.0):
    return [hexd(s * num(rng)) for _ in range(n)]


def inst(rng, h):
    _, mk, c = h[0]
    n = rng.randrange(2, 5)
    if mk in ("none", "mixed"):
        M = [[hexd(float(i == j)) for j in range(n)] for i in range(n)]
    else:
        M = [vec(rng, n) for _ in range(n)]
    cmds = [{"cmd": "Reset", "A": [vec(rng, n) for _ in range(n)], "c": hexd(0.0 if c == "lin" else num(rng)), "b": vec(rng, n),
             "d": vec(rng, n), "M": M, "mk": mk, "split": rng.randrange(1, n)}]
    for s in ("u0", "u1", "k0", "k1"):
        cmds.append({"cmd": "Vec", "s": s, "v": vec(rng, n)})
    cur = {"state": "u0", "state_dot": "k0"}

    def dt():
        return hexd(rng.choice([0.0, num(rng), num(rng), 1.0, 1e-3, -0.5]))

    def some(key):
        if key in cur:
            cur[key] = rng.choice({"state": ["u0", "u1"], "state_dot": ["k0", "k1"]}[key])
            return cur[key]
        return dt() if key == "dt" else hexd(rng.choice([0.0, num(rng)]))
    first = {"state": "u0", "state_dot": "k0", "dt": dt(), "time": hexd(num(rng)), "p": hexd(num(rng))}
    cmds.append({"cmd": "Set", "in": first})
    for t in h[1:] + [["eval", "evaluate"], ["jac", "getJacobian"], ["eval", "Mult"]]:
        if t[0] == "set":
            k = t[1]
            if k == "all":
                d = {z: some(z) for z in ("state", "state_dot", "dt", "time", "p")}
            elif k == "dt0":
                d = {"dt": hexd(rng.choice([0.0, -0.0]))}
            elif k == "unrelated":
                d = {"other": "x"}
            else:
                d = {k: some(k)}
            cmds.append({"cmd": "Set", "in": d})
        elif t[0] == "vec":
            s = cur[t[1]] if rng.random() < .8 else rng.choice(["u0", "u1", "k0", "k1"])
            cmds.append({"cmd": "Vec", "s": s, "v": vec(rng, n)})
        elif t[0] == "eval":
            cmds.append({"cmd": "Eval", "via": t[1]})
        elif t[0] == "jac":
            cmds.append({"cmd": "Jac", "via": t[1], "x": vec(rng, n)})
        else:
            cmds.append({"cmd": "Forward", "what": rng.choice(["entropy", "change", "supply", "options", "size", "prec"]),
                         "u": vec(rng, n), "d": vec(rng, n), "h": hexd(num(rng)), "t": hexd(num(rng))})
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("TimeResMC")
    scn = [inst(rng, h) for h in ck.generate("TimeResGen", "TimeResGen.cfg", limit=ck.pick(3000, 22000))]
    scn += [inst(rng, h) for h in ck.generate("TimeResGen", "TimeResGenL.cfg", simulate=ck.pick(700, 8000), depth=11)]
    exe = ck.build("timeres", SRC)
    for i in range(0, len(scn), 6000):
        run = lambda: ck.run(exe, scn[i:i + 6000])
        ev = run()
        if not ck.validate("TimeResTrace", ev, rerun=run, label=str(i // 6000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Eval"])
            evs[i]["r"] = [hexd(unhex(v) + 1e-6) for v in evs[i]["r"]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("TimeResTrace", ev, mut)


main("C07", body)
