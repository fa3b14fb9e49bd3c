import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SRC = ["common/matrix_operators.cpp", "physics/miso_input.cpp", "utils/utils.cpp"]


def num(rng):
    return rng.choice([1, -1]) * rng.uniform(.1, 2)


def weight(rng, w):
    return hexd({"zero": rng.choice([0.0, -0.0]), "one": 1.0, "neg": -1.0, "tiny": 1e-17, "gen": num(rng)}[w])


def matrix(rng, h, w):
    return [[hexd(rng.choice([0, num(rng), num(rng)])) for _ in range(w)] for _ in range(h)]


def vec(rng, n, s=1.0):
    return [hexd(s * num(rng)) for _ in range(n)]


def sums(rng, h):
    n, r = rng.randrange(1, 4), rng.randrange(1, 5)
    if r == n:
        r += 1
    mats = {"a": (n, n), "b": (n, n), "c": (n, n), "p": (r, n), "q": (r, n), "k": (n, r)}
    cmds = [{"cmd": "Mat", "id": i, "M": matrix(rng, *s)} for i, s in mats.items()]
    shape = dict(mats)
    nest = False

    def define(cmd, kind, id, a, b):
        i, j = {"": rng.sample("abc", 2), "rect": ("p", "q"), "bad": rng.choice([("a", "p"), ("k", "a"), ("p", "k")]), "nest": ("n", "b")}[kind]
        if kind == "nest" and rng.random() < .5:
            i, j = j, i
        cmds.append({"cmd": cmd, "id": id, "a": weight(rng, a), "i": i, "b": weight(rng, b), "j": j})
        if kind == "bad":
            return False
        shape[id] = shape[i]
        return True
    s = h[0]
    if s[0] == "new0" or not define("NewSum", s[0][3:], "s", s[1], s[2]):
        hh, ww = rng.choice([(n, n), (r, n)])
        cmds.append({"cmd": "Sum0", "id": "s", "h": hh, "w": ww, "one": rng.random() < .5})
        shape["s"] = (hh, ww)
    for t in h[1:] + [["mult", "junk"]]:
        if t[0] == "mult":
            cmds.append({"cmd": "Mult", "id": "s", "x": vec(rng, shape["s"][1]), "y0": t[1]})
            if rng.random() < .3:
                cmds.append({"cmd": "Mult", "id": "s", "x": vec(rng, shape["s"][1], rng.choice([0.0, 1.0, 1e10, 1e-10])), "y0": t[1]})
        else:
            if t[0] == "addnest" and not nest:
                define("NewSum", "", "n", "gen", rng.choice(["zero", "gen"]))
                nest = True
            elif nest and rng.random() < .5:
                define("Add", "", "n", rng.choice(["zero", "gen"]), "gen")
            define("Add", t[0][3:], "s", t[1], t[2])
    return {"cmds": cmds}


def jf(rng, h, mpi):
    n = rng.randrange(2, 5)
    k = rng.randrange(1, n)
    off = [1, k + 1, n + 1]
    _, e, b, c = h[0]
    cub = rng.choice([0.0, 0.0, num(rng)])
    stored = [True, True]
    if e == "part":
        stored = rng.choice([[True, False], [False, True]])
        e = rng.choice(["dense", "hypre"])
    if mpi and e != "none":
        e = "plain"
    E = []
    if e != "none":
        M = matrix(rng, n, n)
        half = n - n // 2
        for i in range(n):
            for j in range(n):
                bi, bj = (i >= k), (j >= k)
                if e != "plain" and (bi != bj or not stored[bi]):
                    M[i][j] = hexd(0)
                if mpi and (i >= half) != (j >= half):
                    M[i][j] = hexd(0)
        E = [M]
    A = matrix(rng, n, n)
    if mpi and rng.random() < .5:
        b = "none"
    cmds = [{"cmd": "JF", "id": "j", "A": A, "c": hexd(cub), "b": vec(rng, n), "d": vec(rng, n), "off": off, "E": E, "stored": stored,
             "ek": e, "bk": b, "cached": c == "cached", "u": vec(rng, n)}]
    for t in h[1:] + [["mult", "junk"], ["block", "1"]]:
        if t[0] == "scaling":
            cmds.append({"cmd": "Scaling", "id": "j", "s": weight(rng, t[1])})
        elif t[0] == "state":
            u = vec(rng, n, 30.0 if t[1] == "big" else 1.0)
            cmds.append({"cmd": "State", "id": "j", "u": u, "via": "inputs" if t[1] == "inputs" else "vec"})
        elif t[0] == "mult":
            s = {"small": 10 ** -rng.uniform(2.5, 4), "zerox": 0.0, "large": 10 ** rng.uniform(1, 5)}.get(t[1], 1.0)
            x = vec(rng, n, s)
            if mpi and rng.random() < .4:   # one rank has nothing
                z = rng.choice([range(n - n // 2), range(n - n // 2, n)])
                for i in z:
                    x[i] = hexd(0)
            cmds.append({"cmd": "Mult", "id": "j", "x": x, "y0": t[1] if t[1] == "nan" else "junk"})
        elif not mpi:
            cmds.append({"cmd": "Block", "id": "j", "k": int(t[1])})
            if rng.random() < .4:
                cmds.append({"cmd": "Block", "id": "j", "k": int(t[1])})
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("OpAlgMC")
    scn = [sums(rng, h) for h in ck.generate("OpAlgGen", "OpAlgGenS.cfg", limit=ck.pick(1500, 20000))]
    scn += [sums(rng, h) for h in ck.generate("OpAlgGen", "OpAlgGenL.cfg", simulate=ck.pick(300, 4000), depth=9)]
    jfs = ck.generate("OpAlgGen", "OpAlgGenJ.cfg", limit=ck.pick(1500, 20000))
    long = ck.generate("OpAlgGen", "OpAlgGenK.cfg", simulate=ck.pick(500, 6000), depth=10)
    scn += [jf(rng, h, False) for h in jfs + long]
    exe = ck.build("opalg", SRC)
    for i in range(0, len(scn), 6000):
        part = scn[i:i + 6000]
        run = lambda: ck.run(exe, part)
        ev = run()
        ok = ck.validate("OpAlgTrace", ev, rerun=run, label="serial%d" % (i // 6000))
        if not ok:
            return
    par = [jf(rng, h, True) for h in rng.sample(jfs, min(len(jfs), ck.pick(150, 1500))) + long[:ck.pick(150, 1500)]]
    run = lambda: ck.run(exe, par, mpi=2)
    ck.validate("OpAlgTrace", run(), rerun=run, label="mpi")
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Mult" and any(unhex(v) for v in e["y"])])
            evs[i]["y"] = [hexd(unhex(v) * 1.01) for v in evs[i]["y"]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("OpAlgTrace", ev, mut)


main("C08", body)
