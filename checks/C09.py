import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SRC = ["common/matrix_operators.cpp", "common/mfem_extensions.cpp", "common/relaxed_newton.cpp", "common/linesearch.cpp",
       "physics/miso_input.cpp", "utils/utils.cpp"]


def num(rng):
    return rng.choice([1, -1]) * rng.uniform(.1, 2)


def inst(rng, h):
    m = int(h[0][1])
    off = [1]
    for _ in range(m):
        off.append(off[-1] + rng.randrange(1, 4))
    n = off[-1] - 1
    own = h[0][2] == "own"
    cmds = [{"cmd": "New", "off": off, "own": own}]
    sol = [None] * m
    ns = 0
    spare = []

    def mk():
        return [[num(rng) for _ in range(n)] for _ in range(n)]

    def hx(M):
        return [[hexd(v) for v in r] for r in M]

    def blk(M, k):
        return [[hexd(M[i][j]) for j in range(off[k] - 1, off[k + 1] - 1)] for i in range(off[k] - 1, off[k + 1] - 1)]
    for t in h[1:] + [["mult", "nan"], ["shape", ""]]:
        if t[0] == "set":
            for k in {"first": [0], "last": [m - 1], "any": [rng.randrange(m)], "all": range(m)}[t[1]]:
                s = "s%d" % ns
                ns += 1
                d = off[k + 1] - off[k]
                cmds.append({"cmd": "Solver", "s": s, "B": [[hexd(num(rng)) for _ in range(d)] for _ in range(d)], "kind": t[2]})
                cmds.append({"cmd": "Set", "k": k + 1, "s": [s]})
                sol[k] = s
        elif t[0] == "clear":
            k = rng.randrange(m)
            cmds.append({"cmd": "Set", "k": k + 1, "s": []})
            sol[k] = None
        elif t[0] == "op":
            A = mk()
            c = {"cmd": "SetOp", "what": t[1], "A": hx(A)}
            if t[1].startswith("jf"):
                E, s = mk(), rng.choice([0.0, 1.0, -1.0, num(rng)])
                c.update(E=hx(E), scale=hexd(s))
                A = [[s * A[i][j] + E[i][j] for j in range(n)] for i in range(n)]
            c["Bs"] = [blk(A, k) for k in range(m)]
            cmds.append(c)
        elif t[0] == "shape":
            cmds.append({"cmd": "Shape"})
        else:
            cmds.append({"cmd": "Mult", "x": [hexd(num(rng)) for _ in range(n)], "y0": t[1], "tr": t[0] == "multT"})
    cmds.append({"cmd": "Delete"})
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("BlockJacMC")
    scn = [inst(rng, h) for h in ck.generate("BlockJacGen", "BlockJacGen.cfg", limit=ck.pick(2500, 30000))]
    scn += [inst(rng, h) for h in ck.generate("BlockJacGen", "BlockJacGenL.cfg", simulate=ck.pick(600, 6000), depth=11)]
    exe = ck.build("blockjac", SRC)
    for i in range(0, len(scn), 6000):
        run = lambda: ck.run(exe, scn[i:i + 6000])
        ev = run()
        if not ck.validate("BlockJacTrace", ev, rerun=run, label=str(i // 6000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Mult"])
            evs[i]["y"] = [hexd(unhex(v) + 1e-6) for v in evs[i]["y"]]
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("BlockJacTrace", ev, mut)


main("C09", body)
