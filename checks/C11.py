import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SOURCES = ["common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/evolver.cpp",
           "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp",
           "common/linesearch.cpp", "physics/miso_input.cpp", "utils/utils.cpp"]


class Dealer:
    def __init__(self, rng):
        self.rng = rng

    def i(self, a=-3, b=4):
        return self.rng.randint(a, b)

    def ints(self, n):
        return [self.i() for _ in range(n)]

    def inp(self, w):
        r = self.rng
        buf = lambda: ["vec", r.choice("pq")]
        x = ["num", self.i()]
        if w == "none":
            return {}
        if w == "all":
            d = {"x": x, "v": buf(), "state": buf()}
            if r.random() < .3:
                d["unrelated"] = r.choice([x, buf()])
            return d
        if w == "bad":
            d = {"x": x, "v": buf(), "state": buf()}
            k = r.choice(["x", "v", "state"])
            d[k] = buf() if k == "x" else ["num", self.i()]
            for o in list(d):
                if o != k and r.random() < .3:
                    del d[o]
            return d
        return {w: x if w == "x" else buf()}

    def scenario(self, h):
        r, ops, size, steady = self.rng, [], {}, True
        for a in h[1:]:
            op = a[0]
            c = {"op": op}
            if op in ("create", "size", "options", "calc", "partial", "jvp", "vjp"):
                c["o"] = a[1]
                n = size.get(a[1], (1, "one"))[0]
            if op == "create":
                n = r.randint(2, 3) if a[2] == "many" else 1
                c.update(kind=a[2], n=n, k=r.choice([-2, 1, 2, 3]), deep=r.random() < .5, req=r.choice(["", "", "", "", "x", "v"]))
                if a[1] not in size and a[2] != "bogus":
                    size[a[1]] = (n, a[2])
            elif op == "options":
                c["k"] = r.choice([-2, 1, 2, 3])
            elif op == "calc":
                c.update({"in": self.inp(a[2]), "buf": self.ints(n), "vec": n > 1 or r.random() < .5})
            elif op in ("partial", "jvp", "vjp"):
                if op == "partial" and n > 1:
                    continue
                w = a[3]
                m = 1 if w == "x" else 2
                c.update({"in": self.inp(a[2]), "wrt": w, "pre": self.ints(n if op == "jvp" else m)})
                if op == "partial" and w == "other":
                    continue
                if op != "partial":
                    c["d"] = self.ints(m if op == "jvp" else n)
            elif op in ("touch", "setstate"):
                c["b"] = a[1]
                c["v" if op == "touch" else "pre"] = self.ints(2)
            elif op in ("residual", "norm", "linearize"):
                c["in"] = self.inp(a[1])
                if op != "linearize":
                    c["bare"] = list(c["in"]) == ["state"] and c["in"]["state"][0] == "vec" and r.random() < .5
                if op == "residual":
                    c["buf"] = self.ints(2)
            elif op in ("rjvp", "rvjp"):
                w, s = a[1], a[2] == "scalar"
                if op == "rvjp" and s != (w == "x"):
                    s = w == "x"
                m = 1 if w == "x" else 2
                c.update(wrt=w, scalar=s, d=self.ints(m if op == "rjvp" else 2),
                         pre=self.ints(1 if s else 2 if op == "rjvp" else m))
            elif op == "unsteady":
                steady = a[1] == "no"
                c["on"] = not steady
            elif op == "adjoint" and steady:
                continue
            elif op == "fieldsize":
                c["name"] = a[1]
            ops.append(c)
        return {"kind": h[0][1], "bufs": {"p": self.ints(2), "q": self.ints(2)}, "ops": ops}


def body(ck):
    ck.model("FacadeMC", need=["MCreate", "MOptions", "MCalcKnown", "MCalcUnknown", "MTouch", "MResidual", "MLinearize", "MUnsteady"])
    exe = ck.build("facade", SOURCES)
    hs = ck.generate("FacadeGen") + ck.generate("FacadeGen", "FacadeGenL.cfg", simulate=ck.pick(2500, 30000), depth=16)
    d = Dealer(ck.rng)
    ck.rng.shuffle(hs)
    for ranks in (1, 2):
        scn = [d.scenario(h) for h in hs[:ck.pick(2400, 40000)]]
        if ranks == 2:
            scn = scn[:ck.pick(600, 6000)]
        for i in range(0, len(scn), 2400):
            part = scn[i:i + 2400]
            run = lambda: ck.run(exe, part, mpi=ranks)
            ev = run()
            if not ck.validate("FacadeTrace", ev, rerun=run, label="%d-%d" % (ranks, i // 2400)):
                return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("jvp", "vjp") and e["err"] == ""])
            j = rng.randrange(len(evs[i]["post"]))
            evs[i]["post"][j] += rng.choice([-1, 1])
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("FacadeTrace", ev, mut)


main("C11", body)
