import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *


def points(rng, pat, n, d, typ):
    if typ == "int":
        s = 10 ** rng.randrange(0, 4)
        num = lambda: float(rng.randrange(-s, s + 1))
    else:
        s = 10.0 ** rng.choice([0, 0, 0, -3, 4])
        num = lambda: rng.uniform(-s, s)
    if pat == "grid":
        return [[float(rng.randrange(0, 3)) for _ in range(d)] for _ in range(n)]
    if pat == "huge":
        f = float(rng.choice([10 ** 4, 10 ** 3])) if typ == "int" else 10.0 ** rng.choice([60, 12, -60, -12])
        return [[f * rng.randrange(-8, 9) for _ in range(d)] for _ in range(n)]
    if pat == "same":
        p = [num() for _ in range(d)]
        return [list(p) for _ in range(n)]
    if pat == "line":
        c = rng.randrange(d)
        p = [num() for _ in range(d)]
        return [[num() if i == c else p[i] for i in range(d)] for _ in range(n)]
    if pat == "cluster":
        p = [num() for _ in range(d)]
        return [[x + (rng.randrange(0, 3) if typ == "int" else rng.uniform(-1, 1) * 1e-9 * (abs(x) + 1)) for x in p] for _ in range(n)]
    ps = [[num() for _ in range(d)] for _ in range(n)]
    if pat == "sorted":
        ps.sort(key=lambda p: p[d - 1], reverse=rng.random() < .5)
    if pat == "mirror":
        ps = [p if rng.random() < .5 else [-x for x in ps[rng.randrange(len(ps))]] for p in ps]
    return ps


def scenario(rng, h, small):
    how, d, typ, pat, n0 = h[0]
    d = int(d)
    size = lambda n: {"some": rng.randrange(4, 12), "many": rng.randrange(4, 9) if small else rng.randrange(30, 120)}.get(n) if n in ("some", "many") else int(n)
    pts, cmds, nid = [], [], 0
    ids = rng.choice(["seq", "shuffled", "neg"])
    hx = lambda p: [hexd(x) for x in p]
    if how == "add":
        cmds.append({"cmd": "New", "how": how, "dim": d, "type": typ, "pts": []})
        if rng.random() < .5:
            cmds[0]["reserve"] = rng.randrange(0, 200)
    else:
        pts = points(rng, pat, size(n0), d, typ)
        cmds.append({"cmd": "New", "how": how, "dim": d, "type": typ, "pts": [hx(p) for p in pts]})

    def query(kind):
        if kind == "any":
            kind = rng.choice(["member", "between", "near", "far", "random"])
        if not pts or kind == "random":
            q = points(rng, "random", 1, d, typ)[0]
        elif kind == "member":
            q = rng.choice(pts)
        elif kind == "between":
            a, b = rng.choice(pts), rng.choice(pts)
            q = [(x + y) / 2 for x, y in zip(a, b)]
        elif kind == "near":
            q = [x + rng.choice([-1, 1, 0]) * (1 if typ == "int" else abs(x) * 1e-3 + rng.choice([0, 1e-3])) for x in rng.choice(pts)]
        else:
            m = max(abs(x) for p in pts for x in p) + 1
            q = [rng.choice([-1, 1, 0]) * m * 2 for _ in range(d)]
        if typ == "int":
            q = [float(round(x)) for x in q]
        cmds.append({"cmd": "Query", "x": hx(q)})

    stale = how == "add"
    for o in h[1:]:
        if o[0] == "add":
            for p in points(rng, o[1], size(o[2]), d, typ):
                pts.append(p)
                nid += 1
                cmds.append({"cmd": "Add", "x": hx(p), "id": {"seq": nid - 1, "shuffled": (nid * 7919) % 10007, "neg": -nid - 5}[ids]})
                stale = True
        elif o[0] == "finalize":
            cmds.append({"cmd": "Finalize"})
            stale = False
        else:
            for _ in range(rng.choice([1, 2, 4])):
                query(o[1])
    cmds.append({"cmd": "Empty"})
    if stale and pts:
        cmds.append({"cmd": "Finalize"})
    for _ in range(2 if small else 5):
        query("any")
    return {"cmds": cmds}


def body(ck):
    rng = ck.rng
    ck.model("KdTreeMC", need=["MCAdd", "MCFinalize", "MCQuery"])
    if not ck.quick:
        ck.model("KdTreeMC", "KdTreeMCT.cfg", need=["MCQuery"], timeout=900)
    scn = [scenario(rng, h, True) for h in ck.generate("KdTreeGen", limit=ck.pick(3000, 40000))]
    scn += [scenario(rng, h, False) for h in ck.generate("KdTreeGen", "KdTreeGenL.cfg", simulate=ck.pick(500, 5000), depth=11)]
    exe = ck.build("kdtree")
    for i in range(0, len(scn), 7000):
        part = scn[i:i + 7000]
        run = lambda: ck.run(exe, part)
        ev = run()
        if not ck.validate("KdTreeTrace", ev, rerun=run, label=str(i // 7000)):
            return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] == "Query" and not e["err"]])
            evs[i]["d"] = hexd(unhex(evs[i]["d"]) * 1.001 + 1e-3)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("KdTreeTrace", ev, mut)


main("C14", body)
