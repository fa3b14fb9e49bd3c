import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *

SPECIAL = [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           -1.7976931348623157e308, 0.1, 1 / 3, 1e-17, 123456789.123456789, 9007199254740993.0, 1e22, 2.0 ** -1074 * 3,
           4.35, 0.5000000000000001, 1.0000000000000002]
NONFIN = [float("inf"), float("-inf"), float("nan")]


def number(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(SPECIAL)
    if k == 1:   # any finite bit pattern
        while True:
            x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
            if x == x and abs(x) != float("inf"):
                return x
    if k == 2:
        return rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 20)
    return rng.gauss(0, 1)


def concretize(hist, rng, wide):
    """Abstract values become vectors: distinct sizes and contents."""
    fields = {"u": "u", "u_1": "u_1", "state": rng.choice(["state", "residual", "a b", "x-1", "u_1_2", "adjoint_0"])}
    steps = {0: 0, 1: 1, 12: rng.choice([12, 2147483647, 100000, 10])}
    ranks = {0: 0, 1: rng.choice([1, 7, 1023, 12])} if wide else {0: 0, 1: 1}
    out = []
    for h in hist:
        if h["op"] == "Restart":
            out.append({"op": "Restart"})
            continue
        fmt, f, s, r = h["key"]
        e = {"op": h["op"], "fmt": fmt, "field": fields[f], "step": steps[s], "rank": ranks[r]}
        if h["op"] == "Save":
            n = rng.choice([0, 1, 2, 3, 5, 10, 17, 40] if rng.random() < .9 else [200, 1000])
            v = [number(rng) for _ in range(n)]
            t = number(rng)
            if rng.random() < .15 and n:
                for _ in range(rng.randrange(1, 3)):
                    v[rng.randrange(n)] = rng.choice(NONFIN)
            e["vec"], e["time"] = [hexd(x) for x in v], hexd(t)
        else:
            e["presize"] = rng.choice([0, 0, 1, 4, 30])
        out.append(e)
    return out


def body(ck):
    ck.model("StoreMC", need=["MCSave", "MCRead", "MCRestart"])
    scn = []
    for fmt in "AB":
        for h in ck.generate("StoreGen", "StoreGenB.cfg", limit=ck.pick(150, 1500)):
            for e in h:
                if e["key"]:
                    e["key"][0] = fmt
            # read every key that was ever saved at the end
            ks = {json.dumps(e["key"]) for e in h if e["op"] == "Save"}
            h = h + [{"op": "Read", "key": json.loads(k)} for k in sorted(ks)]
            scn.append(concretize(h, ck.rng, False))
    for h in ck.generate("StoreGen", "StoreGenS.cfg", simulate=ck.pick(120, 1500), depth=16):
        ks = sorted({json.dumps(e["key"]) for e in h if e["op"] == "Save"})
        ck.rng.shuffle(ks)
        h = h + [{"op": "Restart"}] + [{"op": "Read", "key": json.loads(k)} for k in ks]
        scn.append(concretize(h, ck.rng, True))
    exe = ck.build("store")
    run = lambda: ck.run(exe, scn)
    ev = run()
    ok = ck.validate("StoreTrace", ev, rerun=run)
    if ok and not ck.quick:
        def mut(evs, rng):
            idx = [i for i, e in enumerate(evs) if e["event"] == "Read" and e["vec"]]
            i = rng.choice(idx)
            v = list(evs[i]["vec"])
            k = rng.randrange(len(v))
            v[k] = hexd(unhex(v[k]) + 1.0 if unhex(v[k]) == unhex(v[k]) and abs(unhex(v[k])) < 1e10 else 3.0)
            evs[i] = dict(evs[i], vec=v)
            return evs
        ck.selftest("StoreTrace", ev, mut)
    ck.assumptions += ["one writer process per (field, step, rank); the file system keeps what was written"]


main("C01", body)
