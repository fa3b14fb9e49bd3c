import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mbv import *
from fieldlib import *


def body(ck):
    rng = ck.rng
    ck.model("FieldsMC", need=["MCDistribute", "MCCollect", "MCProject", "MCPoke", "MCMove", "MCCopy", "MCSet"])
    exe = ck.build("fields", SOURCES, mfemx=False)
    hs = ck.generate("FieldsGen", limit=ck.pick(220, 4000)) + ck.generate("FieldsGen", "FieldsGenL.cfg", simulate=ck.pick(220, 2000), depth=24)
    scn = [scenario(rng, h) for h in hs]
    for mpi in (1, 2):
        part0 = [s for i, s in enumerate(scn) if i % 2 == mpi - 1]
        for i in range(0, len(part0), 250):
            part = part0[i:i + 250]
            run = lambda: ck.run(exe, part, mpi=mpi)
            ev = run()
            if not ck.validate("FieldsTrace", ev, rerun=run, label="%d-%d" % (mpi, i // 250)):
                return
    if not ck.quick:
        def mut(evs, rng):
            i = rng.choice([i for i, e in enumerate(evs) if e["event"] in ("Collect", "Distribute", "Project", "SetState") and e["fields"]])
            e = evs[i]
            k = rng.choice(sorted(e["fields"]))
            j = rng.randrange(len(e["fields"][k]))
            e["fields"][k][j] = hexd(unhex(e["fields"][k][j]) + 1e-3)
            return evs[max(j for j in range(i) if evs[j]["event"] == "Reset"):i + 1]
        ck.selftest("FieldsTrace", ev, mut)


main("C17", body)
