"""Model-based verification runner shared by every check in /verif.

A check (checks/<id>.py) builds a Check object and calls, in this order,
  model()     exhaustive TLC run of the specification (invariants, properties)
  generate()  behaviours of the specification, as JSON scenarios, from TLC
  build()     driver from /verif/drivers + the sources in /repo's working tree
  run()       the driver on the scenarios -> ndjson trace of the real code
  validate()  TLC decides whether the trace is a behaviour of the specification
  finish()    evidence, KNOWN-FINDING / VIOLATION lines, exit status
Exit status: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MISO_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CACHE = os.path.join(VERIF, ".build")
MPIENV = {"OMPI_MCA_btl": "self", "OMPI_MCA_btl_base_warn_component_unused": "0",
          "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
          "OMP_NUM_THREADS": "1", "LC_ALL": "C.UTF-8"}
SUB = ["common", "common/data", "physics", "physics/electromagnetics",
       "physics/fluidflow", "physics/thermal", "utils", "utils/mesh_warper"]


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ numbers
def hexd(x):
    return struct.pack(">d", float(x)).hex()


def unhex(s):
    return struct.unpack(">d", bytes.fromhex(s))[0]


def sh(cmd, timeout=None, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e.update(MPIENV)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, input=inp, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d/%s" % (pid, self.seed, self.tier))
        self.t0 = time.time()
        os.makedirs(CACHE, exist_ok=True)
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, ".work"))
        for f in os.listdir(os.path.join(VERIF, "spec")):
            shutil.copy(os.path.join(VERIF, "spec", f), self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "trace_events": 0, "models": [], "event_kinds": {}, "generated_behaviours": 0}
        self.violations = []
        self.known_hits = {}
        self.assumptions = []
        self._ieee()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ TLC
    def _ieee(self):
        src = os.path.join(VERIF, "java", "IEEE.java")
        key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        self.cls = os.path.join(CACHE, "java-" + key)
        if not os.path.exists(os.path.join(self.cls, "IEEE.class")):
            tmp = tempfile.mkdtemp(dir=CACHE)
            r = sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src], timeout=120)
            if r.returncode:
                raise CheckError("javac failed: " + r.stderr[-2000:])
            try:
                os.rename(tmp, self.cls)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)

    def tlc(self, module, cfg=None, args=(), timeout=600, workers="1", heap="6g", cwd=None):
        cwd = cwd or self.work
        meta = tempfile.mkdtemp(dir=self.work, prefix="meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
               "%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s" % (TLA, TLA, self.cls),
               "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
        cmd += ["-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            r = sh(cmd, timeout=timeout, cwd=cwd)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(l for l in (r.stdout + r.stderr).splitlines() if not l.startswith(("CostModel lookup", "Loading ")))
        st = {"rc": r.returncode, "out": out}
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            st["generated"], st["distinct"] = (int(x.replace(",", "")) for x in m.groups())
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m.group(1))
        return st

    def model(self, module, cfg=None, timeout=600, workers=8, need=(), heap="8g"):
        """Exhaustive check of a bounded instance; any failure is an error of
        the specification itself, not of the code."""
        cfg = cfg or module + ".cfg"
        st = self.tlc(module, cfg, ["-coverage", "1"], timeout=timeout, workers=workers, heap=heap)
        if st["rc"] != 0 or "No error has been found" not in st["out"]:
            raise CheckError("model %s/%s failed:\n%s" % (module, cfg, st["out"].split("The coverage statistics")[0][-6000:]))
        acts = {}
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", st["out"], re.M):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
        dead = [a for a in need if acts.get(a, 0) == 0]
        if dead:
            raise CheckError("model %s: actions never taken: %s" % (module, dead))
        self.cov["states"] += st.get("distinct", 0)
        self.cov["transitions"] += st.get("generated", 0)
        self.cov["models"].append({"module": module, "cfg": cfg, "distinct_states": st.get("distinct", 0),
                                   "states_generated": st.get("generated", 0), "depth": st.get("depth", 0),
                                   "actions": acts})
        self.log("model %s/%s: %d distinct states, depth %d" % (module, cfg, st.get("distinct", 0), st.get("depth", 0)))
        return st

    def generate(self, module, cfg=None, simulate=None, depth=None, timeout=300, workers=1, limit=None):
        """Behaviours printed by the spec as PrintT("SCN" \\o ToJson(hist))."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            if depth:
                args += ["-depth", str(depth)]
        st = self.tlc(module, cfg, args, timeout=timeout, workers=workers)
        if st["rc"] != 0:
            raise CheckError("generation %s failed:\n%s" % (module, st["out"][-4000:]))
        seen, res = set(), []
        for line in st["out"].splitlines():
            if line.startswith('"SCN'):
                s = json.loads(line)[3:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        if not res:
            raise CheckError("generation %s produced no behaviour:\n%s" % (module, st["out"][-4000:]))
        if limit and len(res) > limit:
            res = self.rng.sample(res, limit)
        if not simulate:
            self.cov["states"] += st.get("distinct", 0)
            self.cov["transitions"] += st.get("generated", 0)
        self.cov["generated_behaviours"] += len(res)
        self.log("generated %d behaviours from %s" % (len(res), module))
        return res

    # ------------------------------------------------------------------ build
    FLAGS = ["-std=c++17", "-O1", "-w", "-DNDEBUG", "-DMISO_VERIF"]

    def _inc(self, extra):
        inc = ["-I" + os.path.join(VERIF, x) for x in extra]
        inc += ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "drivers")]
        inc += ["-I%s/src/%s" % (REPO, s) for s in SUB]
        return inc + ["-isystem", "/usr/include/hypre"]

    def _compile(self, src, flags, inc, deadline):
        pp = sh(["mpicxx"] + flags + inc + ["-E", "-P", src], timeout=deadline)
        if pp.returncode:
            return None, pp.stderr
        key = hashlib.sha256((" ".join(flags) + "\0" + pp.stdout).encode()).hexdigest()[:32]
        obj = os.path.join(CACHE, key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            # compile the source itself, so that __FILE__ etc. are right
            r = sh(["mpicxx"] + flags + inc + ["-c", src, "-o", tmp], timeout=deadline)
            if r.returncode:
                return None, r.stderr
            os.rename(tmp, obj)
        return obj, ""

    def build(self, driver, sources=(), extra_inc=(), defines=(), libs=(), timeout=600, mfemx=False):
        flags = self.FLAGS + ["-D" + d for d in defines]
        inc = self._inc(extra_inc)
        own = [driver]
        if mfemx:                               # headers with the members of MISO's fork of mfem
            import mfemx as overlay
            inc = ["-include", os.path.join(VERIF, "shim", "mfemx_prefix.hpp"), "-I" + overlay.make(CACHE)] + inc
            own.append("mfemx")
        srcs = [os.path.join(VERIF, "drivers", d + ".cpp") for d in own] + [os.path.join(REPO, "src", s) for s in sources]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda s: self._compile(s, flags, inc, timeout), srcs))
        for s, (o, e) in zip(srcs, res):
            if o is None:
                raise CheckError("cannot compile %s:\n%s" % (s, e[-4000:]))
        exe = os.path.join(self.work, driver)
        objs = [o for o, _ in res]

        def link(objs):
            return sh(["mpicxx"] + objs + ["-o", exe, "-lmfem", "-lHYPRE"] + list(libs) + ["-lstdc++fs"], timeout=timeout)
        r = link(objs)
        if r.returncode:
            # a refactoring may have moved code to another file of the tree
            rest = []
            for d, _, fs in os.walk(os.path.join(REPO, "src")):
                for f in fs:
                    p = os.path.join(d, f)
                    if f.endswith(".cpp") and p not in srcs:
                        rest.append(p)
            with ThreadPoolExecutor(8) as ex:
                more = [o for o, _ in ex.map(lambda s: self._compile(s, flags, inc, timeout), rest) if o]
            ar = os.path.join(self.work, "librest.a")
            sh(["ar", "rcs", ar] + more)
            r = link(objs + [ar])
            if r.returncode:
                raise CheckError("cannot link %s:\n%s" % (driver, r.stderr[-4000:]))
        self.log("built driver %s with %d sources of /repo" % (driver, len(sources)))
        return exe

    # ------------------------------------------------------------------ run
    def run(self, exe, scenarios, name="s", timeout=150, mpi=1, args=()):
        """Runs the driver in a scratch directory; returns the trace (list of
        dicts). A crash, abort or hang of the code becomes a last event that no
        specification accepts."""
        d = tempfile.mkdtemp(dir=self.work, prefix="run-")
        sc = os.path.join(d, name + ".json")
        with open(sc, "w") as f:
            for one in scenarios:
                f.write(json.dumps(one) + "\n")
        tr = os.path.join(d, "trace.ndjson")
        cmd = [exe, sc, tr] + list(args)
        env = {}
        if mpi > 1:
            cmd = ["mpirun", "--oversubscribe", "-np", str(mpi)] + cmd
            env = {"OMPI_MCA_btl": "self,vader,tcp", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
                   "OMPI_MCA_btl_tcp_if_include": "lo", "OMPI_MCA_hwloc_base_binding_policy": "none",
                   "OMPI_MCA_rmaps_base_oversubscribe": "1"}
        bad = None
        try:
            r = sh(cmd, timeout=timeout, cwd=d, env=env)
            if r.returncode:
                bad = {"event": "Crash", "rc": r.returncode, "stderr": r.stderr[-400:]}
                if r.returncode == 97:
                    raise CheckError("driver %s: %s" % (exe, r.stderr[-2000:]))
        except subprocess.TimeoutExpired:
            bad = {"event": "Timeout", "s": timeout}
        ev = []
        if os.path.exists(tr):
            for line in open(tr, errors="replace"):
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    break
        if bad is None and (not ev or ev[-1].get("event") != "End"):
            bad = {"event": "Crash", "rc": 0, "stderr": "driver ended early"}
        if bad is not None:
            ev.append(bad)
        elif ev:
            ev.pop()
        shutil.rmtree(d, ignore_errors=True)
        return ev

    # ------------------------------------------------------------------ trace
    def tlc_trace(self, module, events, cfg=None, timeout=600, heap="8g"):
        d = tempfile.mkdtemp(dir=self.work, prefix="tr-")
        for f in os.listdir(os.path.join(VERIF, "spec")):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        st = self.tlc(module, cfg, timeout=timeout, cwd=d, heap=heap)
        out = st["out"]
        st["known"] = [json.loads(l)[6:] for l in out.splitlines() if l.startswith('"KNOWN ')]
        if st["rc"] == 0 and "No error has been found" in out:
            st["accepted"] = True
        elif "Postcondition" in out or "POSTCONDITION" in out or "Post condition" in out.lower():
            st["accepted"] = False
        elif re.search(r"Invariant \w+ is violated|Action property \w+ is violated", out):
            st["accepted"] = False
            m = re.search(r"(Invariant|Action property) (\w+) is violated", out)
            st["why"] = m.group(0)
            ds = [int(x) for x in re.findall(r"^State (\d+):", out, re.M)]
            st["depth"] = max(ds) if ds else st.get("depth", 1)
        elif re.search(r"OutOfMemory|Parsing or semantic|parse error|Could not|Unknown operator|ConfigFileException|configuration file", out):
            st["accepted"] = None
        else:
            # an event whose shape no action of the specification can interpret
            st["accepted"] = False
            m = re.search(r"^(Error: .*|.*Exception.*)$", out, re.M)
            st["why"] = "uninterpretable event: " + (m.group(0)[:300] if m else "")
            st["uninterp"] = True
            ds = [int(x) for x in re.findall(r"^State (\d+):", out, re.M)]
            st["depth"] = max(ds) if ds else st.get("depth", 1)
        shutil.rmtree(d, ignore_errors=True)
        return st

    def _where(self, st, events):
        k = st.get("depth", 1)
        return max(0, min(k - 1, len(events) - 1))

    def validate(self, module, events, rerun=None, cfg=None, label="", timeout=600, heap="8g", ntraces=None):
        """TLC decides the trace.  `rerun` records the same scenarios again; a
        rejection counts only if it repeats."""
        for e in events:
            self.cov["event_kinds"][e["event"]] = self.cov["event_kinds"].get(e["event"], 0) + 1
        st = self.tlc_trace(module, events, cfg, timeout, heap)
        if st["accepted"] is None:
            raise CheckError("trace spec %s: %s" % (module, st["out"][-6000:]))
        if st["accepted"]:
            n = ntraces if ntraces is not None else max(1, sum(1 for e in events if e["event"] in ("Reset", "Begin")))
            self.cov["traces_validated_against_impl"] += n
            self.cov["trace_events"] += len(events)
            for k in st["known"]:
                self.known_hits[k] = self.known_hits.get(k, 0) + 1
            self.log("trace %s %s: %d events, %d scenarios accepted" % (module, label, len(events), n))
            if len(self.cov["samples"]) < 6 and events:
                i = self.rng.randrange(len(events))
                self.cov["samples"].append({"module": module, "events": self._short(events[max(0, i - 1):i + 2])})
            return True
        if rerun is not None:
            ev2 = rerun()
            st2 = self.tlc_trace(module, ev2, cfg, timeout, heap)
            if st2["accepted"]:
                raise CheckError("rejection of %s did not repeat" % module)
            events, st = (ev2, st2) if st2["accepted"] is False else (events, st)
        i = self._where(st, events)
        self.violation(module, label, events, i, st.get("why", ""))
        return False

    @staticmethod
    def _short(evs):
        s = json.dumps(evs)
        return evs if len(s) < 3000 else s[:3000] + "..."

    def violation(self, module, label, events, i, why=""):
        rd = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%d.json" % (re.sub(r"\W", "_", module + "_" + label), len(self.violations)))
        j = i
        while j > 0 and events[j].get("event") not in ("Reset", "Begin"):
            j -= 1
        with open(p, "w") as f:
            json.dump({"property": self.pid, "spec": module, "label": label, "seed": self.seed, "tier": self.tier,
                       "why": why or "no action of the specification explains this event",
                       "rejected_index": i, "rejected_event": events[i] if events else None,
                       "history": events[max(j, i - 400):i + 1]}, f, indent=1)
        self.violations.append(p)
        self.log("REJECTED %s %s at event %d: %s %s" % (module, label, i, why,
                 str(self._decode(events[i]) if events else None)[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    @staticmethod
    def _decode(x):
        if isinstance(x, str) and re.fullmatch(r"[0-9a-f]{16}", x):
            return unhex(x)
        if isinstance(x, list):
            return [Check._decode(y) for y in x]
        if isinstance(x, dict):
            return {k: Check._decode(y) for k, y in x.items()}
        return x

    # --------------------------------------------------------------- self test
    def selftest(self, module, events, mutate, cfg=None, tries=6):
        """Binding demonstration: corrupted copies of an accepted trace must
        be rejected. mutate(events, rng) -> corrupted list or None."""
        n = rej = 0
        for _ in range(tries):
            ev = mutate([dict(e) for e in events], self.rng)
            if ev is None:
                continue
            n += 1
            st = self.tlc_trace(module, ev, cfg)
            if st["accepted"] is not True:
                rej += 1
        self.cov["corrupted_traces"] = self.cov.get("corrupted_traces", 0) + n
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + rej
        self.log("self test %s: %d of %d corrupted traces rejected" % (module, rej, n))
        if rej < n:
            raise CheckError("self test: %s accepted a corrupted trace" % module)

    # ------------------------------------------------------------------ end
    def finish(self):
        known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        for k, nhit in sorted(self.known_hits.items()):
            if k not in known:
                raise CheckError("spec reported an unlisted known finding %s" % k)
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k, known[k]), flush=True)
        self.cov["known_findings_seen"] = sorted(self.known_hits)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d violations" % len(self.violations))
        return 1 if self.violations else 0


def main(pid, body):
    """Runs body(check) and turns every outcome into an exit status."""
    ck = None
    rc = 2
    try:
        ck = Check(pid)
        body(ck)
        rc = ck.finish()
    except CheckError as e:
        print("ERROR in check %s: %s" % (pid, e), flush=True)
        rc = 1 if ck and ck.violations else 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 1 if ck and ck.violations else 2
    finally:
        if ck and not os.environ.get("MBV_KEEP"):
            shutil.rmtree(ck.work, ignore_errors=True)
    sys.exit(rc)
