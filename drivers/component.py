#!/usr/bin/env python3-vt
"""Runs MISO's OpenMDAO components over a solver with integer physics."""
import sys, json, types, random, importlib, contextlib, io
sys.dont_write_bytecode = True
import numpy as np

REPO = sys.argv[3]
P = 17

# ---------------------------------------------------------------- OpenMDAO
class Options(dict):
    def declare(self, name, default=None, **kw):
        self.setdefault(name, default)


class Vec:
    """Named vectors: assignment keeps the storage."""
    def __init__(self, d):
        self.d = d
    def __getitem__(self, n):
        return self.d[n]
    def __setitem__(self, n, v):
        self.d[n][...] = v
    def __contains__(self, n):
        return n in self.d
    def __iter__(self):
        return iter(self.d)
    def __len__(self):
        return len(self.d)
    def get(self, n, default=None):
        return self.d.get(n, default)
    def keys(self):
        return self.d.keys()
    def values(self):
        return self.d.values()
    def items(self):
        return self.d.items()


class Base:
    def __init__(self, **kw):
        self.options = Options()
        self.ins, self.outs, self.subs = {}, {}, []
        self.comm = Comm(1)
        self.initialize()
        self.options.update(kw)
    def initialize(self):
        pass
    def setup(self):
        pass
    def add_input(self, name, val=None, shape=None, **kw):
        self.ins[name] = (np.atleast_1d(np.array(val, float)), None) if val is not None else (None, shape)
    def add_output(self, name, val=None, shape=None, **kw):
        self.outs[name] = (np.atleast_1d(np.array(val, float)), None) if val is not None else (None, shape)
    def add_subsystem(self, name, sub, promotes=None, promotes_inputs=None, promotes_outputs=None, **kw):
        self.subs.append((name, sub, list(promotes or []) + list(promotes_inputs or []) + list(promotes_outputs or [])))
        return sub


def size(d):
    v, s = d
    if v is not None:
        return int(v.size)
    return 0 if s is None else int(np.prod(s))


class Comm:
    def __init__(self, n):
        self.size, self.rank = n, 0
    def Allreduce(self, a, b, op=None):
        b[...] = 3 * np.asarray(a)      # the other rank's share is twice this one's
    def allreduce(self, a, op=None):
        return 3 * a


class Ranks:
    n = 1
    SUM = "sum"
    def __bool__(self):
        return Ranks.n > 1


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


om = module("openmdao.api", ImplicitComponent=Base, ExplicitComponent=Base, IndepVarComp=Base, Group=Base)
module("openmdao.utils.mpi", MPI=Ranks())
module("openmdao.utils", mpi=sys.modules["openmdao.utils.mpi"])
module("openmdao", api=om, utils=sys.modules["openmdao.utils"])
module("mphys", Builder=object)

# ---------------------------------------------------------------- pyMISO
def weigh(v):
    return sum((k + 1) * int(x) for k, x in enumerate(v))


class Physics:
    """What the bindings accept, and integer maps behind it."""
    def read(self, inputs):
        got = {}
        for n in self.codes:
            a = inputs[n]
            if not isinstance(a, (float, int)):
                if not (isinstance(a, np.ndarray) and a.dtype == np.float64 and (a.size < 2 or a.flags["C_CONTIGUOUS"])):
                    raise TypeError("buffer of " + n)
            got[n] = [int(x) for x in np.atleast_1d(a)]
            if n in self.sizes and len(got[n]) != self.sizes[n]:
                raise TypeError("size of " + n)
        return got
    def buffer(self, a, n):
        if not (isinstance(a, np.ndarray) and a.dtype == np.float64 and a.size == n and (a.size < 2 or a.flags["C_CONTIGUOUS"])):
            raise TypeError("buffer")
        return a
    def H(self, got):
        return sum(self.codes[n] * weigh(got[n]) for n in self.codes) % P
    def entry(self, got, wrt, j, k):
        return (self.H(got) + self.codes[wrt] + j + 1) * (k + 1)
    def can(self, wrt):
        if wrt in self.un:
            raise NotImplementedError(wrt)
        return self.sizes[wrt]
    def fwd(self, got, wrt, d, out):
        n = self.can(wrt)
        self.buffer(d, n), self.buffer(out, self.n)
        for j in range(self.n):
            out[j] += sum(self.entry(got, wrt, j, k) * d[k] for k in range(n))
    def rev(self, got, wrt, bar, out):
        n = self.can(wrt)
        self.buffer(bar, self.n), self.buffer(out, n)
        add = [sum(self.entry(got, wrt, j, k) * bar[j] for j in range(self.n)) for k in range(n)]
        out += add
    def calcResidual(self, inputs, residual):
        h = self.H(self.read(inputs))
        self.buffer(residual, self.n)[:] = [h * (j + 1) + j + 1 for j in range(self.n)]
    def linearize(self, inputs):
        self.lin = self.read(inputs)
    def jacobianVectorProduct(self, wrt_dot, wrt, res_dot):
        self.fwd(self.lin, wrt, wrt_dot, res_dot)
    def vectorJacobianProduct(self, res_bar, wrt, wrt_bar):
        self.rev(self.lin, wrt, res_bar, wrt_bar)
    def solveForAdjoint(self, inputs, state_bar, adjoint):
        h = self.H(self.read(inputs))
        w = weigh(self.buffer(state_bar, self.n))
        self.buffer(adjoint, self.n)[:] = [(h + 5 * (j + 1)) * w for j in range(self.n)]
    def getStateSize(self):
        return self.n


class PDESolver(Physics):
    def __init__(self, type=None, solver_options=None, comm=None):
        self.opts = dict(solver_options or {})
        if type is not None:
            self.opts["solver-type"] = type if isinstance(type, dict) else {"type": type}
        self.un, self.created = (), None
    def getOptions(self):
        return self.opts
    def getFieldSize(self, name):
        return self.fieldsize.get(name, 0)
    def getNumStates(self):
        return self.nstates
    def getMeshCoordinates(self, mesh_coords):
        self.buffer(mesh_coords, len(self.coords))[:] = self.coords
    def createOutput(self, output, options=None):
        self.created = (output, options)
    def getOutputSize(self, output):
        return self.n
    def solveForState(self, inputs, state):
        h = self.H(self.read(inputs))
        self.buffer(state, self.n)[:] = [(h * (j + 1) + 2 * (j + 1)) % P for j in range(self.n)]
    def calcOutput(self, output, inputs, out_vec=None):
        assert output == self.created[0]
        h = self.H(self.read(inputs))
        if out_vec is None:
            return float(h + 1)
        self.buffer(out_vec, self.n)[:] = [h * (j + 1) + 1 for j in range(self.n)]
    def outputJacobianVectorProduct(self, of, inputs, wrt_dot, wrt, out_dot):
        assert of == self.created[0]
        self.fwd(self.read(inputs), wrt, wrt_dot, out_dot)
    def outputVectorJacobianProduct(self, of, inputs, out_bar, wrt, wrt_bar):
        assert of == self.created[0]
        self.rev(self.read(inputs), wrt, out_bar, wrt_bar)


class MeshWarper(Physics):
    def __init__(self, warper_options=None, comm=None):
        self.un = ()
    def getSurfaceCoordsSize(self):
        return len(self.S)
    def getVolumeCoordsSize(self):
        return self.n
    def getInitialSurfaceCoords(self, surface_coords):
        self.buffer(surface_coords, len(self.S))[:] = [self.coords[k] for k in self.S]
    def getInitialVolumeCoords(self, volume_coords):
        self.buffer(volume_coords, self.n)[:] = self.coords
    def getSurfCoordIndices(self, indices):
        assert indices.dtype == np.int32
        indices[:] = self.S
    def solveForState(self, inputs, state=None):
        if state is None:
            state = inputs
        self.buffer(state, self.n)
        w = weigh([state[k] for k in self.S])
        for k in range(self.n):
            if k not in self.S:
                state[k] = (w * (k + 1)) % P


pkg = module("miso")
pkg.__path__ = [REPO + "/miso"]
module("miso.pyMISO", PDESolver=PDESolver, MeshWarper=MeshWarper, MISOSolver=PDESolver)
sub = module("miso.mphys")
sub.__path__ = [REPO + "/miso/mphys"]
State = importlib.import_module("miso.miso_state")
Output = importlib.import_module("miso.miso_output")
Warper = importlib.import_module("miso.mesh_warper")
Builder = importlib.import_module("miso.mphys.miso_builder")

# ---------------------------------------------------------------- scenarios
EXTRA = ["current_density", "temperature"]


def ints(a):
    return [int(x) for x in np.asarray(a)] if all(float(x) == int(x) for x in np.asarray(a)) else ["%r" % float(x) for x in np.asarray(a)]


class Scenario:
    def __init__(self, sc, emit):
        self.rng = random.Random(sc["seed"])
        emit({"event": "Reset"})
        for c in sc["cmds"]:
            e = getattr(self, c[0])(*c[1:])
            if e is not None:
                emit(e)

    def rand(self, n, nz=False):
        return [self.rng.choice([-3, -2, -1, 1, 2, 3] if nz else [-3, -2, -1, 0, 1, 2, 3]) for _ in range(n)]

    def array(self, v, strided=None):
        if self.strided if strided is None else strided:
            a = np.full(2 * len(v), 1e9)
            a[::2] = v
            return a[::2]
        return np.array(v, float)

    def guard(self, f, *a):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(*a)
            return ""
        except Exception as err:
            return type(err).__name__

    def solver(self, cls, kind):
        s = cls()
        s.n = self.rng.randint(1, 3)
        if kind == "warper":
            s.n = self.rng.randint(2, 4)
        return s

    def build(self, kind, n, partials, strided, un, ranks):
        self.strided, rng = strided, self.rng
        if kind in ("mesh", "builder"):
            return getattr(self, kind)(n)
        Ranks.n = ranks
        s = self.s = self.solver(MeshWarper if kind == "warper" else PDESolver, kind)
        e = {"event": "Build", "kind": kind, "S": [], "partials": partials, "un": [], "ranks": ranks}
        if kind == "warper":
            s.S = sorted(rng.sample(range(s.n), rng.randint(1, s.n)))
            if rng.random() < .5:
                rng.shuffle(s.S)
            s.coords = self.rand(s.n)
            s.sizes = {"state": s.n, "surf_mesh_coords": len(s.S)}
            c = self.c = Warper.MISOMeshWarper(warper=s)
            e.update(S=[k + 1 for k in s.S], vol=s.n, surf=len(s.S), given=[s.coords, [s.coords[k] for k in s.S]])
            self.state = "vol_mesh_coords"
        else:
            s.opts = {"solver-type": {"type": rng.choice(["thermal", "magnetostatic", "euler", "navierstokes"])}}
            if rng.random() < .5:
                s.opts["external-fields"] = {"temperature": {}}
            deps = ["mesh_coords"] * (rng.random() < .8) + EXTRA[:n]
            nstate = s.n if kind == "state" else rng.randint(1, 3)
            rng.shuffle(deps)
            if kind == "functional" and rng.random() < .8:
                deps.insert(rng.randint(0, len(deps)), "state")
            s.fieldsize = {"mesh_coords": rng.randint(2, 4), "current_density": rng.choice([0, 1]), "temperature": rng.randint(2, 3)}
            s.sizes = {d: s.fieldsize[d] or 1 for d in deps if d != "state"}
            if kind == "state" or "state" in deps:
                s.sizes["state"] = nstate
            names = sorted(s.sizes)
            s.un = tuple(rng.sample(names, 1)) if un and names else ()
            e.update(depends=deps, fieldsize={d: s.fieldsize.get(d, 0) for d in deps}, un=list(s.un))
            self.state = "state"
            if kind == "state":
                c = self.c = State.MISOState(solver=s, depends=deps, check_partials=partials)
            else:
                o = rng.choice([None, {"attributes": [1, 2]}])
                given = [d if rng.random() < .6 else (d, "x_" + d) for d in deps]
                c = self.c = Output.MISOFunctional(solver=s, func="loss", func_options=o, depends=given, check_partials=partials)
                c.comm = Comm(ranks)
        s.codes = {n: [2, 3, 5, 7, 11, 13][i] for i, n in enumerate(sorted(s.sizes))}
        e.update(codes=s.codes, size=s.n)
        e["raised"] = self.guard(c.setup)
        e["inputs"] = {n: size(d) for n, d in c.ins.items()}
        e["outputs"] = {n: size(d) for n, d in c.outs.items()}
        if kind == "warper":
            e["initial"] = [ints(c.outs["vol_mesh_coords"][0]), ints(c.ins["surf_mesh_coords"][0])]
        if kind == "functional":
            e.update(func="loss", created=s.created[0], createdoptions=json.dumps(s.created[1]), options=json.dumps(o))
        self.kind = kind
        self.inn = [n for n in s.sizes if n != "state"] if kind != "functional" else list(s.sizes)
        self.inp, self.out = None, None
        return e

    def draw(self):
        self.vals = {n: self.rand(k) for n, k in self.s.sizes.items()}
        self.inp = Vec({n: self.array(self.vals[n]) for n in self.inn})
        self.out = Vec({self.state: self.array(self.vals["state"])} if self.kind != "functional" else {"loss": self.array(self.rand(self.s.n))})

    def kept(self, out=True):
        return all(list(map(int, self.inp[n])) == self.vals[n] for n in self.inn) and (not out or self.kind == "functional" or ints(self.out[self.state]) == self.vals["state"])

    def res(self):
        self.draw()
        r = Vec({self.state: self.array(self.rand(self.s.n))})
        raised = self.guard(self.c.apply_nonlinear, self.inp, self.out, r)
        return {"event": "Residual", "in": self.vals, "raised": raised, "res": ints(r[self.state]), "kept": self.kept()}

    def solve(self):
        self.draw()
        raised = self.guard(self.c.solve_nonlinear, self.inp, self.out)
        return {"event": "Solve", "in": self.vals, "raised": raised, "out": ints(self.out[self.state]), "kept": self.kept(False)}

    def lin(self):
        if self.inp is None or self.rng.random() < .5 or self.kind == "state" and not self.kept():
            self.draw()
        if self.kind != "functional":
            self.vals["state"] = ints(self.out[self.state])
        r = Vec({self.state: self.array(self.rand(self.s.n))})
        raised = self.guard(self.c.linearize, self.inp, self.out, r)
        return {"event": "Linearize", "in": dict(self.vals), "raised": raised, "kept": self.kept()}

    def seeds(self, mode, how, row):
        """d_inputs, d_outputs and d_residuals that are asked for."""
        names = list(self.s.sizes)
        ask = names if how in ("all", "zero", "norow") else ["state"] if how == "outputs" else [] if how == "none" else self.rng.sample(names, self.rng.randint(min(1, len(names)), len(names)))
        ask = [n for n in ask if n in names]
        zero = how == "zero"
        bars = {n: np.array(self.rand(k, True) if not (zero and mode == "fwd") else [0] * k, float) for n, k in self.s.sizes.items()}
        res = np.array(self.rand(self.s.n, True) if not (zero and mode == "rev") else [0] * self.s.n, float)
        return ask, bars, res

    def products(self, mode, how, call):
        row = how != "norow"
        ask, bars, res = self.seeds(mode, how, row)
        e = {"mode": mode, "ask": ask, "row": row, "before": {"bars": {n: ints(b) for n, b in bars.items()}, "res": ints(res)}}
        e["raised"] = call(ask, bars, res, row)
        e["after"] = {"bars": {n: ints(b) for n, b in bars.items()}, "res": ints(res)}
        return e

    def apply(self, mode, how):
        def call(ask, bars, res, row):
            di = Vec({n: bars[n] for n in ask if n != "state"})
            do = Vec({self.state: bars["state"]} if "state" in ask else {})
            return self.guard(self.c.apply_linear, self.inp, self.out, di, do, Vec({self.state: res} if row else {}), mode)
        return {"event": "Apply", **self.products(mode, how, call)}

    def inv(self, mode, how):
        bar = np.array(self.rand(self.s.n, True) if how != "zero" else [0] * self.s.n, float)
        res = np.array(self.rand(self.s.n, True), float)
        given = ints(bar)
        raised = self.guard(self.c.solve_linear, Vec({self.state: bar}), Vec({self.state: res}), mode)
        return {"event": "Invert", "mode": mode, "given": given, "bar": ints(bar), "out": ints(res), "raised": raised}

    def compute(self):
        self.draw()
        raised = self.guard(self.c.compute, self.inp, self.out)
        return {"event": "Compute", "in": self.vals, "raised": raised, "out": ints(self.out["loss"]), "kept": self.kept()}

    def jac(self, mode, how):
        if self.inp is None or self.rng.random() < .5:
            self.draw()

        def call(ask, bars, res, row):
            return self.guard(self.c.compute_jacvec_product, self.inp, Vec({n: bars[n] for n in ask}), Vec({"loss": res} if row else {}), mode)
        e = {"event": "Jacvec", **self.products(mode, how, call), "in": self.vals}
        e["kept"] = self.kept()
        return e

    def mesh(self, n):
        s = PDESolver()
        t = self.rng.choice(["thermal", "magnetostatic", "euler", "navierstokes", "unknown"])
        s.opts = {"solver-type": {"type": t}}
        s.coords = self.rand(self.rng.randint(2, 5))
        s.fieldsize = {"mesh_coords": len(s.coords)}
        m = State.MISOMesh(solver=s)
        raised = self.guard(m.setup)
        out = list(m.outs.items())
        return {"event": "Mesh", "type": t, "raised": raised, "name": out[0][0] if len(out) == 1 else "", "val": ints(out[0][1][0]) if len(out) == 1 else [], "given": s.coords}

    def builder(self, n):
        rng = self.rng
        t = rng.choice(["thermal", "magnetostatic", "euler", "navierstokes"])
        warps = rng.random() < .7
        deps = EXTRA[:n]
        outs, asked = {}, []
        for f in ["loss", "energy", "force"][:rng.randint(0, 3)]:
            d = rng.sample(["mesh_coords", "state", "temperature"], rng.randint(0, 3))
            o = rng.choice([None, {"attributes": [1]}])
            name = f if rng.random() < .6 else "my_" + f
            spec = {}
            if o:
                spec["options"] = o
            if d or rng.random() < .5:
                spec["depends"] = d
            outs[f if name == f else (name, f)] = spec
            asked.append({"name": name, "func": f, "options": json.dumps(o), "depends": d})
        b = Builder.MISOBuilder(solver_type=rng.choice([t, {"type": t}]), solver_options={}, solver_inputs=deps, warper_type="MeshWarper" if warps else None,
                                warper_options={}, outputs=outs, check_partials=False)
        b.initialize(Comm(1))
        ns = rng.randint(1, 3)
        b.solver.nstates, b.solver.n = ns, ns * rng.randint(1, 4)
        e = {"event": "Groups", "type": t, "warps": warps, "depends": deps, "asked": asked, "warper": [], "state": [], "outputs": []}
        if warps:
            b.warper.S, b.warper.n, b.warper.coords = [0], 2, [1, 2]

        def flat(p):
            return [[q, q] if isinstance(q, str) else list(q) for q in p]
        g = b.get_mesh_coordinate_subsystem()
        g.setup()
        m = g.subs[0][1]
        e["mesh"] = self.guard(m.setup) or (list(m.outs)[0] if flat(g.subs[0][2]) == [[list(m.outs)[0]] * 2] else "not promoted")
        g = b.get_pre_coupling_subsystem()
        g.setup()
        for _, c, p in g.subs:
            assert c.options["warper"] is b.warper
            e["warper"] += flat(p)
        g = b.get_coupling_group_subsystem()
        g.setup()
        for _, c, p in g.subs:
            assert c.options["solver"] is b.solver
            e["state"] += flat(p)
            e["statedepends"] = list(c.options["depends"])
        g = b.get_post_coupling_subsystem()
        g.setup()
        for name, c, p in g.subs:
            assert c.options["solver"] is b.solver
            e["outputs"].append({"func": c.options["func"], "options": json.dumps(c.options["func_options"]), "promoted": flat(p)})
        e.update(nodes=b.get_number_of_nodes(), ndof=b.get_ndof(), statesize=b.solver.n)
        return e


with open(sys.argv[2], "w") as out:
    def emit(e):
        out.write(json.dumps(e) + "\n")
    for line in open(sys.argv[1]):
        Scenario(json.loads(line), emit)
    emit({"event": "End"})
