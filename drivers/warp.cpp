// Warps volume meshes with their surfaces.
#include <memory>
#include "drv.hpp"
#include "mesh_warper.hpp"
using namespace drv;
using namespace mfem;

// MISO moves forms it has built; mfem 4.5.2 can neither copy the unallocated
// vectors inside one nor share the integrators of two, so here it may.
mfem::Vector::Vector(const Vector &v) : data(), size(v.size)
{
   if (size > 0 && v.GetData() != nullptr)
   {
      data.New(size);
      std::copy(v.GetData(), v.GetData() + size, const_cast<double *>(data.Read(MemoryClass::HOST, size)));
   }
   else { size = v.GetData() == nullptr ? size : 0; }
}
mfem::NonlinearForm::~NonlinearForm() { }

std::mt19937_64 rng;
double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
Vector randv(int n, double s = 1.0)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = uni(-s, s); }
   return v;
}

Mesh makeMesh(const json &c)
{
   const std::string m = c["mesh"];
   const int p = c["p"];
   const auto el = m == "tri" ? Element::TRIANGLE : m == "quad" ? Element::QUADRILATERAL : m == "tet" ? Element::TETRAHEDRON : Element::HEXAHEDRON;
   const int nx = c["nx"], ny = c["ny"], nz = c["nz"];
   Mesh mesh = m == "tet" || m == "hex" ? Mesh::MakeCartesian3D(nx, ny, nz, el, 1.0, .9, 1.1, true) : Mesh::MakeCartesian2D(nx, ny, el, true, 1.0, 1.2, true);
   const std::string nodes = c["nodes"];
   if (nodes != "none") { mesh.SetCurvature(c["q"], false, -1, nodes == "nodes" ? Ordering::byNODES : Ordering::byVDIM); }
   if (c["curved"].get<bool>())
   {
      mesh.EnsureNodes();
      mesh.Transform([](const Vector &x, Vector &y) {
         y = x;
         y(0) += .1 * std::sin(2.0 * x(1) + .3);
         y(1) += .08 * std::cos(1.5 * x(0));
         if (x.Size() == 3) { y(2) += .07 * std::sin(x(0) + x(1)); }
      });
   }
   return mesh;
}

json options(const json &c)
{
   return {{"print-options", false},
           {"mesh", {{"file", "none.mesh"}}},
           {"space-dis", {{"degree", c["p"]}, {"basis-type", "h1"}}},
           {"lin-solver", {{"type", "pcg"}, {"printlevel", -1}, {"maxiter", 500}, {"abstol", 1e-15}, {"reltol", 1e-15}}},
           {"nonlin-solver", {{"type", "newton"}, {"printlevel", -1}, {"maxiter", 6}, {"reltol", 1e-12}, {"abstol", 1e-12}}},
           {"adj-solver", {{"type", "pcg"}, {"printlevel", -1}, {"maxiter", 500}, {"abstol", 1e-15}, {"reltol", 1e-15}}},
           {"lin-prec", {{"printlevel", -1}}},
           {"bcs", {{"essential", "all"}}}};
}

// the surface goes where this sends it
void field(const Vector &x, Vector &y)
{
   y = x;
   y(0) += .15 * x(1) * x(1) + .1;
   y(1) += .2 * std::sin(x(0));
   if (x.Size() == 3) { y(2) += .1 * x(0) * x(1); }
}

struct Case
{
   std::unique_ptr<miso::MeshWarper> w;
   int dim = 0, n = 0;
   Array<int> S;
   Vector X, X0, surf0;
   Case(MPI_Comm comm, const json &c)
   {
      auto m = std::make_unique<Mesh>(makeMesh(c));
      dim = m->Dimension();
      w = std::make_unique<miso::MeshWarper>(comm, options(c), std::move(m));
      n = w->getStateSize();
      w->getSurfCoordIndices(S);
      w->getInitialVolumeCoords(X);
      w->getInitialSurfaceCoords(surf0);
      X0 = X;
   }
   // what a run produces, whatever the number of ranks
   json both(MPI_Comm comm)
   {
      Vector x = X;
      for (int i = 0; i < S.Size(); ++i)
      {
         Vector a(dim), b(dim);
         const int k = S[i] / dim;
         for (int d = 0; d < dim; ++d) { a(d) = X(k * dim + d); }
         field(a, b);
         x(S[i]) = b(S[i] % dim);
      }
      w->solveForState(x);
      int np, me, m = X.Size(), s = S.Size(), st;
      MPI_Comm_size(comm, &np);
      MPI_Comm_rank(comm, &me);
      std::vector<int> cnt(np), off(np, 0);
      MPI_Allgather(&m, 1, MPI_INT, cnt.data(), 1, MPI_INT, comm);
      for (int r = 1; r < np; ++r) { off[r] = off[r - 1] + cnt[r - 1]; }
      std::vector<double> A(off[np - 1] + cnt[np - 1]), B(A.size());
      MPI_Allgatherv(X.GetData(), m, MPI_DOUBLE, A.data(), cnt.data(), off.data(), MPI_DOUBLE, comm);
      MPI_Allgatherv(x.GetData(), m, MPI_DOUBLE, B.data(), cnt.data(), off.data(), MPI_DOUBLE, comm);
      MPI_Allreduce(&s, &st, 1, MPI_INT, MPI_SUM, comm);
      std::vector<int> ord(A.size() / dim);
      for (std::size_t i = 0; i < ord.size(); ++i) { ord[i] = i; }
      std::sort(ord.begin(), ord.end(), [&](int i, int j) {
         for (int d = 0; d < dim; ++d)
         {
            if (std::abs(A[i * dim + d] - A[j * dim + d]) > 1e-9) { return A[i * dim + d] < A[j * dim + d]; }
         }
         return false;
      });
      json a = json::array(), b = json::array();
      for (int i : ord)
      {
         for (int d = 0; d < dim; ++d)
         {
            a.push_back(hex(A[i * dim + d]));
            b.push_back(hex(B[i * dim + d]));
         }
      }
      return {{"x", a}, {"y", b}, {"surf", st}, {"size", (int)A.size()}};
   }
};

json describe(const json &c, Case &C)
{
   Mesh sm = makeMesh(c);
   sm.EnsureNodes();
   const int p = c["p"], dim = C.dim;
   H1_FECollection fec(p, dim);
   FiniteElementSpace fes(&sm, &fec, dim, Ordering::byVDIM);
   GridFunction x(&fes);
   sm.SetNodalFESpace(&fes);   // of the warper's degree
   x = *sm.GetNodes();
   json e, els = json::array(), bdr = json::array();
   auto nodes = [&](const Array<int> &vd) {
      json r = json::array();
      const int k = vd.Size() / dim;
      for (int i = 0; i < k; ++i)
      {
         json q = json::array();
         for (int d = 0; d < dim; ++d) { q.push_back(vd[d * k + i] + 1); }
         r.push_back(q);
      }
      return r;
   };
   auto byComponent = [&](const Array<int> &vd) {
      json r = json::array();
      const int k = vd.Size() / dim;
      for (int d = 0; d < dim; ++d)
      {
         json q = json::array();
         for (int i = 0; i < k; ++i) { q.push_back(vd[d * k + i] + 1); }
         r.push_back(q);
      }
      return r;
   };
   for (int k = 0; k < fes.GetNE(); ++k)
   {
      Array<int> vd;
      fes.GetElementVDofs(k, vd);
      const auto &fe = *fes.GetFE(k);
      auto &T = *fes.GetElementTransformation(k);
      const auto &ir = IntRules.Get(fe.GetGeomType(), 2 * T.OrderGrad(&fe));
      json md = json::array(), w = json::array();
      DenseMatrix g(fe.GetDof(), dim);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         fe.CalcDShape(ir.IntPoint(q), g);
         DenseMatrix gt(g, 't');
         md.push_back(hexm(gt));
         w.push_back(hex(ir.IntPoint(q).weight));
      }
      els.push_back({{"n", byComponent(vd)}, {"g", md}, {"w", w}});
   }
   for (int b = 0; b < fes.GetNBE(); ++b)
   {
      Array<int> vd;
      fes.GetBdrElementVDofs(b, vd);
      for (auto &k : nodes(vd)) { bdr.push_back(k); }
   }
   e["els"] = els;
   e["bdr"] = bdr;
   e["X"] = hex(x);
   return e;
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   const bool root = mfem::Mpi::Root();
   json all = load(argv[1]);
   if (root) { trace().open(argv[2]); }
   Quiet quiet;
   auto put = [&](const json &e) { if (root) { emit(e); } };
   for (auto &sc : all)
   {
      rng.seed(sc["seed"].get<std::uint64_t>());
      put({{"event", "Reset"}});
      std::unique_ptr<Case> C;
      for (auto &c : sc["cmds"])
      {
         const std::string o = c["op"];
         json e = {{"event", o}};
         if (o == "Both")
         {
            json two;
            {
               Case P(MPI_COMM_WORLD, c);
               two = P.both(MPI_COMM_WORLD);
            }
            e["two"] = two;
            if (root)
            {
               Case P(MPI_COMM_SELF, c);
               e["one"] = P.both(MPI_COMM_SELF);
            }
            put(e);
            continue;
         }
         if (o == "Build")
         {
            C = std::make_unique<Case>(MPI_COMM_WORLD, c);
            e.update(describe(c, *C));
            e["dim"] = C->dim;
            e["vol"] = hex(C->X);
            e["surf"] = hex(C->surf0);
            e["S"] = json::array();
            for (int i : C->S) { e["S"].push_back(i + 1); }
            e["size"] = C->n;
            e["volsize"] = C->w->getVolumeCoordsSize();
            e["surfsize"] = C->w->getSurfaceCoordsSize();
            // only the order of the state is meant from here on
            put(e);
            continue;
         }
         const int n = C->n, dim = C->dim;
         const std::string what = c["what"];
         const double h = .04;
         auto in = std::make_unique<std::map<std::string, Vector>>();
         miso::MISOInputs inputs;
         auto give = [&](const std::string &name, const Vector &v) {
            auto &u = (*in)[name];
            u = v;
            inputs.emplace(name, u);
            e["in"][name] = hex(u);
         };
         auto pick = [&](const Vector &v) {
            Vector s(C->S.Size());
            for (int i = 0; i < s.Size(); ++i) { s(i) = v(C->S[i]); }
            return s;
         };
         // the surface of this guess is where the mesh goes
         Vector exact;
         auto guess = [&](const std::string &w) {
            Vector x = C->X;
            if (w == "shift" || w == "affine")
            {
               DenseMatrix A(dim);
               Vector t = randv(dim), a(dim), b(dim);
               for (int i = 0; i < dim; ++i)
               {
                  for (int j = 0; j < dim; ++j) { A(i, j) = (i == j) + (w == "affine" ? uni(-.3, .3) : 0.0); }
               }
               exact = x;
               for (int k = 0; k < n / dim; ++k)
               {
                  for (int d = 0; d < dim; ++d) { a(d) = C->X(k * dim + d); }
                  A.Mult(a, b);
                  b += t;
                  for (int d = 0; d < dim; ++d) { exact(k * dim + d) = b(d); }
               }
               for (int i : C->S) { x(i) = exact(i); }
            }
            else if (w == "same") { exact = x; for (int i = 0; i < n; ++i) { if (C->S.Find(i) < 0) { x(i) += uni(-h, h); } } }
            else { x += randv(n, h); }
            return x;
         };
         if (o == "Residual" || o == "Norm")
         {
            if (what == "moved")
            {
               C->X = C->X0;
               C->X += randv(n, h * .5);
               give("mesh_coords", C->X);
            }
            Vector x = C->X;
            if (what != "rest") { x += randv(n, .5); }
            give("state", x);
            if (what != "free")
            {
               Vector s = pick(x);
               if (what != "rest") { s += randv(s.Size()); }
               give("surf_mesh_coords", s);
            }
            if (o == "Norm") { e["norm"] = hex(C->w->calcResidualNorm(inputs)); }
            else
            {
               Vector r = randv(n);
               C->w->calcResidual(inputs, r);
               e["res"] = hex(r);
            }
         }
         else if (o == "Solve")
         {
            Vector x = guess(what);
            e["guess"] = hex(x);
            C->w->solveForState(x);
            if (what == "twice") { C->w->solveForState(x); }
            e["out"] = hex(x);
            e["exact"] = hex(exact);
         }
         else if (o == "Linearize")
         {
            if (what == "moved")
            {
               C->X = C->X0;
               C->X += randv(n, h * .5);
               give("mesh_coords", C->X);
            }
            Vector x = C->X;
            x += randv(n, .5);
            give("state", x);
            give("surf_mesh_coords", pick(x));
            C->w->linearize(inputs);
         }
         else if (o == "Jvp" || o == "Vjp")
         {
            const std::string wrt = what == "surf" ? "surf_mesh_coords" : what == "other" ? "pressure" : "state";
            Vector d = randv(o == "Vjp" || wrt != "surf_mesh_coords" ? n : C->S.Size());
            Vector a = randv(o == "Jvp" || wrt != "surf_mesh_coords" ? n : C->S.Size());
            e["before"] = hex(a);
            if (o == "Jvp") { C->w->jacobianVectorProduct(d, wrt, a); }
            else { C->w->vectorJacobianProduct(d, wrt, a); }
            e["after"] = hex(a);
            e[o == "Jvp" ? "dot" : "bar"] = hex(d);
            e["wrt"] = what;
            if (what == "other") { e["event"] = "Other"; }
         }
         else if (o == "Adjoint")
         {
            Vector bar = randv(n), adj = randv(n), x = C->X;
            e["bar"] = hex(bar);
            C->w->solveForAdjoint(x, bar, adj);
            e["adj"] = hex(adj);
            e["seed"] = hex(bar);
         }
         else if (o == "Total")
         {
            Vector x0 = guess("random"), bar = randv(n), adj = randv(n), dir = randv(C->S.Size(), h), g(C->S.Size());
            C->w->solveForState(x0);
            C->w->solveForAdjoint(x0, bar, adj);
            g = 0.0;
            C->w->vectorJacobianProduct(adj, "surf_mesh_coords", g);
            g.Neg();
            Vector x1 = x0;
            for (int i = 0; i < dir.Size(); ++i) { x1(C->S[i]) += dir(i); }
            C->w->solveForState(x1);
            e["bar"] = hex(bar);
            e["adj"] = hex(adj);
            e["grad"] = hex(g);
            e["dir"] = hex(dir);
            e["out0"] = hex(x0);
            e["out1"] = hex(x1);
         }
         put(e);
         for (auto &kv : *in) { kv.second = 1e30; }
      }
   }
   put({{"event", "End"}});
   return 0;
}
