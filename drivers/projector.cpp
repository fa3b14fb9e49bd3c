// Irrotational and divergence-free projections of Nedelec fields on meshes
// that move, with witnesses from a dense solve of the same problem.
#include <memory>
#include "drv.hpp"
#include "miso_input.hpp"
#include "irrotational_projector.hpp"
#include "div_free_projector.hpp"
using namespace drv;
using namespace mfem;

std::mt19937_64 rng;
double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }

struct Problem
{
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<FiniteElementCollection> nd, h1;
   std::unique_ptr<ParFiniteElementSpace> fes, h1_fes;
   std::unique_ptr<miso::IrrotationalProjector> irr;
   std::unique_ptr<miso::DivergenceFreeProjector> dfree;
   int order = 0;
   double step = 0.0;     // how far nodes move without inverting an element
   Vector base;
   DenseMatrix G, W, A, AT;
   std::vector<int> in;
   Problem(const std::string &m, const std::string &kind, int p)
   {
      auto el = m == "tri" || m == "tri2" || m == "thin"    ? Element::TRIANGLE
                : m == "quad" || m == "quad2" || m == "curved" ? Element::QUADRILATERAL
                : m == "tet"                                ? Element::TETRAHEDRON
                                                            : Element::HEXAHEDRON;
      int n = m == "thin" ? 1 : m == "tri2" || m == "quad2" || m == "curved" ? 3 : 2;
      Mesh sm = m == "tet" || m == "hex" ? Mesh::MakeCartesian3D(n, n, n, el, 1.0, .8, 1.3, true)
                                         : Mesh::MakeCartesian2D(n, n, el, true, 1.0, 1.2, true);
      mesh = std::make_unique<ParMesh>(MPI_COMM_WORLD, sm);
      if (m == "curved") { mesh->SetCurvature(2, false, -1, Ordering::byVDIM); }
      mesh->EnsureNodes();
      int dim = mesh->Dimension();
      step = .12 / (m == "curved" ? 2 * n : n);
      base = nodes();
      nd = std::make_unique<ND_FECollection>(p, dim);
      h1 = std::make_unique<H1_FECollection>(p, dim);
      fes = std::make_unique<ParFiniteElementSpace>(mesh.get(), nd.get());
      h1_fes = std::make_unique<ParFiniteElementSpace>(mesh.get(), h1.get());
      order = h1_fes->GetElementTransformation(0)->OrderW() + 2 * fes->GetFE(0)->GetOrder();
      if (kind == "irrotational") { irr = std::make_unique<miso::IrrotationalProjector>(*h1_fes, *fes, order); }
      else { dfree = std::make_unique<miso::DivergenceFreeProjector>(*h1_fes, *fes, order); }
      Array<int> bdr(mesh->bdr_attributes.Max()), ess;
      bdr = 1;
      h1_fes->GetEssentialTrueDofs(bdr, ess);
      for (int i = 0; i < h1_fes->GetVSize(); ++i)
         if (ess.Find(i) < 0) { in.push_back(i); }
      DiscreteLinearOperator g(h1_fes.get(), fes.get());
      g.AddDomainInterpolator(new GradientInterpolator);
      g.Assemble();
      g.Finalize();
      std::unique_ptr<DenseMatrix> d(g.SpMat().ToDenseMatrix());
      G = *d;
      measure();
   }
   void measure()
   {
      MixedBilinearForm w(fes.get(), h1_fes.get());
      auto *wi = new VectorFEWeakDivergenceIntegrator;
      wi->SetIntRule(&IntRules.Get(h1_fes->GetFE(0)->GetGeomType(), order));
      w.AddDomainIntegrator(wi);
      w.Assemble();
      w.Finalize();
      std::unique_ptr<DenseMatrix> d(w.SpMat().ToDenseMatrix());
      W = *d;
      DenseMatrix WG(W.Height(), G.Width());
      mfem::Mult(W, G, WG);
      int n = in.size();
      A.SetSize(n);
      AT.SetSize(n);
      for (int i = 0; i < n; ++i)
         for (int j = 0; j < n; ++j)
         {
            A(i, j) = WG(in[i], in[j]);
            AT(j, i) = A(i, j);
         }
   }
   Vector solve(const DenseMatrix &M, const Vector &full)
   {
      Vector out(full.Size());
      out = 0.0;
      int n = in.size();
      if (n == 0) { return out; }
      Vector b(n), s(n);
      for (int i = 0; i < n; ++i) { b(i) = full(in[i]); }
      DenseMatrixInverse inv(M);
      inv.Mult(b, s);
      for (int k = 0; k < 2; ++k)      // refine
      {
         Vector r(n), e(n);
         M.Mult(s, r);
         subtract(b, r, r);
         inv.Mult(r, e);
         s += e;
      }
      for (int i = 0; i < n; ++i) { out(in[i]) = s(i); }
      return out;
   }
   Vector psi(const Vector &x)
   {
      Vector r(W.Height());
      W.Mult(x, r);
      return solve(A, r);
   }
   Vector phi(const Vector &p)
   {
      Vector r(G.Width());
      G.MultTranspose(p, r);
      return solve(AT, r);
   }
   void mult(const Vector &x, Vector &y) { irr ? irr->Mult(x, y) : dfree->Mult(x, y); }
   void vjp(const Vector &x, const Vector &p, const std::string &wrt, Vector &bar)
   {
      irr ? irr->vectorJacobianProduct(x, p, wrt, bar) : dfree->vectorJacobianProduct(x, p, wrt, bar);
   }
   void notify(const miso::MISOInputs &in)
   {
      if (irr) { setInputs(*irr, in); }
      else { setInputs(*dfree, in); }
   }
   GridFunction &nodes() { return *mesh->GetNodes(); }
   void announce() { notify({{"mesh_coords", nodes()}}); }
   Vector randv(int n, double s = 1.0)
   {
      Vector v(n);
      for (int i = 0; i < n; ++i) { v(i) = uni(-s, s); }
      return v;
   }
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   json all = load(argv[1]);
   trace().open(argv[2]);
   Quiet q;
   for (auto &s : all)
   {
      rng.seed(s["seed"].get<std::uint64_t>());
      emit({{"event", "Reset"}});
      std::unique_ptr<Problem> P;
      for (auto &c : s["cmds"])
      {
         std::string o = c["op"];
         if (o == "build")
         {
            P = std::make_unique<Problem>(c["mesh"], c["kind"], c["p"].get<int>());
            json in = json::array();
            for (int i : P->in) { in.push_back(i + 1); }
            emit({{"event", "Build"}, {"kind", c["kind"]}, {"G", hexm(P->G)}, {"inner", in}, {"W", hexm(P->W)}});
            continue;
         }
         int n = P->fes->GetVSize(), m = P->nodes().Size();
         ParGridFunction x(P->fes.get());
         static_cast<Vector &>(x) = P->randv(n);
         Vector p = P->randv(n);
         if (o == "move")
         {
            Vector d = P->randv(m, P->step);
            add(P->base, d, P->nodes());
            P->mesh->NodesUpdated();
            P->measure();
            emit({{"event", "Move"}, {"W", hexm(P->W)}});
         }
         else if (o == "notify")
         {
            std::string w = c["what"];
            miso::MISOInputs in;
            if (w != "coords") { in.emplace("state", x); in.emplace("dt", 1.0); }
            if (w != "others") { in.emplace("mesh_coords", P->nodes()); }
            P->notify(in);
            emit({{"event", "Notify"}, {"coords", w != "others"}});
         }
         else if (o == "mult")
         {
            Vector y = P->randv(n);
            if (c["x"] == "grad")
            {
               Vector f = P->randv(P->G.Width());
               P->G.Mult(f, x);
            }
            else if (c["x"] == "zero") { x = 0.0; }
            Vector x0(x);
            P->mult(x, y);
            emit({{"event", "Mult"}, {"x", hex(x0)}, {"y", hex(y)}, {"psi", hex(P->psi(x0))}});
            if (c["again"].get<bool>())
            {
               Vector y2 = P->randv(n);
               P->mult(y, y2);
               emit({{"event", "Mult"}, {"x", hex(y)}, {"y", hex(y2)}, {"psi", hex(P->psi(y))}});
            }
         }
         else if (o == "in")
         {
            Vector out = P->randv(n), bar(out);
            P->vjp(x, p, "in", out);
            emit({{"event", "VjpIn"}, {"p", hex(p)}, {"bar", hex(bar)}, {"out", hex(out)}, {"phi", hex(P->phi(p))}});
         }
         else if (o == "other")
         {
            Vector out = P->randv(n), bar(out);
            P->vjp(x, p, c["wrt"], out);
            emit({{"event", "VjpOther"}, {"bar", hex(bar)}, {"out", hex(out)}});
         }
         else if (o == "mesh")
         {
            Vector out = P->randv(m), bar(out), dir = P->randv(m);
            double h = 1e-5;
            P->vjp(x, p, "mesh_coords", out);
            Vector x0(x), y[2] = {Vector(n), Vector(n)}, psi[2];
            DenseMatrix Ws[2];
            Vector save(P->nodes());
            for (int k = 0; k < 2; ++k)
            {
               P->nodes() = save;
               P->nodes().Add(k ? -h : h, dir);
               P->mesh->NodesUpdated();
               P->announce();
               P->measure();
               Ws[k] = P->W;
               P->mult(x0, y[k]);
               psi[k] = P->psi(x0);
            }
            P->nodes() = save;
            P->mesh->NodesUpdated();
            P->announce();
            P->measure();
            emit({{"event", "VjpMesh"}, {"x", hex(x0)}, {"p", hex(p)}, {"dir", hex(dir)}, {"h", hex(h)},
                  {"Wp", hexm(Ws[0])}, {"Wm", hexm(Ws[1])}, {"yp", hex(y[0])}, {"ym", hex(y[1])},
                  {"psip", hex(psi[0])}, {"psim", hex(psi[1])}, {"bar", hex(bar)}, {"out", hex(out)}});
         }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
