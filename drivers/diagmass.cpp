// Drives the real DiagMassIntegrator over generated meshes; one integrator and
// one matrix serve successive elements.
#include "drv.hpp"
#include "diag_mass_integ.hpp"
#include "sbp_fe.hpp"
using namespace drv;
using namespace mfem;

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &s : scn)
   {
      emit({{"event", "Reset"}});
      std::unique_ptr<miso::DiagMassIntegrator> integ;
      int ns = 1;
      bool vary = false;
      DenseMatrix M(3, 5);
      M = 9.5;
      for (const auto &c : s["cmds"])
      {
         std::string k = c["cmd"];
         if (k == "Make")
         {
            ns = c["ns"];
            vary = c["vary"];
            if (c["form"] == 0) { integ = std::make_unique<miso::DiagMassIntegrator>(); ns = 1; vary = false; }
            else if (c["form"] == 1) { integ = std::make_unique<miso::DiagMassIntegrator>(ns); vary = false; }
            else { integ = std::make_unique<miso::DiagMassIntegrator>(ns, vary); }
            emit({{"event", "Make"}, {"ns", ns}, {"vary", vary}});
         }
         else if (k == "Mesh")
         {
            int d = c["dim"], sd = c["sdim"], p = c["p"];
            const auto &X = c["verts"], &E = c["elems"];
            Mesh m(d, X.size(), E.size(), 0, sd);
            for (const auto &x : X) { m.AddVertex(vec(x).GetData()); }
            for (const auto &e : E)
            {
               std::vector<int> v = e;
               if (d == 1) { m.AddSegment(v.data()); }
               else if (d == 2) { m.AddTriangle(v.data()); }
               else { m.AddTet(v.data()); }
            }
            if (d == 1) { m.FinalizeTopology(); m.Finalize(false, false); }
            else if (d == 2) { m.FinalizeTriMesh(1, 0, sd == 2); }
            else { m.FinalizeTetMesh(1, 0, true); }
            if (c["order"] > 0)
            {
               m.SetCurvature(c["order"], false, sd, Ordering::byVDIM);
               GridFunction &x = *m.GetNodes();
               unsigned seed = c["seed"];
               double amp = unhex(c["amp"]);
               std::mt19937 r(seed);
               std::uniform_real_distribution<double> u(-amp, amp);
               for (int i = 0; i < x.Size(); ++i) { x(i) += u(r); }
            }
            std::unique_ptr<FiniteElementCollection> fec;
            if (c["coll"] == "sbp") { fec = std::make_unique<SBPCollection>(p, d); }
            else { fec = std::make_unique<DSBPCollection>(p, 2); }
            FiniteElementSpace fes(&m, fec.get(), ns, c["vdim"] == 1 ? Ordering::byVDIM : Ordering::byNODES);
            // inverted elements (possible after random curving) are outside the property
            bool ok = true;
            for (int e = 0; e < m.GetNE(); ++e)
            {
               ElementTransformation &T = *m.GetElementTransformation(e);
               const IntegrationRule &ir = fes.GetFE(e)->GetNodes();
               for (int i = 0; i < ir.GetNPoints(); ++i)
               {
                  T.SetIntPoint(&ir.IntPoint(i));
                  if (!(T.Weight() > 1e-6 * unhex(c["scale"]))) { ok = false; }
               }
            }
            if (!ok) { continue; }
            for (int e = 0; e < m.GetNE(); ++e)
            {
               const FiniteElement &fe = *fes.GetFE(e);
               ElementTransformation &T = *m.GetElementTransformation(e);
               const IntegrationRule &ir = fe.GetNodes();
               json J = json::array(), w = json::array(), ent = json::array();
               for (int i = 0; i < ir.GetNPoints(); ++i)
               {
                  T.SetIntPoint(&ir.IntPoint(i));
                  J.push_back(hexm(T.Jacobian()));
                  w.push_back(hex(ir.IntPoint(i).weight));
               }
               integ->AssembleElementMatrix(fe, T, M);
               for (int i = 0; i < M.Height(); ++i)
                  for (int j = 0; j < M.Width(); ++j)
                     if (M(i, j) != 0.0) { ent.push_back({i + 1, j + 1, hex(M(i, j))}); }
               emit({{"event", "Assemble"}, {"dim", d}, {"w", w}, {"J", J}, {"size", {M.Height(), M.Width()}}, {"ent", ent}});
            }
            BilinearForm f(&fes);
            f.AddDomainIntegrator(new miso::DiagMassIntegrator(ns, vary));
            f.Assemble();
            f.Finalize();
            Vector one(fes.GetVSize()), r(fes.GetVSize());
            one = 1.0;
            f.SpMat().Mult(one, r);
            emit({{"event", "Total"}, {"t", hex(r.Sum())}});
         }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
