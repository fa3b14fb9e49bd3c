// Transfers fields to the nodes of a discontinuous space, and back in reverse mode.
#include <memory>
#include "drv.hpp"
#include "finite_element_state.hpp"
#include "l2_transfer_operator.hpp"
using namespace drv;
using namespace mfem;

std::mt19937_64 rng;
double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
Vector randv(int n, double s = 1.0)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = uni(-s, s); }
   return v;
}

struct Problem
{
   std::string kind;
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<miso::FiniteElementState> state, coords, output;
   std::shared_ptr<miso::L2TransferOperator> op;
   Vector s, x;        // what was given last
   int dim;
   double step;
   Problem(const json &c) : kind(c["kind"])
   {
      const std::string m = c["mesh"];
      const auto el = m == "tri" ? Element::TRIANGLE : m == "quad" || m == "curved" ? Element::QUADRILATERAL : m == "tet" ? Element::TETRAHEDRON : Element::HEXAHEDRON;
      const bool three = m == "tet" || m == "hex";
      Mesh sm = m == "tet" ? Mesh::MakeCartesian3D(1, 1, 1, el, 1.0, .8, 1.3, true)
                : three    ? Mesh::MakeCartesian3D(2, 1, 1, el, 1.0, .8, 1.3, true)
                           : Mesh::MakeCartesian2D(2, m == "tri" ? 1 : 2, el, true, 1.0, 1.2, true);
      mesh = std::make_unique<ParMesh>(MPI_COMM_WORLD, sm);
      if (m == "curved") { mesh->SetCurvature(2, false, -1, c["ordering"].get<int>() ? Ordering::byVDIM : Ordering::byNODES); }
      mesh->EnsureNodes();
      dim = mesh->Dimension();
      step = m == "curved" ? .05 : .08;
      const int p = c["p"], q = c["q"];
      const bool scalar = kind == "scalar" || (!three && kind != "vector");
      state = std::make_unique<miso::FiniteElementState>(*mesh, json{{"degree", p}, {"basis-type", scalar ? "H1" : "nedelec"}});
      output = std::make_unique<miso::FiniteElementState>(*mesh, json{{"degree", q}, {"basis-type", "DG"}}, kind == "scalar" || kind == "mag" ? 1 : dim);
      auto &gf = *dynamic_cast<ParGridFunction *>(mesh->GetNodes());
      coords = std::make_unique<miso::FiniteElementState>(*mesh, *gf.ParFESpace());
      coords->gridFunc() = gf;
      mesh->NewNodes(coords->gridFunc(), false);
      if (kind == "scalar") { op = std::make_shared<miso::ScalarL2IdentityProjection>(*state, *coords, *output); }
      else if (kind == "vector") { op = std::make_shared<miso::L2IdentityProjection>(*state, *coords, *output); }
      else if (kind == "curl") { op = std::make_shared<miso::L2CurlProjection>(*state, *coords, *output); }
      else { op = std::make_shared<miso::L2CurlMagnitudeProjection>(*state, *coords, *output); }
      x.SetSize(coords->space().GetTrueVSize());
      coords->setTrueVec(x);
      s.SetSize(state->space().GetTrueVSize());
      s = 0.0;
   }
   json elements()
   {
      json els = json::array();
      auto &sf = state->space();
      auto &of = output->space();
      auto &cf = coords->space();
      for (int e = 0; e < mesh->GetNE(); ++e)
      {
         Array<int> sd, cd;
         sf.GetElementVDofs(e, sd);
         cf.GetElementVDofs(e, cd);
         json js = json::array(), jc = json::array(), jb = json::array(), jm = json::array();
         for (int d : sd) { js.push_back(d >= 0 ? json::array({d + 1, 1}) : json::array({-1 - d + 1, 0})); }
         const int nc = cd.Size() / dim;
         for (int k = 0; k < nc; ++k)
         {
            json r = json::array();
            for (int d = 0; d < dim; ++d) { r.push_back(cd[d * nc + k] + 1); }
            jc.push_back(r);
         }
         const auto &fe = *sf.GetFE(e);
         const auto &me = *cf.GetFE(e);
         const auto &ir = of.GetFE(e)->GetNodes();
         const int nd = fe.GetDof();
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            const auto &ip = ir.IntPoint(i);
            DenseMatrix b(nd, kind == "scalar" ? 1 : dim), md(nc, dim);
            if (kind == "scalar")
            {
               Vector sh(nd);
               fe.CalcShape(ip, sh);
               for (int k = 0; k < nd; ++k) { b(k, 0) = sh(k); }
            }
            else if (kind == "vector") { fe.CalcVShape(ip, b); }
            else if (dim == 3) { fe.CalcCurlShape(ip, b); }
            else { fe.CalcDShape(ip, b); }
            me.CalcDShape(ip, md);
            jb.push_back(hexm(b));
            jm.push_back(hexm(md));
         }
         els.push_back({{"s", js}, {"c", jc}, {"b", jb}, {"md", jm}});
      }
      return els;
   }
   Vector apply(const miso::MISOInputs &in)
   {
      Vector out(getSize(*op));
      out = 1e30;
      if (kind == "curl") { calcOutput(static_cast<miso::L2CurlProjection &>(*op), in, out); }
      else if (kind == "mag") { calcOutput(static_cast<miso::L2CurlMagnitudeProjection &>(*op), in, out); }
      else { calcOutput(*op, in, out); }
      return out;
   }
   void give(const miso::MISOInputs &in)
   {
      if (kind == "curl") { setInputs(static_cast<miso::L2CurlProjection &>(*op), in); }
      else if (kind == "mag") { setInputs(static_cast<miso::L2CurlMagnitudeProjection &>(*op), in); }
      else { setInputs(*op, in); }
   }
   void vjp(const Vector &bar, const std::string &wrt, Vector &w)
   {
      if (kind == "curl") { vectorJacobianProduct(static_cast<miso::L2CurlProjection &>(*op), bar, wrt, w); }
      else if (kind == "mag") { vectorJacobianProduct(static_cast<miso::L2CurlMagnitudeProjection &>(*op), bar, wrt, w); }
      else { vectorJacobianProduct(*op, bar, wrt, w); }
   }
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   json all = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (auto &sc : all)
   {
      rng.seed(sc["seed"].get<std::uint64_t>());
      emit({{"event", "Reset"}});
      std::unique_ptr<Problem> P;
      for (auto &c : sc["cmds"])
      {
         const std::string o = c["op"];
         json e = {{"event", o}};
         if (o == "Build")
         {
            P = std::make_unique<Problem>(c);
            e["kind"] = P->kind;
            e["dim"] = P->dim;
            e["els"] = P->elements();
            e["coords"] = hex(P->x);
            e["state"] = hex(P->s);
            e["size"] = getSize(*P->op);
            e["total"] = P->output->space().GetTrueVSize();
         }
         else if (o == "Set" || o == "Apply")
         {
            // only what is given is passed, from memory that does not outlive the call
            auto ts = std::make_unique<Vector>(P->s), tx = std::make_unique<Vector>(P->x);
            miso::MISOInputs in;
            e["in"] = json::object();
            const std::string w = c["what"];
            if (w == "state" || w == "both" || w == "zero")
            {
               *ts = randv(P->s.Size(), w == "zero" ? 0.0 : 1.0);
               P->s = *ts;
               in.emplace("state", *ts);
               e["in"]["state"] = hex(*ts);
            }
            if (w == "coords" || w == "both")
            {
               *tx += randv(P->x.Size(), P->step * .5);
               P->x = *tx;
               in.emplace("mesh_coords", *tx);
               e["in"]["mesh_coords"] = hex(*tx);
            }
            if (o == "Set") { P->give(in); }
            else
            {
               Vector out = P->apply(in);
               e["out"] = json::array();
               auto &of = P->output->space();
               for (int k = 0; k < P->mesh->GetNE(); ++k)
               {
                  Array<int> vd;
                  of.GetElementVDofs(k, vd);
                  json r = json::array();
                  for (int d : vd) { r.push_back(hex(out(d))); }
                  e["out"].push_back(r);
               }
            }
            *ts = 1e30;
            *tx = 1e30;
         }
         else
         {
            const std::string wrt = c["wrt"];
            const int n = wrt == "mesh_coords" ? P->x.Size() : wrt == "out" ? getSize(*P->op) : P->s.Size();
            Vector before = randv(n), after = before, bar = randv(getSize(*P->op));
            P->vjp(bar, wrt, after);
            e["wrt"] = wrt;
            e["before"] = hex(before);
            e["after"] = hex(after);
            e["bar"] = hex(bar);
            if (o == "Vjp")
            {
               const double h = 1e-4;
               Vector dir = randv(n, wrt == "state" ? 1.0 : P->step);
               e["dir"] = hex(dir);
               e["h"] = hex(h);
               e["F"] = json::array();
               double size = 0;
               for (double m : {-2., -1., 1., 2.})
               {
                  Vector t(wrt == "state" ? P->s : P->x);
                  t.Add(m * h, dir);
                  miso::MISOInputs in{{wrt, t}};
                  Vector out = P->apply(in);
                  e["F"].push_back(hex(bar * out));
                  size += bar.Norml2() * out.Norml2();
               }
               e["size"] = hex(size);
               miso::MISOInputs in{{wrt, wrt == "state" ? P->s : P->x}};
               P->give(in);
            }
         }
         emit(e);
      }
   }
   emit({{"event", "End"}});
}
