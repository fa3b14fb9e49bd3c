// Current densities of coil groups, and the divergence-free loads they make.
#include <memory>
#include "adept.h"
#include "drv.hpp"
#include "current_source_functions.hpp"
#include "current_load.hpp"
#include "magnetic_source_functions.hpp"
using namespace drv;
using namespace mfem;

std::mt19937_64 rng;
double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
adept::Stack stack;

std::unique_ptr<ParMesh> makeMesh(const json &c, bool centred)
{
   const std::string m = c["mesh"];
   const auto el = m == "tri" ? Element::TRIANGLE : m == "quad" ? Element::QUADRILATERAL : m == "tet" ? Element::TETRAHEDRON : Element::HEXAHEDRON;
   const int nx = c["nx"], ny = c["ny"], nz = c["nz"];
   const double s = centred ? .4 : 1.0;
   Mesh sm = m == "tri" || m == "quad" ? Mesh::MakeCartesian2D(nx, ny, el, true, s, s) : Mesh::MakeCartesian3D(nx, ny, nz, el, s, centred ? s : .8, centred ? s : 1.3, true);
   for (int k = 0; k < sm.GetNE(); ++k) { sm.SetAttribute(k, k % 3 + 1); }
   sm.SetAttributes();
   if (c["curved"].get<bool>()) { sm.SetCurvature(2, false, -1, Ordering::byVDIM); }
   sm.EnsureNodes();
   auto pm = std::make_unique<ParMesh>(MPI_COMM_WORLD, sm);
   pm->EnsureNodes();
   GridFunction &x = *pm->GetNodes();
   for (int i = 0; i < x.Size(); ++i) { x(i) += (centred ? -.2 : 0.0) + s * uni(-.02, .02); }
   return pm;
}

bool nearKink(const std::string &src, double n, double len, const Vector &x)
{
   const double t = 1e-4;
   if (src == "team13")
      return std::hypot(std::abs(x(0)) - .075, std::abs(x(1)) - .075) < .01 || std::abs(std::abs(x(0)) - .075) < t || std::abs(std::abs(x(1)) - .075) < t || std::abs(x(0)) < t || std::abs(x(1)) < t;
   if (src == "cwStator" || src == "ccwStator")
   {
      const double th = std::atan2(x(1), x(0)) / (M_PI / n);
      const double w = std::round(th / 2) * 2 * M_PI / n;
      if (std::hypot(std::abs(x(2)) - len / 2, x(1) * std::cos(w) - x(0) * std::sin(w)) < .01) { return true; }
      return std::abs(std::abs(x(2)) - len / 2) < t || std::abs(th - std::round(th)) < 1e-3 || std::hypot(x(0), x(1)) < .01;
   }
   return src == "ring" && std::hypot(x(0), x(1)) < .01;
}

struct Params
{
   double n = 24.0, len = .345;
};

miso::MISOInputs read(const json &c, Params &par, json &e)
{
   miso::MISOInputs in;
   e["cd"] = json::array();
   e["par"] = json::object();
   for (auto &[g, v] : c["cd"].items())
   {
      in.emplace("current_density:" + g, v.get<double>());
      e["cd"].push_back({{"g", g}, {"v", hex(v.get<double>())}});
   }
   if (c.contains("n"))
   {
      par.n = c["n"];
      in.emplace("n_slots", par.n);
      e["par"]["n"] = (int)par.n;
   }
   if (c.contains("len"))
   {
      par.len = c["len"];
      in.emplace("stack_length", par.len);
      e["par"]["len"] = hex(par.len);
   }
   return in;
}

// a coefficient by itself
struct Density
{
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<miso::CurrentDensityCoefficient> c3;
   std::unique_ptr<miso::CurrentDensityCoefficient2D> c2;
   json where;
   Params par;
   Density(const json &c) : mesh(makeMesh(c, true))
   {
      if (mesh->Dimension() == 2) { c2 = std::make_unique<miso::CurrentDensityCoefficient2D>(stack, c["current"]); }
      else { c3 = std::make_unique<miso::CurrentDensityCoefficient>(stack, c["current"]); }
      // what the constructor leaves behind on the stack is overwritten
      for (int i = 0; i < 50; ++i)
      {
         volatile double junk[64];
         for (auto &v : junk) { v = -7.5; }
      }
      for (auto &[g, d] : c["current"].items())
      {
         for (auto &[s, as] : d.items())
         {
            for (int a : as) { where[std::to_string(a)] = s; }
         }
      }
   }
   void eval(json &e)
   {
      const int dim = mesh->Dimension();
      for (int tries = 0;; ++tries)
      {
         const int k = std::uniform_int_distribution<int>(0, mesh->GetNE() - 1)(rng);
         auto &T = *mesh->GetElementTransformation(k);
         IntegrationPoint ip;
         const bool box = mesh->GetElementBaseGeometry(k) == Geometry::CUBE || mesh->GetElementBaseGeometry(k) == Geometry::SQUARE;
         do
         {
            ip.x = uni(.02, .98);
            ip.y = uni(.02, .98);
            ip.z = dim == 3 ? uni(.02, .98) : 0.0;
         } while (!box && ip.x + ip.y + ip.z > .98);
         T.SetIntPoint(&ip);
         Vector x(dim);
         T.Transform(ip, x);
         const std::string a = std::to_string(T.Attribute);
         if (tries < 200 && where.contains(a) && nearKink(where[a], par.n, par.len, x)) { continue; }
         const auto *fe = dynamic_cast<IsoparametricTransformation &>(T).GetFE();
         Vector shape(fe->GetDof());
         fe->CalcShape(ip, shape);
         DenseMatrix P(dim, shape.Size()), P0;
         for (int i = 0; i < P.Height() * P.Width(); ++i) { P.GetData()[i] = uni(-1, 1); }
         P0 = P;
         Vector V, Vbar(dim == 3 ? 3 : 1);
         for (auto &v : Vbar) { v = uni(-1, 1); }
         if (c3)
         {
            c3->Eval(V, T, ip);
            c3->EvalRevDiff(Vbar, T, ip, P);
         }
         else
         {
            V.SetSize(1);
            V(0) = c2->Eval(T, ip);
            c2->EvalRevDiff(Vbar(0), T, ip, P);
         }
         e["attr"] = T.Attribute;
         e["x"] = hex(x);
         e["V"] = hex(V);
         e["Vbar"] = hex(Vbar);
         e["shape"] = hex(shape);
         e["P0"] = hexm(P0);
         e["P"] = hexm(P);
         return;
      }
   }
};

// magnetization by itself
struct Magnets
{
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<miso::MagnetizationCoefficient> m;
   Magnets(const json &c) : mesh(makeMesh(c, true))
   {
      m = std::make_unique<miso::MagnetizationCoefficient>(stack, c["magnets"], c["materials"], mesh->Dimension());
   }
   void eval(json &e)
   {
      const int dim = mesh->Dimension();
      const int k = std::uniform_int_distribution<int>(0, mesh->GetNE() - 1)(rng);
      auto &T = *mesh->GetElementTransformation(k);
      IntegrationPoint ip;
      Vector x(dim);
      do
      {
         ip.x = uni(.02, .32);
         ip.y = uni(.02, .32);
         ip.z = dim == 3 ? uni(.02, .32) : 0.0;
         T.SetIntPoint(&ip);
         T.Transform(ip, x);
      } while (std::hypot(x(0), x(1)) < .005);
      const auto *fe = dynamic_cast<IsoparametricTransformation &>(T).GetFE();
      Vector shape(fe->GetDof()), V, dV(dim), Vbar(dim);
      fe->CalcShape(ip, shape);
      DenseMatrix P(dim, shape.Size()), P0;
      for (int i = 0; i < P.Height() * P.Width(); ++i) { P.GetData()[i] = uni(-1, 1); }
      P0 = P;
      for (auto &v : Vbar) { v = uni(-1, 1); }
      const double temp = uni(0, 1) < .2 ? 0.0 : uni(250, 450);
      if (uni(0, 1) < .5) { V.SetSize(dim); }
      m->Eval(V, T, ip, temp);
      m->EvalStateDeriv(dV, T, ip, temp);
      m->EvalRevDiff(Vbar, T, ip, temp, P);
      e["attr"] = T.Attribute;
      e["temp"] = hex(temp);
      e["x"] = hex(x);
      e["V"] = hex(V);
      e["dV"] = hex(dV);
      e["Vbar"] = hex(Vbar);
      e["shape"] = hex(shape);
      e["P0"] = hexm(P0);
      e["P"] = hexm(P);
   }
};

struct Load
{
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<ND_FECollection> nd;
   std::unique_ptr<ParFiniteElementSpace> fes;
   std::map<std::string, miso::FiniteElementState> fields;
   std::unique_ptr<miso::CurrentLoad> load;
   json current;
   Params par;
   DenseMatrix G;
   double step;
   Load(const json &c) : mesh(makeMesh(c, false)), current(c["current"])
   {
      nd = std::make_unique<ND_FECollection>(c["p"].get<int>(), 3);
      fes = std::make_unique<ParFiniteElementSpace>(mesh.get(), nd.get());
      json o = {{"current", current}};
      if (c.contains("ess")) { o["bcs"]["essential"] = c["ess"]; }
      load = std::make_unique<miso::CurrentLoad>(stack, *fes, fields, o);
      step = .02;
   }
   // the load of every group at the present mesh, as a dense problem with its solution
   json reference()
   {
      H1_FECollection h1(fes->GetFE(0)->GetOrder(), 3);
      ParFiniteElementSpace hf(mesh.get(), &h1);
      Array<int> bdr(mesh->bdr_attributes.Max()), ess;
      bdr = 1;
      hf.GetEssentialTrueDofs(bdr, ess);
      std::vector<int> in;
      for (int i = 0; i < hf.GetVSize(); ++i)
         if (ess.Find(i) < 0) { in.push_back(i); }
      DiscreteLinearOperator g(&hf, fes.get());
      g.AddDomainInterpolator(new GradientInterpolator);
      g.Assemble();
      g.Finalize();
      std::unique_ptr<DenseMatrix> gd(g.SpMat().ToDenseMatrix());
      const int n = fes->GetVSize(), m = in.size();
      DenseMatrix Gi(n, m), K(n, m);
      for (int j = 0; j < m; ++j)
         for (int i = 0; i < n; ++i) { Gi(i, j) = (*gd)(i, in[j]); }
      BilinearForm M(fes.get());
      M.AddDomainIntegrator(new VectorFEMassIntegrator);
      M.Assemble();
      M.Finalize();
      std::unique_ptr<DenseMatrix> md(M.SpMat().ToDenseMatrix());
      Mult(*md, Gi, K);
      DenseMatrix A(m), Ai(m);
      MultAtB(Gi, K, A);
      if (m > 0)
      {
         DenseMatrixInverse inv(A);
         inv.GetInverseMatrix(Ai);
      }
      json e;
      e["K"] = hexm(K);
      e["G"] = hexm(Gi);
      e["units"] = json::array();
      miso::CurrentDensityCoefficient C(stack, current);
      for (auto &[name, d] : current.items())
      {
         miso::MISOInputs in2;
         for (auto &[o, d2] : current.items()) { in2.emplace("current_density:" + o, o == name ? 1.0 : 0.0); }
         in2.emplace("n_slots", par.n);
         in2.emplace("stack_length", par.len);
         setInputs(C, in2);
         LinearForm J(fes.get());
         J.AddDomainIntegrator(new VectorFEDomainLFIntegrator(C));
         J.Assemble();
         Vector r(m), p(m);
         Gi.MultTranspose(J, r);
         Ai.Mult(r, p);
         e["units"].push_back({{"g", name}, {"J", hex(J)}, {"p", hex(p)}});
      }
      return e;
   }
   void nodes(const Vector &x)
   {
      Vector y(x);
      mesh->SetNodes(y);
      mesh->NodesUpdated();
   }
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   json all = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (auto &sc : all)
   {
      rng.seed(sc["seed"].get<std::uint64_t>());
      emit({{"event", "Reset"}});
      std::unique_ptr<Density> D;
      std::unique_ptr<Load> L;
      std::unique_ptr<Magnets> M;
      for (auto &c : sc["cmds"])
      {
         const std::string o = c["op"];
         json e = {{"event", o}};
         auto groups = [&] {
            e["groups"] = json::array();
            e["where"] = json::array();
            e["stator"] = false;
            for (auto &[g, d] : c["current"].items())
            {
               e["groups"].push_back(g);
               for (auto &[s, as] : d.items())
               {
                  if (s == "cwStator" || s == "ccwStator") { e["stator"] = true; }
                  for (int a : as) { e["where"].push_back({{"a", a}, {"g", g}, {"s", s}}); }
               }
            }
         };
         if (o == "Configure")
         {
            D = std::make_unique<Density>(c);
            groups();
            e["dim"] = D->mesh->Dimension();
         }
         else if (o == "Set")
         {
            auto in = read(c, D->par, e);
            e["updated"] = D->c3 ? setInputs(*D->c3, in) : setInputs(*D->c2, in);
         }
         else if (o == "Cache") { D->c3 ? D->c3->cacheCurrentDensity() : D->c2->cacheCurrentDensity(); }
         else if (o == "Zero") { D->c3 ? D->c3->zeroCurrentDensity() : D->c2->zeroCurrentDensity(); }
         else if (o == "Restore")
         {
            e["ok"] = true;
            try
            {
               D->c3 ? D->c3->resetCurrentDensityFromCache() : D->c2->resetCurrentDensityFromCache();
            }
            catch (const std::exception &) { e["ok"] = false; }
         }
         else if (o == "Eval") { D->eval(e); }
         else if (o == "Magnets")
         {
            M = std::make_unique<Magnets>(c);
            e["dim"] = M->mesh->Dimension();
            e["where"] = json::array();
            for (auto &[g, d] : c["magnets"].items())
            {
               const auto &m = c["materials"][g];
               for (auto &[s, as] : d.items())
               {
                  for (int a : as)
                  {
                     e["where"].push_back({{"a", a}, {"s", s}, {"alpha", hex(m.value("alpha_B_r", -.12))}, {"ref", hex(m.value("T_ref", 293.15))}, {"br", hex(m.value("B_r_T_ref", 1.39))}});
                  }
               }
            }
         }
         else if (o == "MEval") { M->eval(e); }
         else if (o == "LBuild")
         {
            L = std::make_unique<Load>(c);
            groups();
            e["dim"] = 3;
            e["ref"] = L->reference();
            e["ess"] = json::array();
            e["size"] = getSize(*L->load);
            if (c.contains("ess"))
            {
               Array<int> bdr(L->mesh->bdr_attributes.Max()), ess;
               bdr = 0;
               if (c["ess"].is_string()) { bdr = 1; }
               else { for (int b : c["ess"]) { bdr[b - 1] = 1; } }
               L->fes->GetEssentialTrueDofs(bdr, ess);
               for (int i : ess) { e["ess"].push_back(i + 1); }
            }
         }
         else if (o == "LSet")
         {
            auto in = read(c, L->par, e);
            setInputs(*L->load, in);
            e["ref"] = L->reference();
         }
         else if (o == "LMove")
         {
            Vector x(*L->mesh->GetNodes());
            for (auto &v : x) { v += uni(-L->step, L->step); }
            L->nodes(x);
            miso::MISOInputs in{{"mesh_coords", x}};
            setInputs(*L->load, in);
            e["ref"] = L->reference();
         }
         else if (o == "LAdd")
         {
            Vector t(getSize(*L->load));
            for (auto &v : t) { v = uni(-1, 1); }
            e["before"] = hex(t);
            addLoad(*L->load, t);
            e["after"] = hex(t);
         }
         else if (o == "LVjp")
         {
            Vector bar(getSize(*L->load));
            for (auto &v : bar) { v = uni(-1, 1); }
            e["bar"] = hex(bar);
            e["wrt"] = c["wrt"];
            const std::string w = c["wrt"];
            e["ok"] = true;
            e["out"] = hex(0.0);
            try
            {
               e["out"] = hex(vectorJacobianProduct(*L->load, bar, w.rfind("group:", 0) == 0 ? "current_density:" + w.substr(6) : w));
            }
            catch (const std::exception &) { e["ok"] = false; }
         }
         else if (o == "LVjpMesh")
         {
            Vector bar(getSize(*L->load)), x(*L->mesh->GetNodes()), dir(x.Size()), out(x.Size());
            for (auto &v : bar) { v = uni(-1, 1); }
            for (auto &v : dir) { v = uni(-1, 1); }
            for (auto &v : out) { v = uni(-1, 1); }
            const double h = 1e-5;
            e["wrt"] = c["wrt"];
            e["bar"] = hex(bar);
            e["before"] = hex(out);
            vectorJacobianProduct(*L->load, bar, c["wrt"].get<std::string>(), out);
            e["after"] = hex(out);
            e["dir"] = hex(dir);
            e["h"] = hex(h);
            Vector y(x);
            y.Add(h, dir);
            L->nodes(y);
            e["plus"] = L->reference();
            y.Add(-2 * h, dir);
            L->nodes(y);
            e["minus"] = L->reference();
            L->nodes(x);
         }
         emit(e);
      }
   }
   emit({{"event", "End"}});
   return 0;
}
