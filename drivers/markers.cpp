// Attribute lists, keywords and options entries: which arrays they mark, which
// elements the terms of a form visit, and which dofs become essential.
#include <map>
#include <memory>
#include <set>
#include "drv.hpp"
#include "utils.hpp"
#include "miso_input.hpp"
#include "miso_integrator.hpp"
#include "finite_element_state.hpp"
#include "functional_output.hpp"
#include "miso_linearform.hpp"
#include "miso_nonlinearform.hpp"
using namespace drv;
using namespace mfem;

std::mt19937_64 rng;
int pick(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }

struct Where
{
   std::string place;
   std::vector<int> seen;
};

// a term that records where it is evaluated
struct Probe : NonlinearFormIntegrator
{
   Where *w;
   explicit Probe(Where *w) : w(w) { }
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &f, Vector &v) override
   {
      w->seen.push_back(T.ElementNo);
      v.SetSize(f.Size());
      for (int k = 0; k < v.Size(); ++k) { v(k) = uni(1, 2); }
   }
   double GetElementEnergy(const FiniteElement &, ElementTransformation &T, const Vector &) override
   {
      w->seen.push_back(T.ElementNo);
      return 1.0;
   }
   void AssembleFaceVector(const FiniteElement &, const FiniteElement &, FaceElementTransformations &T, const Vector &f, Vector &v) override
   {
      w->seen.push_back(T.ElementNo);
      v.SetSize(f.Size());
      for (int k = 0; k < v.Size(); ++k) { v(k) = uni(1, 2); }
   }
   double GetFaceEnergy(const FiniteElement &, const FiniteElement &, FaceElementTransformations &T, const Vector &) override
   {
      w->seen.push_back(T.ElementNo);
      return 1.0;
   }
};
struct LProbe : LinearFormIntegrator
{
   Where *w;
   explicit LProbe(Where *w) : w(w) { }
   void AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &T, Vector &v) override
   {
      w->seen.push_back(T.ElementNo);
      v.SetSize(el.GetDof());
      for (int k = 0; k < v.Size(); ++k) { v(k) = uni(1, 2); }
   }
   void AssembleRHSElementVect(const FiniteElement &el, FaceElementTransformations &T, Vector &v) override
   {
      w->seen.push_back(T.ElementNo);
      v.SetSize(el.GetDof());
      for (int k = 0; k < v.Size(); ++k) { v(k) = uni(1, 2); }
   }
   void AssembleRHSElementVect(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, Vector &v) override
   {
      w->seen.push_back(T.ElementNo);
      v.SetSize(a.GetDof() + b.GetDof());
      for (int k = 0; k < v.Size(); ++k) { v(k) = uni(1, 2); }
   }
};
// mfem's element vectors are scaled by the sign of an edge dof
json rows(const Vector &v)
{
   json j = json::array();
   for (int i = 0; i < v.Size(); ++i)
      if (v(i) != 0.0) { j.push_back(i + 1); }
   return j;
}

struct World
{
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<FiniteElementCollection> fec;
   std::unique_ptr<ParFiniteElementSpace> fes;
   std::map<std::string, miso::FiniteElementState> fields;
   std::unique_ptr<miso::MISONonlinearForm> res;
   std::unique_ptr<miso::MISOLinearForm> load;
   std::unique_ptr<miso::FunctionalOutput> fun;
   std::list<Where> terms;
   std::map<std::string, std::map<int, int>> number;   // place, what the integrator sees -> position in the table

   void build(const json &c)
   {
      std::string el = c["el"];
      int nd = c["nd"], nb = c["nb"];
      auto t = el == "tri" ? Element::TRIANGLE : el == "quad" ? Element::QUADRILATERAL : el == "tet" ? Element::TETRAHEDRON : Element::HEXAHEDRON;
      int dim = el == "tri" || el == "quad" ? 2 : 3;
      Mesh base = dim == 2 ? Mesh::MakeCartesian2D(3, 2, t, true) : el == "tet" ? Mesh::MakeCartesian3D(1, 1, 2, t) : Mesh::MakeCartesian3D(2, 2, 1, t);
      int gap = c["gap"].get<bool>() ? 1 : 0;
      for (int i = 0; i < base.GetNE(); ++i) { base.SetAttribute(i, i == 0 ? nd : gap ? nd - pick(0, nd > 2 ? 1 : 0) : pick(1, nd)); }
      std::vector<int> inner;
      for (int f = 0; f < base.GetNumFaces(); ++f)
      {
         int a, b;
         base.GetFaceElements(f, &a, &b);
         if (b >= 0 && c["internal"].get<bool>() && uni(0, 1) < .4) { inner.push_back(f); }
      }
      Mesh m(dim, base.GetNV(), base.GetNE(), base.GetNBE() + inner.size());
      for (int i = 0; i < base.GetNV(); ++i) { m.AddVertex(base.GetVertex(i)); }
      for (int i = 0; i < base.GetNE(); ++i) { m.AddElement(base.GetElement(i)->Duplicate(&m)); }
      int nbe = 0;
      auto attr = [&] { return nbe++ == 0 ? nb : gap ? nb - pick(0, nb > 2 ? 1 : 0) : pick(1, nb); };
      for (int i = 0; i < base.GetNBE(); ++i)
      {
         auto *e = base.GetBdrElement(i)->Duplicate(&m);
         e->SetAttribute(attr());
         m.AddBdrElement(e);
      }
      for (int f : inner)
      {
         auto *e = base.GetFace(f)->Duplicate(&m);
         e->SetAttribute(attr());
         m.AddBdrElement(e);
      }
      m.FinalizeTopology();
      m.Finalize(false, true);
      mesh = std::make_unique<ParMesh>(MPI_COMM_WORLD, m);
      std::string sp = c["space"];
      int p = c["p"];
      fec.reset(sp == "nd" ? (FiniteElementCollection *)new ND_FECollection(p, dim) : sp == "l2" ? (FiniteElementCollection *)new L2_FECollection(p, dim)
                                                                                                  : (FiniteElementCollection *)new H1_FECollection(p, dim));
      fes = std::make_unique<ParFiniteElementSpace>(mesh.get(), fec.get());
      fields.emplace("state", miso::FiniteElementState(*mesh, *fes, "state"));
      fields.emplace("adjoint", miso::FiniteElementState(*mesh, *fes, "adjoint"));
      emit(table(nd, nb));
   }
   std::vector<int> plain(Array<int> d)
   {
      std::vector<int> r;
      for (int i : d) { r.push_back((i < 0 ? -1 - i : i) + 1); }
      return r;
   }
   json table(int nd, int nb)
   {
      json m = {{"nd", nd}, {"nb", nb}};
      json dofs = json::object();
      for (auto p : {"domain", "boundary", "bdr", "internal", "face"}) { m[p] = json::array(); dofs[p] = json::array(); }
      m["battr"] = json::array();
      m["bdofs"] = json::array();
      auto both = [&](int a, int b)
      {
         Array<int> d, e;
         fes->GetElementDofs(a, d);
         if (b >= 0) { fes->GetElementDofs(b, e); d.Append(e); }
         return plain(d);
      };
      for (int i = 0; i < mesh->GetNE(); ++i)
      {
         m["domain"].push_back(mesh->GetAttribute(i));
         dofs["domain"].push_back(both(i, -1));
         number["domain"][i] = i + 1;
      }
      for (int i = 0; i < mesh->GetNBE(); ++i)
      {
         Array<int> d;
         fes->GetBdrElementDofs(i, d);
         m["battr"].push_back(mesh->GetBdrAttribute(i));
         m["bdofs"].push_back(plain(d));
         m["boundary"].push_back(mesh->GetBdrAttribute(i));
         dofs["boundary"].push_back(plain(d));
         number["boundary"][i] = i + 1;
         int f = mesh->GetBdrElementEdgeIndex(i), a, b;
         mesh->GetFaceElements(f, &a, &b);
         std::string p = b < 0 ? "bdr" : "internal";
         m[p].push_back(mesh->GetBdrAttribute(i));
         dofs[p].push_back(both(a, b));
         number[p][b < 0 ? i : f] = m[p].size();
      }
      for (int f = 0; f < mesh->GetNumFaces(); ++f)
      {
         int a, b;
         mesh->GetFaceElements(f, &a, &b);
         if (b < 0) { continue; }
         m["face"].push_back(1);
         dofs["face"].push_back(both(a, b));
         number["face"][f] = m["face"].size();
      }
      m["dofs"] = dofs;
      return {{"event", "Load"}, {"mesh", m}};
   }
   void make(const std::string &k)
   {
      drop();
      if (k == "residual") { res = std::make_unique<miso::MISONonlinearForm>(*fes, fields); }
      if (k == "load") { load = std::make_unique<miso::MISOLinearForm>(*fes, fields); }
      if (k == "functional") { fun = std::make_unique<miso::FunctionalOutput>(*fes, fields); }
   }
   void drop()
   {
      res.reset();
      load.reset();
      fun.reset();
      terms.clear();
   }
   void add(const std::string &place, const std::vector<int> *list)
   {
      terms.push_back({place, {}});
      auto *w = &terms.back();
      auto on = [&](auto plain, auto marked) { list ? marked(*list) : plain(); };
      if (load)
      {
         auto *i = new LProbe(w);
         if (place == "domain") { on([&] { load->addDomainIntegrator(i); }, [&](auto &l) { load->addDomainIntegrator(i, l); }); }
         else if (place == "boundary") { on([&] { load->addBoundaryIntegrator(i); }, [&](auto &l) { load->addBoundaryIntegrator(i, l); }); }
         else if (place == "bdr") { on([&] { load->addBdrFaceIntegrator(i); }, [&](auto &l) { load->addBdrFaceIntegrator(i, l); }); }
         else { on([&] { load->addInternalBoundaryFaceIntegrator(i); }, [&](auto &l) { load->addInternalBoundaryFaceIntegrator(i, l); }); }
         return;
      }
      auto *i = new Probe(w);
      if (res)
      {
         if (place == "domain") { on([&] { res->addDomainIntegrator(i); }, [&](auto &l) { res->addDomainIntegrator(i, l); }); }
         else if (place == "face") { res->addInteriorFaceIntegrator(i); }
         else if (place == "bdr") { on([&] { res->addBdrFaceIntegrator(i); }, [&](auto &l) { res->addBdrFaceIntegrator(i, l); }); }
         else { on([&] { res->addInternalBoundaryFaceIntegrator(i); }, [&](auto &l) { res->addInternalBoundaryFaceIntegrator(i, l); }); }
      }
      else
      {
         if (place == "domain") { on([&] { fun->addOutputDomainIntegrator(i); }, [&](auto &l) { fun->addOutputDomainIntegrator(i, l); }); }
         else if (place == "face") { fun->addOutputInteriorFaceIntegrator(i); }
         else if (place == "bdr") { on([&] { fun->addOutputBdrFaceIntegrator(i); }, [&](auto &l) { fun->addOutputBdrFaceIntegrator(i, l); }); }
         else { on([&] { fun->addInternalBoundaryFaceIntegrator(i); }, [&](auto &l) { fun->addInternalBoundaryFaceIntegrator(i, l); }); }
      }
   }
   json dofsOf(const Array<int> &a)
   {
      json j = json::array();
      for (int i : a) { j.push_back(i + 1); }
      return j;
   }
   json essential()
   {
      return dofsOf(res ? res->getEssentialDofs() : load->getEssentialDofs());
   }
   void eval()
   {
      for (auto &t : terms) { t.seen.clear(); }
      Vector state(fes->GetTrueVSize()), out(fes->GetTrueVSize());
      for (int i = 0; i < state.Size(); ++i) { state(i) = uni(1, 2); }
      out = 0.0;
      miso::MISOInputs in{{"state", state}};
      json r = json::array();
      double value = 0.0;
      if (res) { evaluate(*res, in, out); r = rows(out); }
      else if (load) { addLoad(*load, out); r = rows(out); }
      else { value = calcOutput(*fun, in); }
      json v = json::array();
      for (auto &t : terms)
      {
         json s = json::array();
         for (int i : t.seen)
         {
            auto it = number[t.place].find(i);
            s.push_back(it == number[t.place].end() ? 0 : it->second);
         }
         v.push_back(s);
      }
      emit({{"event", "Eval"}, {"visits", v}, {"rows", r}, {"value", (int)std::lround(value)}});
   }
};

json toEntry(const json &e)
{
   return e["kind"] == "list" ? e["list"] : e["kind"] == "number" ? json(e["list"][0]) : e["kind"] == "null" ? json() : e["kind"] == "object" ? json{{"all", 1}} : json(e["kind"]);
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   json scn = load(argv[1]);
   trace().open(argv[2]);
   std::unique_ptr<Quiet> q; if (!getenv("LOUD")) { q.reset(new Quiet); }
   for (auto &s : scn)
   {
      rng.seed(s["seed"].get<std::uint64_t>());
      emit({{"event", "Reset"}});
      World w;
      for (auto &c : s["cmds"])
      {
         std::string op = c["op"];
         bool ok = true;
         if (op == "mark")
         {
            Array<int> a(c["n"].get<int>());
            for (int i = 0; i < a.Size(); ++i) { a[i] = pick(0, 3); }
            try
            {
               if (c["api"] == "attrs") { miso::attrVecToArray(c["entry"]["list"].get<std::vector<int>>(), a); }
               else { miso::getMFEMBoundaryArray(toEntry(c["entry"]), a); }
            }
            catch (std::exception &) { ok = false; }
            json out = json::array();
            for (int i = 0; i < a.Size(); ++i) { out.push_back(a[i]); }
            emit({{"event", "Mark"}, {"entry", c["entry"]}, {"n", c["n"]}, {"ok", ok}, {"array", out}});
         }
         else if (op == "load") { w.build(c); }
         else if (op != "build" && !w.res && !w.load && !w.fun) { continue; }
         else if (op == "build")
         {
            w.make(c["form"]);
            emit({{"event", "Build"}, {"form", c["form"]}});
         }
         else if (op == "add")
         {
            if (c["list"].is_null())
            {
               w.add(c["place"], nullptr);
               emit({{"event", "AddAll"}, {"place", c["place"]}});
            }
            else
            {
               auto l = c["list"].get<std::vector<int>>();
               try { w.add(c["place"], &l); }
               catch (std::exception &) { ok = false; }
               emit({{"event", "AddOn"}, {"place", c["place"]}, {"list", c["list"]}, {"ok", ok}});
            }
         }
         else if (op == "reselect")
         {
            try { setOptions(*w.fun, json{{"attributes", c["list"]}}); }
            catch (std::exception &) { ok = false; }
            emit({{"event", "Reselect"}, {"list", c["list"]}, {"ok", ok}});
         }
         else if (op == "essential")
         {
            json o = {{"bcs", {{"essential", toEntry(c["entry"])}}}}, d = json::array();
            try
            {
               if (w.res) { setOptions(*w.res, o); }
               else { setOptions(*w.load, o); }
               d = w.essential();
            }
            catch (std::exception &) { ok = false; }
            emit({{"event", "Essential"}, {"entry", c["entry"]}, {"ok", ok}, {"dofs", d}});
         }
         else if (op == "options")
         {
            json o = {{"bcs", {{"natural", {1}}}}, {"other", 1}};
            if (w.res) { setOptions(*w.res, o); }
            else if (w.load) { setOptions(*w.load, o); }
            else { setOptions(*w.fun, o); }
         }
         else if (op == "eval") { w.eval(); }
         if (!ok && op != "mark") { w.drop(); }
      }
   }
   emit({{"event", "End"}});
   return 0;
}
