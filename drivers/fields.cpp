// Fields: true and local degrees of freedom, projection, moves and copies,
// the fields of PDE solvers, and norms of fields and differences.
#include <memory>
#include <stdexcept>
#include "drv.hpp"
#include "finite_element_dual.hpp"
#include "finite_element_state.hpp"
#include "pde_solver.hpp"
#include "sbp_fe.hpp"
using namespace drv;
using namespace mfem;
using FEV = miso::FiniteElementVector;
using FES = miso::FiniteElementState;
using FED = miso::FiniteElementDual;

static int rk = 0, np = 1;

static std::vector<double> gather(const double *x, int n)
{
   std::vector<int> c(np), d(np, 0);
   MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
   int t = 0;
   for (int i = 0; i < np; ++i) { d[i] = t; t += c[i]; }
   std::vector<double> r(t);
   MPI_Allgatherv(x, n, MPI_DOUBLE, r.data(), c.data(), d.data(), MPI_DOUBLE, MPI_COMM_WORLD);
   return r;
}
static json all(const Vector &v) { return hexv(gather(v.GetData(), v.Size())); }
static std::vector<double> ints(const std::vector<int> &v)
{
   std::vector<double> x(v.begin(), v.end());
   return gather(x.data(), x.size());
}
static void say(const json &e) { if (rk == 0) { emit(e); } }

/// rows of a sparse matrix given on every rank by triples
static json rows(int n, const std::vector<int> &I, const std::vector<int> &J, const std::vector<double> &A)
{
   auto gi = ints(I), gj = ints(J);
   auto ga = gather(A.data(), A.size());
   json r = json::array();
   for (int i = 0; i < n; ++i) { r.push_back(json::array()); }
   for (std::size_t k = 0; k < ga.size(); ++k) { r[(int)gi[k]].push_back({(int)gj[k] + 1, hex(ga[k])}); }
   return r;
}

static int total(int n)
{
   int t;
   MPI_Allreduce(&n, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
   return t;
}
static int before(int n)
{
   int t = 0;
   MPI_Exscan(&n, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
   return rk ? t : 0;
}

/// how local degrees of freedom (all ranks in a row) come from true ones, and
/// which local ones the true ones are
static json shape_of(const ParFiniteElementSpace &cf)
{
   auto &f = const_cast<ParFiniteElementSpace &>(cf);
   int nl = f.GetVSize(), nt = f.GetTrueVSize(), l0 = before(nl), t0 = before(nt);
   std::vector<int> I, J;
   std::vector<double> A;
   SparseMatrix m;
   f.Dof_TrueDof_Matrix()->MergeDiagAndOffd(m);
   for (int i = 0; i < m.Height(); ++i)
      for (int k = m.GetI()[i]; k < m.GetI()[i + 1]; ++k)
         if (m.GetData()[k] != 0.0) { I.push_back(l0 + i); J.push_back(m.GetJ()[k]); A.push_back(m.GetData()[k]); }
   json P = rows(total(nl), I, J, A);
   I.clear(); J.clear(); A.clear();
   const SparseMatrix &r = *f.GetRestrictionMatrix();
   for (int i = 0; i < r.Height(); ++i)
      for (int k = r.GetI()[i]; k < r.GetI()[i + 1]; ++k)
      {
         I.push_back(t0 + i); J.push_back(l0 + r.GetJ()[k]); A.push_back(r.GetData()[k]);
      }
   json R = rows(total(nt), I, J, A);
   const auto *c = f.FEColl();
   return {{"P", P}, {"R", R}, {"nl", total(nl)}, {"nt", total(nt)}, {"coll", c->Name()},
           {"vdim", f.GetVDim()}, {"ordering", (int)f.GetOrdering()}};
}

/// functions of space
struct Fun
{
   std::vector<std::vector<double>> c;
   bool nl;
   Vector peak;     // when set: a sharp peak there and nothing elsewhere
   explicit Fun(const json &j) : nl(j["nl"])
   {
      for (auto &r : j["c"])
      {
         std::vector<double> v;
         for (auto &x : r) { v.push_back(unhex(x)); }
         c.push_back(v);
      }
   }
   double at(int k, const Vector &x) const
   {
      if (peak.Size())
      {
         double r = 0.0;
         for (int d = 0; d < x.Size(); ++d) { r += (x(d) - peak(d)) * (x(d) - peak(d)); }
         return (k + 1) * exp(-400.0 * r);
      }
      double s = c[k][0];
      for (int d = 0; d < x.Size(); ++d) { s += c[k][1 + d] * x(d); }
      return nl ? s + c[k][4] * sin(x(0) + 2.0 * x.Sum() + k) : s;
   }
   void at(const Vector &x, Vector &v) const
   {
      for (int k = 0; k < v.Size(); ++k) { v(k) = at(k, x); }
   }
};

/// values of the function on the local degrees of freedom, element by element
static Vector nodal(ParFiniteElementSpace &f, const Fun &fun)
{
   Vector v(f.GetVSize());
   v = 0.0;
   int dim = f.GetMesh()->SpaceDimension();
   for (int e = 0; e < f.GetNE(); ++e)
   {
      const auto *fe = f.GetFE(e);
      auto *T = f.GetElementTransformation(e);
      Array<int> dofs;
      f.GetElementVDofs(e, dofs);
      Vector loc(dofs.Size());
      if (fe->GetRangeType() == FiniteElement::VECTOR)
      {
         VectorFunctionCoefficient c(dim, [&](const Vector &x, Vector &y) { fun.at(x, y); });
         fe->Project(c, *T, loc);
      }
      else
      {
         int n = fe->GetDof();
         for (int i = 0; i < n; ++i)
         {
            Vector x(dim);
            T->Transform(fe->GetNodes().IntPoint(i), x);
            for (int k = 0; k < f.GetVDim(); ++k) { loc(k * n + i) = fun.at(k, x); }
         }
      }
      v.SetSubVector(dofs, loc);
   }
   return v;
}

/// values of a field with the given local degrees of freedom at a point
static Vector value(ParFiniteElementSpace &f, const Vector &dofv, int e, const IntegrationPoint &ip)
{
   const auto *fe = f.GetFE(e);
   auto *T = f.GetElementTransformation(e);
   T->SetIntPoint(&ip);
   Array<int> dofs;
   f.GetElementVDofs(e, dofs);
   Vector loc;
   dofv.GetSubVector(dofs, loc);
   int n = fe->GetDof();
   if (fe->GetRangeType() == FiniteElement::VECTOR)
   {
      DenseMatrix s(n, T->GetSpaceDim());
      fe->CalcVShape(*T, s);
      Vector v(T->GetSpaceDim());
      s.MultTranspose(loc, v);
      return v;
   }
   Vector s(n), v(f.GetVDim());
   fe->CalcShape(ip, s);
   for (int k = 0; k < v.Size(); ++k)
   {
      v(k) = 0.0;
      for (int i = 0; i < n; ++i) { v(k) += s(i) * loc(k * n + i); }
   }
   return v;
}

/// quadrature points of the norms: nodes of SBP elements, Gauss otherwise
static json points(ParFiniteElementSpace &f, const Vector &dofv, const Fun *ex)
{
   std::vector<double> w, u, x;
   std::string nm = f.FEColl()->Name();
   bool sbp = nm.rfind("SBP", 0) == 0 || nm.rfind("DSBP", 0) == 0;
   int m = 0;
   for (int e = 0; e < f.GetNE(); ++e)
   {
      const auto *fe = f.GetFE(e);
      const auto &ir = sbp ? fe->GetNodes() : IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 3);
      auto *T = f.GetElementTransformation(e);
      for (int j = 0; j < ir.GetNPoints(); ++j)
      {
         const auto &ip = ir.IntPoint(j);
         Vector v = value(f, dofv, e, ip), y(T->GetSpaceDim());
         T->SetIntPoint(&ip);
         T->Transform(ip, y);
         w.push_back(ip.weight * T->Weight());
         m = v.Size();
         for (int k = 0; k < m; ++k)
         {
            u.push_back(v(k));
            x.push_back(ex ? ex->at(k, y) : 0.0);
         }
      }
   }
   auto gw = gather(w.data(), w.size()), gu = gather(u.data(), u.size()), gx = gather(x.data(), x.size());
   MPI_Allreduce(MPI_IN_PLACE, &m, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
   json p = json::array();
   for (std::size_t i = 0; i < gw.size(); ++i)
   {
      json a = json::array(), b = json::array();
      for (int k = 0; k < m; ++k) { a.push_back(hex(gu[i * m + k])); b.push_back(hex(gx[i * m + k])); }
      p.push_back({hex(gw[i]), a, b});
   }
   return p;
}

static Mesh serial(const json &o)
{
   std::string t = o["type"];
   auto n = o["n"].get<std::vector<int>>();
   Mesh m = t == "seg"    ? Mesh::MakeCartesian1D(n[0], 1.5)
            : t == "quad" ? Mesh::MakeCartesian2D(n[0], n[1], Element::QUADRILATERAL, true, 1.5, 1.0)
            : t == "tri"  ? Mesh::MakeCartesian2D(n[0], n[1], Element::TRIANGLE, true, 1.5, 1.0)
            : t == "hex"  ? Mesh::MakeCartesian3D(n[0], n[1], n[2], Element::HEXAHEDRON, 1.5, 1.0, 1.25)
                          : Mesh::MakeCartesian3D(n[0], n[1], n[2], Element::TETRAHEDRON, 1.5, 1.0, 1.25);
   const auto &d = o["shift"];
   for (int v = 0; v < m.GetNV(); ++v)
      for (int k = 0; k < m.Dimension(); ++k) { m.GetVertex(v)[k] += unhex(d[(v * m.Dimension() + k) % d.size()]); }
   if (o["nc"])
   {
      m.EnsureNCMesh();
      Array<int> r;
      r.Append(0);
      m.GeneralRefinement(r, 1, 1);
   }
   if (o["curve"].get<int>() > 0) { m.SetCurvature(o["curve"], false, -1, o.value("byvdim", true) ? Ordering::byVDIM : Ordering::byNODES); }
   return m;
}

struct Pde : miso::PDESolver
{
   Pde(const json &o, int n, std::unique_ptr<Mesh> m) : miso::PDESolver(MPI_COMM_WORLD, o, n, std::move(m)) { }
   Pde(const json &o, const std::function<int(const json &, int)> &f, std::unique_ptr<Mesh> m)
    : miso::PDESolver(MPI_COMM_WORLD, o, f, std::move(m))
   { }
   std::map<std::string, FES> &f() { return fields; }
   std::map<std::string, FED> &d() { return duals; }
   ParMesh &m() { return mesh(); }
   void start(const Vector &u) { initialHook(u); }
};

static json vals(const FEV &v)
{
   if (const auto *s = dynamic_cast<const FES *>(&v)) { return all(s->gridFunc()); }
   return all(dynamic_cast<const FED &>(v).localVec());
}
static Vector &local(FEV &v)
{
   if (auto *s = dynamic_cast<FES *>(&v)) { return s->gridFunc(); }
   return dynamic_cast<FED &>(v).localVec();
}

/// exact solutions that look at the point set in the transformation, as the gradient and curl coefficients of mfem do
struct AtPoint : mfem::Coefficient
{
   std::function<double(const mfem::Vector &)> g;
   AtPoint(std::function<double(const mfem::Vector &)> g_) : g(std::move(g_)) { }
   double Eval(mfem::ElementTransformation &T, const mfem::IntegrationPoint &) override
   {
      mfem::Vector x;
      T.Transform(T.GetIntPoint(), x);
      return g(x);
   }
};
struct VecAtPoint : mfem::VectorCoefficient
{
   std::function<void(const mfem::Vector &, mfem::Vector &)> g;
   VecAtPoint(int n, std::function<void(const mfem::Vector &, mfem::Vector &)> g_) : mfem::VectorCoefficient(n), g(std::move(g_)) { }
   void Eval(mfem::Vector &v, mfem::ElementTransformation &T, const mfem::IntegrationPoint &) override
   {
      mfem::Vector x;
      T.Transform(T.GetIntPoint(), x);
      v.SetSize(vdim);
      g(x, v);
   }
   using mfem::VectorCoefficient::Eval;
};

int main(int argc, char **argv)
{
   Mpi::Init(argc, argv);
   Hypre::Init();
   MPI_Comm_rank(MPI_COMM_WORLD, &rk);
   MPI_Comm_size(MPI_COMM_WORLD, &np);
   json scn = load(argv[1]);
   if (rk == 0) { trace().open(argv[2]); }
   Quiet q;
   for (auto &s : scn)
   {
      say({{"event", "Reset"}});
      std::vector<std::unique_ptr<ParMesh>> meshes;
      std::map<std::string, std::unique_ptr<FEV>> own;
      std::map<std::string, std::unique_ptr<Pde>> pdes;
      for (auto &mo : s["meshes"])
      {
         Mesh m = serial(mo);
         if (mo["nc"] || np == 1) { meshes.push_back(std::make_unique<ParMesh>(MPI_COMM_WORLD, m)); }
         else
         {
            std::vector<int> part(m.GetNE());
            for (int e = 0; e < m.GetNE(); ++e) { part[e] = mo["parts"][e % mo["parts"].size()].get<int>() % np; }
            for (int r = 0; r < np; ++r) { if (r < m.GetNE()) { part[r] = r; } }
            meshes.push_back(std::make_unique<ParMesh>(MPI_COMM_WORLD, m, part.data()));
         }
      }
      auto find = [&](const std::string &n) -> FEV *
      {
         auto d = n.find('.');
         if (d == std::string::npos) { auto i = own.find(n); return i == own.end() ? nullptr : i->second.get(); }
         auto i = pdes.find(n.substr(0, d));
         if (i == pdes.end()) { return nullptr; }
         std::string b = n.substr(d + 1);
         auto j = i->second->f().find(b);
         if (j != i->second->f().end()) { return &j->second; }
         auto k = i->second->d().find(b);
         return k == i->second->d().end() ? nullptr : &k->second;
      };
      auto dump = [&](json e)
      {
         json f = json::object(), names = json::object(), nodes = json::object(), where = json::object();
         auto one = [&](const std::string &k, const FEV &v, const std::string &m)
         {
            f[k] = vals(v);
            names[k] = v.name();
            where[k] = m;
         };
         for (auto &[k, v] : own)
         {
            std::string m;
            for (std::size_t i = 0; i < meshes.size(); ++i) { if (meshes[i].get() == &v->mesh()) { m = std::to_string(i); } }
            for (auto &[i, p] : pdes) { if (&p->m() == &v->mesh()) { m = i; } }
            one(k, *v, m);
         }
         for (auto &[k, p] : pdes)
         {
            for (auto &[n, v] : p->f()) { one(k + "." + n, v, &v.mesh() == &p->m() ? k : std::string()); }
            for (auto &[n, v] : p->d()) { one(k + "." + n, v, &v.mesh() == &p->m() ? k : std::string()); }
            nodes[k] = all(*p->m().GetNodes());
         }
         e["fields"] = f;
         e["names"] = names;
         e["where"] = where;
         e["nodes"] = nodes;
         say(e);
      };
      auto tvec = [&](const FEV &v, const json &x)
      {
         Vector t(v.space().GetTrueVSize());
         int t0 = before(t.Size());
         for (int i = 0; i < t.Size(); ++i) { t(i) = unhex(x[(t0 + i) % x.size()]); }
         return t;
      };
      for (auto &c : s["cmds"])
      {
         std::string cmd = c["cmd"];
         if (cmd == "Make")
         {
            std::string n = c["name"], how = c["how"], basis = c["basis"];
            auto &m = *meshes.at(c["mesh"].get<int>());
            int p = c["degree"], vd = c["vdim"], dim = m.Dimension();
            std::unique_ptr<FEV> v;
            bool st = c["kind"] == "state";
            auto build = [&](auto &&...a)
            {
               if (st) { v = std::make_unique<FES>(std::forward<decltype(a)>(a)...); }
               else { v = std::make_unique<FED>(std::forward<decltype(a)>(a)...); }
            };
            if (how == "json")
            {
               json o = {{"degree", p}, {"basis-type", basis}};
               if (c.contains("gd")) { o["GD"] = c["gd"]; }
               if (vd == 1 && c["nameless"]) { build(m, o); }
               else { build(m, o, vd, n); }
            }
            else
            {
               FEV::Options o;
               o.order = p;
               o.num_states = vd;
               o.name = n;
               if (c["byvdim"] == false) { o.ordering = Ordering::byNODES; }
               if (basis == "L2") { o.coll = std::make_unique<L2_FECollection>(p, dim); }
               else if (basis == "ND") { o.coll = std::make_unique<ND_FECollection>(p, dim); }
               else if (basis == "csbp") { o.coll = std::make_unique<SBPCollection>(p, dim); }
               if (how == "plain") { build(m); }
               else { build(m, std::move(o)); }
            }
            own[n] = std::move(v);
            json e = {{"event", "Make"}, {"name", n}, {"kind", c["kind"]}, {"how", how}, {"basis", basis}, {"degree", p},
                      {"states", vd}, {"byvdim", c["byvdim"]}, {"nameless", c["nameless"]}, {"mesh", std::to_string(c["mesh"].get<int>())}, {"dim", dim}, {"gd", c.value("gd", false)},
                      {"shape", shape_of(own[n]->space())}};
            dump(e);
         }
         else if (cmd == "CopySpace")
         {
            std::string n = c["name"], from = c["from"];
            FEV *o = find(from);
            if (!o) { continue; }
            if (c["kind"] == "state") { own[n] = std::make_unique<FES>(o->mesh(), o->space(), n); }
            else { own[n] = std::make_unique<FED>(o->mesh(), o->space(), n); }
            bool apart = &own[n]->space() != &o->space() && own[n]->space().FEColl() != o->space().FEColl();
            dump({{"event", "CopySpace"}, {"name", n}, {"from", from}, {"kind", c["kind"]}, {"apart", apart}, {"shape", shape_of(own[n]->space())}});
         }
         else if (cmd == "Move")
         {
            std::string n = c["name"], from = c["from"];
            auto *o = dynamic_cast<FES *>(find(from));
            auto *od = dynamic_cast<FED *>(find(from));
            if ((!o && !od) || from.find('.') != std::string::npos || n == from) { continue; }
            auto *t = dynamic_cast<FES *>(find(n));
            auto *td = dynamic_cast<FED *>(find(n));
            if (c["assign"] && o && t) { *t = std::move(*o); }
            else if (c["assign"] && od && td) { *td = std::move(*od); }
            else if (o) { own[n] = std::make_unique<FES>(std::move(*o)); }
            else { own[n] = std::make_unique<FED>(std::move(*od)); }
            own.erase(from);
            dump({{"event", "Move"}, {"name", n}, {"from", from}});
         }
         else if (cmd == "Distribute")
         {
            FEV *f = find(c["name"]);
            if (!f) { continue; }
            Vector t = tvec(*f, c["t"]), t0(t);
            f->distributeSharedDofs(t);
            dump({{"event", "Distribute"}, {"name", c["name"]}, {"t", all(t0)}, {"after", all(t)}});
         }
         else if (cmd == "Stretch")    // true coordinates, scaled and bent
         {
            FEV *f = find(c["name"]);
            if (!f) { continue; }
            Vector t(f->space().GetTrueVSize());
            f->setTrueVec(t);
            for (int i = 0; i < t.Size(); ++i) { double x = t(i); t(i) = unhex(c["s"][0]) * x + unhex(c["s"][1]) * x * x * .1 + unhex(c["s"][2]); }
            Vector t0(t);
            f->distributeSharedDofs(t);
            dump({{"event", "Distribute"}, {"name", c["name"]}, {"t", all(t0)}, {"after", all(t)}});
         }
         else if (cmd == "Collect")
         {
            FEV *f = find(c["name"]);
            if (!f) { continue; }
            Vector t(f->space().GetTrueVSize());
            t = 0.5;
            f->setTrueVec(t);
            dump({{"event", "Collect"}, {"name", c["name"]}, {"t", all(t)}});
         }
         else if (cmd == "Poke")
         {
            FEV *f = find(c["name"]);
            if (!f) { continue; }
            Vector &v = local(*f);
            int l0 = before(v.Size());
            for (int i = 0; i < v.Size(); ++i) { v(i) = unhex(c["v"][(l0 + i) % c["v"].size()]); }
            dump({{"event", "Poke"}, {"name", c["name"]}, {"v", all(v)}});
         }
         else if (cmd == "Project")
         {
            auto *f = dynamic_cast<FES *>(find(c["name"]));
            if (!f) { continue; }
            Fun fun(c["fun"]);
            bool vec = f->gridFunc().VectorDim() > 1 || f->space().GetFE(0)->GetRangeType() == FiniteElement::VECTOR || c["vec"];
            Vector t(f->space().GetTrueVSize()), nv = nodal(f->space(), fun);
            t = 0.25;
            int vd = f->gridFunc().VectorDim();
            if (vec)
            {
               std::function<void(const Vector &, Vector &)> g = [fun](const Vector &x, Vector &y) { fun.at(x, y); };
               if (c["coef"]) { VectorFunctionCoefficient k(vd, g); f->project(k, t); }
               else { f->project(g, t); }
            }
            else
            {
               std::function<double(const Vector &)> g = [fun](const Vector &x) { return fun.at(0, x); };
               if (c["coef"]) { FunctionCoefficient k(g); f->project(k, t); }
               else { f->project(g, t); }
            }
            dump({{"event", "Project"}, {"name", c["name"]}, {"nodal", all(nv)}, {"t", all(t)}});
         }
         else if (cmd == "Eval")
         {
            auto *f = dynamic_cast<FES *>(find(c["name"]));
            if (!f) { continue; }
            auto &sp = f->space();
            std::vector<double> got, want;
            if (sp.GetNE())
            {
               int e = c["e"].get<int>() % sp.GetNE();
               IntegrationPoint ip = IntRules.Get(sp.GetFE(e)->GetGeomType(), 3).IntPoint(0);
               if (sp.GetFE(e)->GetNodes().GetNPoints() && std::string(sp.FEColl()->Name()).find("SBP") != std::string::npos) { ip = sp.GetFE(e)->GetNodes().IntPoint(0); }
               Vector w = value(sp, f->gridFunc(), e, ip), v(w.Size());
               auto *T = sp.GetElementTransformation(e);
               T->SetIntPoint(&ip);
               if (w.Size() == 1 && sp.GetFE(e)->GetRangeType() == FiniteElement::SCALAR) { v(0) = f->gridFuncCoef().Eval(*T, ip); }
               else { f->vectorGridFuncCoef().Eval(v, *T, ip); }
               got.assign(v.GetData(), v.GetData() + v.Size());
               want.assign(w.GetData(), w.GetData() + w.Size());
            }
            auto a = gather(got.data(), got.size()), b = gather(want.data(), want.size());
            dump({{"event", "Eval"}, {"name", c["name"]}, {"got", hexv(a)}, {"want", hexv(b)}});
         }
         else if (cmd == "Solver")
         {
            std::string id = c["id"];
            json o = {{"print-options", false},
                      {"mesh", {{"file", "none.mesh"}}},
                      {"space-dis", {{"degree", c["degree"]}, {"basis-type", c["basis"]}}}};
            if (!c["ext"].is_null()) { o["external-fields"] = c["ext"]; }
            int vd = c["vdim"];
            auto sm = std::make_unique<Mesh>(serial(c["mesh"]));
            if (c["file"])
            {
               if (rk == 0)
               {
                  std::ofstream f("given.mesh");
                  f.precision(17);
                  sm->Print(f);
               }
               MPI_Barrier(MPI_COMM_WORLD);
               sm = std::make_unique<Mesh>("given.mesh", 1, 1);
               o["mesh"]["file"] = "./given.mesh";
            }
            Mesh keep(*sm);
            if (c["file"]) { sm.reset(); }
            int dim = keep.SpaceDimension();
            bool asked = true;
            pdes.erase(id);
            if (c["count"]) { pdes[id] = std::make_unique<Pde>(o, vd, std::move(sm)); }
            else
            {
               pdes[id] = std::make_unique<Pde>(
                   o, [&](const json &oo, int d) { asked = d == dim && oo.contains("space-dis"); return vd; }, std::move(sm));
            }
            ParMesh pm(MPI_COMM_WORLD, keep);
            pm.EnsureNodes();
            json shapes = json::object();
            for (auto &[n, v] : pdes[id]->f()) { shapes[n] = shape_of(v.space()); }
            for (auto &[n, v] : pdes[id]->d()) { shapes[n] = shape_of(v.space()); }
            json ext = json::object();
            if (!c["ext"].is_null()) { for (auto &[k, v] : c["ext"].items()) { ext[k] = {{"basis", v["basis-type"]}, {"degree", v["degree"]}, {"states", v["num-states"]}}; } }
            auto *gf = dynamic_cast<ParGridFunction *>(pm.GetNodes());
            dump({{"event", "Solver"}, {"id", id}, {"basis", c["basis"]}, {"degree", c["degree"]}, {"states", vd}, {"ext", ext}, {"dim", dim}, {"ns", pdes[id]->getNumStates()},
                  {"asked", asked}, {"shapes", shapes}, {"xshape", shape_of(*gf->ParFESpace())}, {"x", all(*gf)}});
         }
         else if (cmd == "SetState")
         {
            auto p = pdes.find(c["id"]);
            if (p == pdes.end()) { continue; }
            Pde &S = *p->second;
            std::string n = c["name"], form = c["form"];
            auto i = S.f().find(n);
            if (i == S.f().end()) { continue; }
            FES &f = i->second;
            Fun fun(c["fun"]);
            Vector nv = nodal(f.space(), fun), st(f.space().GetTrueVSize());
            st = 0.75;
            bool vec = f.gridFunc().VectorDim() > 1 || f.space().GetFE(0)->GetRangeType() == FiniteElement::VECTOR;
            int vd = f.gridFunc().VectorDim();
            auto go = [&](auto x) { if (n == "state" && c["short"]) { S.setState(x, st); } else { S.setState(x, st, n); } };
            Vector given;
            if (form == "fun" && vec) { go([&](const Vector &x, Vector &y) { fun.at(x, y); }); }
            else if (form == "fun") { go([&](const Vector &x) { return fun.at(0, x); }); }
            else if (form == "coef" && vec)
            {
               std::function<void(const Vector &, Vector &)> g = [&](const Vector &x, Vector &y) { fun.at(x, y); };
               VectorFunctionCoefficient k(vd, g);
               go(k);
            }
            else if (form == "coef")
            {
               std::function<double(const Vector &)> g = [&](const Vector &x) { return fun.at(0, x); };
               FunctionCoefficient k(g);
               go(k);
            }
            else
            {
               form = "whole";
               given = tvec(f, c["t"]);
               go([&](Vector &v) { v = given; });
            }
            dump({{"event", "SetState"}, {"id", c["id"]}, {"name", n}, {"form", form}, {"nodal", all(nv)}, {"given", all(given)}, {"t", all(st)}});
         }
         else if (cmd == "Coordinates")
         {
            auto p = pdes.find(c["id"]);
            if (p == pdes.end()) { continue; }
            Vector x(p->second->getFieldSize("mesh_coords"));
            p->second->getMeshCoordinates(x);
            dump({{"event", "Coordinates"}, {"id", c["id"]}, {"t", all(x)}});
         }
         else if (cmd == "Size")
         {
            auto p = pdes.find(c["id"]);
            if (p == pdes.end()) { continue; }
            dump({{"event", "Size"}, {"id", c["id"]}, {"name", c["name"]}, {"size", total(p->second->getFieldSize(c["name"]))}});
         }
         else if (cmd == "Start")
         {
            auto p = pdes.find(c["id"]);
            if (p == pdes.end() || np > 1) { continue; }
            auto &S = *p->second;
            Vector u = tvec(S.getState(), c["t"]);
            int bad = S.m().CheckElementOrientation(false);
            std::string err;
            try { S.start(u); }
            catch (const miso::MISOException &) { err = "MISOException"; }
            dump({{"event", "Start"}, {"id", c["id"]}, {"t", all(u)}, {"bad", bad}, {"err", err}});
         }
         else if (cmd == "Swap")     // exchange two vertices of one element: it is inside out
         {
            auto p = pdes.find(c["id"]);
            if (p == pdes.end() || np > 1) { continue; }
            auto &S = *p->second;
            auto &f = S.f().at("mesh_coords");
            Array<int> d;
            f.space().GetElementVDofs(c["e"].get<int>() % f.space().GetNE(), d);
            int n = d.Size() / f.space().GetVDim();
            int w = c["corner"];
            for (int k = 0; k < f.space().GetVDim(); ++k)
            {
               double &a = f.gridFunc()(d[k * n + w % std::min(n, 3)]), &b = f.gridFunc()(d[k * n + (w + 1) % std::min(n, 3)]),
                      &e = f.gridFunc()(d[k * n + (w + 2) % std::min(n, 3)]);
               if (c["reflect"] && n == 3) { a = b + e - a; }
               else { std::swap(a, b); }
            }
            dump({{"event", "Poke"}, {"name", c["id"].get<std::string>() + ".mesh_coords"}, {"v", vals(f)}});
         }
         else if (cmd == "MeshFile")
         {
            std::string err = "";
            try
            {
               json o = {{"print-options", false}, {"mesh", {{"file", c["file"]}}}, {"space-dis", {{"degree", 1}, {"basis-type", "H1"}}}};
               std::unique_ptr<Mesh> sm;
               if (c["given"]) { sm = std::make_unique<Mesh>(Mesh::MakeCartesian1D(4)); }
               Pde x(o, 1, std::move(sm));
            }
            catch (const miso::MISOException &) { err = "MISOException"; }
            dump({{"event", "MeshFile"}, {"file", c["file"]}, {"given", c["given"]}, {"dot", c["dot"]}, {"ext", c["ext"]}, {"err", err}});
         }
         else if (cmd == "Norm")
         {
            auto *f = dynamic_cast<FES *>(find(c["name"]));
            if (!f) { continue; }
            auto &sp = f->space();
            std::string form = c["form"];
            Fun fun(c["fun"]);
            if (c["peak"])      // in the middle of an element
            {
               f->gridFunc() = 0.0;
               Vector x(sp.GetMesh()->SpaceDimension());
               x = 0.0;
               if (rk == 0) { auto *T = sp.GetElementTransformation(0); T->Transform(Geometries.GetCenter(sp.GetFE(0)->GetGeomType()), x); }
               MPI_Bcast(x.GetData(), x.Size(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
               fun.peak = x;
            }
            else if (c["equal"])     // the field is made equal to the function
            {
               Vector nv = nodal(sp, fun);
               f->gridFunc() = nv;
            }
            int vd = f->gridFunc().VectorDim();
            bool vec = vd > 1 || sp.GetFE(0)->GetRangeType() == FiniteElement::VECTOR || c["vec"];
            double p = c["p"] == "inf" ? mfem::infinity() : unhex(c["p"]);
            int entry = c["entry"].get<int>();
            if (entry >= vd) { entry = vd - 1; }
            json pts = points(sp, f->gridFunc(), form == "norm" ? nullptr : &fun);
            std::function<double(const Vector &)> g = [&](const Vector &x) { return fun.at(0, x); };
            std::function<void(const Vector &, Vector &)> gv = [&](const Vector &x, Vector &y) { fun.at(x, y); };
            FunctionCoefficient k(g);
            VectorFunctionCoefficient kv(vd, gv);
            double r = 0;
            bool two = c["default"];
            Vector was(f->gridFunc());
            if (form == "norm") { r = two ? calcLpNorm(*f) : calcLpNorm(*f, p); entry = vd > 1 ? -1 : 0; }
            else if (form == "L2")
            {
               two = true;
               AtPoint kp(g);
               if (vec) { r = calcL2Error(*f, kv, entry); }
               else if (c["default"]) { r = calcL2Error(*f, kp); entry = 0; }
               else { r = calcL2Error(*f, k); entry = 0; }
            }
            else if (form == "coef")
            {
               AtPoint kp(g);
               VecAtPoint kvp(vd, gv);
               if (vec && two) { r = calcLpError(*f, kvp); entry = -1; }
               else if (vec) { r = calcLpError(*f, kvp, p, entry); }
               else { r = two ? calcLpError(*f, kp) : calcLpError(*f, kp, p); entry = 0; }
            }
            else
            {
               if (vec && two) { r = calcLpError(*f, gv); entry = -1; }
               else if (vec) { r = calcLpError(*f, gv, p, entry); }
               else { r = two ? calcLpError(*f, g) : calcLpError(*f, g, p); entry = 0; }
            }
            double r0 = r;
            MPI_Bcast(&r0, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
            int kept = 1;
            for (int i = 0; i < was.Size(); ++i) { kept = kept && was(i) == f->gridFunc()(i); }
            MPI_Allreduce(MPI_IN_PLACE, &kept, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
            int same = r0 == r, every;
            MPI_Allreduce(&same, &every, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
            say({{"event", "Norm"}, {"form", form}, {"p", two ? json(hex(2.0)) : c["p"]}, {"entry", entry < 0 ? 0 : entry + 1},
                 {"points", pts}, {"r", hex(r)}, {"agree", every != 0}, {"kept", kept != 0}});
         }
         else if (cmd == "StateError")
         {
            auto pp = pdes.find(c["id"]);
            if (pp == pdes.end()) { continue; }
            Pde &S = *pp->second;
            std::string n = c["name"], form = c["form"];
            auto i = S.f().find(n);
            if (i == S.f().end()) { continue; }
            FES &f = i->second;
            Fun fun(c["fun"]);
            Vector u = tvec(f, c["t"]);
            if (c["equal"]) { Vector nv = nodal(f.space(), fun); ParGridFunction h(&f.space()); h = nv; h.GetTrueDofs(u); }
            int vd = f.gridFunc().VectorDim();
            bool vec = vd > 1 || f.space().GetFE(0)->GetRangeType() == FiniteElement::VECTOR;
            double r = NAN;
            std::string err;
            auto go = [&](auto x)
            {
               try { r = n == "state" && c["short"] ? S.calcStateError(x, u) : S.calcStateError(x, u, n); }
               catch (const miso::MISOException &) { err = "MISOException"; }
            };
            Vector given;
            std::function<double(const Vector &)> g = [&](const Vector &x) { return fun.at(0, x); };
            std::function<void(const Vector &, Vector &)> gv = [&](const Vector &x, Vector &y) { fun.at(x, y); };
            ParGridFunction loc(&f.space());
            loc.SetFromTrueDofs(u);
            json pts = points(f.space(), loc, &fun);
            if (form == "fun" && vec) { go([&](const Vector &x, Vector &y) { fun.at(x, y); }); }
            else if (form == "fun") { go([&](const Vector &x) { return fun.at(0, x); }); }
            else if (form == "coef" && vec) { VectorFunctionCoefficient k(vd, gv); go(k); }
            else if (form == "coef") { FunctionCoefficient k(g); go(k); }
            else
            {
               given = tvec(f, c["other"]);
               pts = json::array();
               if (form == "vec") { go(given); }
               else if (form == "whole") { go([&](Vector &v) { v = given; }); }
               else { given.SetSize(given.Size() + 1); given = 1.0; go(given); }
            }
            double r0 = r;
            MPI_Bcast(&r0, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
            int same = r0 == r || std::isnan(r), every;
            MPI_Allreduce(&same, &every, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
            dump({{"event", "StateError"}, {"id", c["id"]}, {"name", n}, {"form", form}, {"t", all(u)}, {"given", all(given)},
                  {"points", pts}, {"vector", vec}, {"r", hex(r)}, {"err", err}, {"agree", every != 0}});
         }
         else { std::fprintf(stderr, "unknown command %s\n", cmd.c_str()); std::exit(97); }
      }
   }
   say({{"event", "End"}});
   return 0;
}
