// Drives FlowResidual<dim, entvar>: residual, entropy, Jacobian, time step, mass.
#include "drv.hpp"
#include "adept.h"
#include "sbp_fe.hpp"
#include "euler_fluxes.hpp"
#include "flow_residual.hpp"
#include "miso_input.hpp"
#include "miso_output.hpp"
using namespace drv;
using namespace miso;
using namespace mfem;

// MISO moves forms it has built; mfem 4.5.2 can neither copy the unallocated
// vectors inside one nor share the integrators of two, so here it may.
mfem::Vector::Vector(const Vector &v) : data(), size(v.size)
{
   if (size > 0 && v.GetData() != nullptr)
   {
      data.New(size);
      std::copy(v.GetData(), v.GetData() + size, const_cast<double *>(data.Read(MemoryClass::HOST, size)));
   }
   else { size = v.GetData() == nullptr ? size : 0; }
}
mfem::NonlinearForm::~NonlinearForm() { }

static int myrank, nranks;
static std::mt19937_64 eng;
static double U(double a, double b) { return a + (b - a) * ((eng() >> 11) * 0x1.0p-53); }

// entries of a parallel vector with k numbers per node, all ranks, as k lists
static json lists(const Vector &v, int k)
{
   std::vector<int> cnt(nranks), off(nranks);
   int n = v.Size();
   MPI_Gather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
   int tot = 0;
   for (int r = 0; r < nranks; ++r) { off[r] = tot; tot += cnt[r]; }
   std::vector<double> all(tot + 1);
   MPI_Gatherv(v.GetData(), n, MPI_DOUBLE, all.data(), cnt.data(), off.data(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
   json j = json::array();
   for (int c = 0; c < k; ++c)
   {
      json a = json::array();
      for (int i = c; i < tot; i += k) { a.push_back(hex(all[i])); }
      j.push_back(a);
   }
   return j;
}
static json joined(const json &local)
{
   std::string s = local.dump();
   int n = s.size();
   std::vector<int> cnt(nranks), off(nranks);
   MPI_Gather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
   int tot = 0;
   for (int r = 0; r < nranks; ++r) { off[r] = tot; tot += cnt[r]; }
   std::string all(tot, ' ');
   MPI_Gatherv(s.data(), n, MPI_CHAR, &all[0], cnt.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
   json j = json::array();
   if (myrank == 0)
   {
      for (int r = 0; r < nranks; ++r)
         for (auto &x : json::parse(all.substr(off[r], cnt[r]))) { j.push_back(x); }
   }
   return j;
}

static std::unique_ptr<Mesh> mesh(const json &m)
{
   const int dim = m["dim"];
   std::vector<int> n = m["n"];
   std::vector<double> s;
   for (const auto &x : m["shift"]) { s.push_back(unhex(x)); }
   Mesh base;
   if (dim == 1) { base = Mesh::MakeCartesian1D(n[0], 1.0); }
   else if (dim == 2) { base = Mesh::MakeCartesian2D(n[0], n[1], Element::TRIANGLE, true, 1.0, 1.0, true); }
   else { base = Mesh::MakeCartesian3D(n[0], n[1], n[2], Element::TETRAHEDRON, 1.0, 1.0, 1.0, true); }
   const bool periodic = m["periodic"];
   if (!periodic)
   {
      for (int v = 0; v < base.GetNV(); ++v)
      {
         double *x = base.GetVertex(v);
         for (int d = 0; d < dim; ++d)
         {
            bool inside = true;
            for (int e = 0; e < dim; ++e) { inside = inside && x[e] > 1e-9 && x[e] < 1 - 1e-9; }
            if (inside || m["free"].get<bool>()) { x[d] += s[(dim * v + d) % s.size()]; }
         }
      }
      // one straight domain, stretched and moved
      for (int v = 0; v < base.GetNV(); ++v)
      {
         double *x = base.GetVertex(v);
         for (int d = 0; d < dim; ++d) { x[d] = unhex(m["origin"][d]) + x[d] * unhex(m["size"][d]); }
      }
   }
   else
   {
      std::vector<Vector> tr;
      for (int d = 0; d < dim; ++d)
      {
         Vector t(dim);
         t = 0.0;
         t(d) = 1.0;
         tr.push_back(t);
      }
      auto v2v = base.CreatePeriodicVertexMapping(tr, 1e-12);
      base = Mesh::MakePeriodic(base, v2v);
      GridFunction &x = *base.GetNodes();
      // every vertex is moved: opposite sides alike
      FiniteElementSpace *f = x.FESpace();
      const int nn = x.Size() / dim;
      for (int i = 0; i < nn; ++i)
      {
         double p[3];
         for (int d = 0; d < dim; ++d) { p[d] = x(f->DofToVDof(i, d)); }
         unsigned key = 0;
         for (int d = 0; d < dim; ++d) { key = key * 31 + (static_cast<unsigned>(std::lround(p[d] * n[d])) % n[d]); }
         for (int d = 0; d < dim; ++d) { x(f->DofToVDof(i, d)) = (p[d] + s[(key * dim + d) % s.size()]) * unhex(m["size"][d]) + unhex(m["origin"][d]); }
      }
   }
   if (m["curve"].get<int>() > 1)
   {
      const double a = unhex(m["bend"]);
      if (periodic)
      {
         base.SetCurvature(m["curve"], true);
      }
      else { base.SetCurvature(m["curve"]); }
      GridFunction &x = *base.GetNodes();
      FiniteElementSpace *f = x.FESpace();
      const int nn = x.Size() / dim;
      for (int i = 0; i < nn; ++i)
      {
         double y[3];
         for (int d = 0; d < dim; ++d) { y[d] = (x(f->DofToVDof(i, d)) - unhex(m["origin"][d])) / unhex(m["size"][d]); }
         double b = a;
         for (int d = 0; d < dim; ++d) { b *= std::sin(2 * M_PI * y[d]); }
         for (int d = 0; d < dim; ++d) { x(f->DofToVDof(i, d)) += b * unhex(m["size"][d]); }
      }
   }
   return std::make_unique<Mesh>(std::move(base));
}

// the nodes of the boundary faces one rank owns: weight, normal, state, place
template <int dim>
static json faces(ParMesh &pm, ParFiniteElementSpace &fes, FiniteElementCollection *fec, const Vector &q)
{
   constexpr int ns = dim + 2;
   json bf = json::array();
   ParGridFunction bq(&fes);
   bq.SetFromTrueDofs(q);
   for (int b = 0; b < pm.GetNBE(); ++b)
   {
      auto *ft = pm.GetBdrFaceTransformations(b);
      const auto *ffe = fec->FiniteElementForGeometry(dim == 1 ? Geometry::POINT : dim == 2 ? Geometry::SEGMENT : Geometry::TRIANGLE);
      if (ft == nullptr) { continue; }
      Array<int> dofs;
      fes.GetElementDofs(ft->Elem1No, dofs);
      const auto *sbp = dynamic_cast<const SBPFiniteElement *>(fes.GetFE(ft->Elem1No));
      Vector nrm(dim);
      for (int i = 0; i < ffe->GetDof(); ++i)
      {
         const auto &fip = ffe->GetNodes().IntPoint(i);
         IntegrationPoint ip;
         ft->Loc1.Transform(fip, ip);
         ft->Face->SetIntPoint(&fip);
         if (dim == 1) { nrm(0) = 2 * ip.x - 1; }
         else { CalcOrtho(ft->Face->Jacobian(), nrm); }
         const int node = sbp->getIntegrationPointIndex(ip);
         json nh = json::array(), qh = json::array(), xh = json::array();
         Vector xx(dim);
         ft->Elem1->Transform(ip, xx);
         for (int d = 0; d < dim; ++d) { xh.push_back(hex(xx(d))); }
         for (int d = 0; d < dim; ++d) { nh.push_back(hex(nrm(d))); }
         for (int j = 0; j < ns; ++j) { qh.push_back(hex(bq(fes.DofToVDof(dofs[node], j)))); }
         bf.push_back({{"attr", pm.GetBdrAttribute(b)}, {"w", hex(fip.weight)}, {"n", nh}, {"q", qh}, {"x", xh}});
      }
   }
   return joined(bf);
}

static Vector l2far;
static double l2amp;
template <int dim, bool entvar>
static void l2exact(const Vector &x, Vector &u)
{
   Vector q(dim + 2);
   q = l2far;
   q(0) *= 1 + l2amp * std::sin(3 * x(0));
   q(dim + 1) *= 2 + l2amp * std::cos(2 * x(dim - 1));
   u.SetSize(dim + 2);
   calcEntropyVars<double, dim, false>(q.GetData(), u.GetData());
   if (!entvar) { u = q; }
}

template <int dim, bool entvar>
static void run(const json &sc)
{
   constexpr int ns = dim + 2;
   const json &opt = sc["options"];
   adept::Stack stack;
   auto serial = mesh(sc["mesh"]);
   std::vector<int> part(serial->GetNE());
   for (int e = 0; e < serial->GetNE(); ++e) { part[e] = nranks > 1 ? sc["mesh"]["parts"][e % sc["mesh"]["parts"].size()].get<int>() % nranks : 0; }
   if (nranks > 1) { part[0] = 0; part[serial->GetNE() - 1] = 1; }
   ParMesh pm(MPI_COMM_WORLD, *serial, part.data());
   const std::string basis = opt["space-dis"]["basis-type"];
   std::unique_ptr<FiniteElementCollection> fec;
   const int p = opt["space-dis"]["degree"];
   if (basis == "csbp") { fec = std::make_unique<SBPCollection>(p, dim); }
   else { fec = std::make_unique<DSBPCollection>(p, dim); }
   ParFiniteElementSpace fes(&pm, fec.get(), ns, Ordering::byVDIM);
   std::map<std::string, FiniteElementState> fields;
   json o = opt;
   FlowResidual<dim, entvar> res(o, fes, fields, stack);
   const int n = getSize(res), nodes = n / ns;

   eng.seed(sc["seed"].get<unsigned>() + 7919u * myrank);
   Vector far(ns);
   res.getFreeStreamState(far);
   // coordinates of the nodes
   ParFiniteElementSpace cfes(&pm, fec.get(), dim, Ordering::byVDIM);
   ParGridFunction cgf(&cfes);
   for (int e = 0; e < pm.GetNE(); ++e)
   {
      Array<int> vd;
      cfes.GetElementVDofs(e, vd);
      const auto &ir = cfes.GetFE(e)->GetNodes();
      Vector x(dim);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         cfes.GetElementTransformation(e)->Transform(ir.IntPoint(i), x);
         for (int d = 0; d < dim; ++d) { cgf(vd[d * ir.GetNPoints() + i]) = x(d); }
      }
   }
   Vector xy(cfes.GetTrueVSize());
   cgf.GetTrueDofs(xy);

   for (const auto &c : sc["ops"])
   {
      const std::string op = c["op"];
      // the state: conservative values at the nodes
      Vector q(n), w(n), u(n);
      const std::string st = c["state"];
      const double amp = unhex(c["amp"]), k = unhex(c["k"]);
      for (int i = 0; i < nodes; ++i)
      {
         double *a = q.GetData() + ns * i, *b = w.GetData() + ns * i, *uu = u.GetData() + ns * i;
         for (int j = 0; j < ns; ++j) { a[j] = far(j); }
         double rho = far(0), v[3] = {0, 0, 0}, pr = pressure<double, dim>(a);
         for (int d = 0; d < dim; ++d) { v[d] = far(d + 1) / rho; }
         if (st == "random")
         {
            rho *= 1 + amp * U(-1, 1);
            pr *= 1 + amp * U(-1, 1);
            for (int d = 0; d < dim; ++d) { v[d] += amp * U(-1, 1); }
         }
         else if (st == "uniform")
         {
            rho = unhex(c["rho"]);
            pr = unhex(c["p"]);
            for (int d = 0; d < dim; ++d) { v[d] = unhex(c["v"][d]); }
         }
         else if (st == "wave")
         {  // density linear in space, at constant velocity and pressure
            rho = unhex(c["rho"]);
            pr = unhex(c["p"]);
            for (int d = 0; d < dim; ++d)
            {
               v[d] = unhex(c["v"][d]);
               rho += unhex(c["grad"][d]) * (xy(dim * i + d) - unhex(sc["mesh"]["origin"][d]));
            }
         }
         else if (st == "smooth")
         {
            double f = 1;
            for (int d = 0; d < dim; ++d) { f *= std::sin(2 * M_PI * (xy(dim * i + d) - unhex(sc["mesh"]["origin"][d])) / unhex(sc["mesh"]["size"][d])); }
            rho *= 1 + amp * f;
            pr *= 1 - amp * f * f;
            // off the axes, where |u.n| has a kink
            for (int d = 0; d < dim; ++d) { v[d] += amp * (f * (d - .5) + .07 * (d + 1)); }
         }
         double ke = 0;
         for (int d = 0; d < dim; ++d) { ke += v[d] * v[d]; }
         if (st != "free")
         {
            a[0] = rho;
            for (int d = 0; d < dim; ++d) { a[d + 1] = rho * v[d]; }
            a[dim + 1] = pr / euler::gami + .5 * rho * ke;
         }
         calcEntropyVars<double, dim, false>(a, b);
         if (st == "wlinear")
         {  // entropy variables linear in space
            for (int j = 0; j < ns; ++j)
            {
               double g = 0;
               for (int d = 0; d < dim; ++d) { g += unhex(c["grad"][(d + j) % 3]) * (xy(dim * i + d) - unhex(sc["mesh"]["origin"][d])); }
               b[j] *= 1 + g / (4 * unhex(sc["mesh"]["size"][0]));
            }
            calcConservativeVars<double, dim, true>(b, a);
         }
         for (int j = 0; j < ns; ++j) { uu[j] = entvar ? b[j] : a[j]; }
      }
      json e = {{"event", op}, {"state", st}};
      MISOInputs in{{"state", u}, {"time", k}};
      if (op == "Residual")
      {
         Vector r(n), hd(n), one(n), s(nodes);
         r = 1e30;
         evaluate(res, in, r);
         e["R"] = lists(r, ns);
         e["Q"] = lists(q, ns);
         e["W"] = lists(w, ns);
         e["x"] = lists(xy, dim);
         one = 1.0;
         getMassMatrix(res, o)->Mult(one, hd);
         e["H"] = lists(hd, ns);
         getMassMatrix(res, o)->Mult(u, one);
         e["HU"] = lists(one, ns);
         e["U"] = lists(u, ns);
         for (int i = 0; i < nodes; ++i) { s(i) = entropy<double, dim, entvar>(u.GetData() + ns * i); }
         e["S"] = lists(s, 1)[0];
         e["entropy"] = hex(calcEntropy(res, in));
         Vector dx(n);
         dx = U(-1, 1);
         MISOInputs in2{{"state", u}, {"state_dot", dx}, {"time", k - .25}, {"dt", .25}};
         e["change"] = hex(calcEntropyChange(res, in2));
         e["bdr"] = faces<dim>(pm, fes, fec.get(), q);
         json prod = json::array();
         if (c["grads"].get<bool>())
         {  // at every node of every element: its share of the volume, the state and the gradient of the entropy variables
            ParGridFunction gw(&fes), gq(&fes);
            gw.SetFromTrueDofs(w);
            gq.SetFromTrueDofs(q);
            for (int el = 0; el < pm.GetNE(); ++el)
            {
               Array<int> dofs;
               fes.GetElementDofs(el, dofs);
               auto *T = pm.GetElementTransformation(el);
               const auto *sbp = dynamic_cast<const SBPFiniteElement *>(fes.GetFE(el));
               const auto &ir = sbp->GetNodes();
               const int nn = ir.GetNPoints();
               std::vector<DenseMatrix> D(dim, DenseMatrix(nn, nn));
               for (int d = 0; d < dim; ++d) { sbp->getStrongOperator(d, D[d]); }
               for (int i = 0; i < nn; ++i)
               {
                  T->SetIntPoint(&ir.IntPoint(i));
                  const DenseMatrix &Ji = T->InverseJacobian();
                  json gh = json::array(), qh = json::array();
                  for (int j = 0; j < ns; ++j) { qh.push_back(hex(gq(fes.DofToVDof(dofs[i], j)))); }
                  for (int d = 0; d < dim; ++d)
                  {
                     json row = json::array();
                     for (int j = 0; j < ns; ++j)
                     {
                        double g = 0;
                        for (int k2 = 0; k2 < nn; ++k2)
                           for (int e2 = 0; e2 < dim; ++e2) { g += Ji(e2, d) * D[e2](i, k2) * gw(fes.DofToVDof(dofs[k2], j)); }
                        row.push_back(hex(g));
                     }
                     gh.push_back(row);
                  }
                  prod.push_back({{"h", hex(sbp->getDiagNormEntry(i) * T->Weight())}, {"q", qh}, {"g", gh}});
               }
            }
         }
         e["grads"] = joined(prod);
         json fh = json::array();
         for (int j = 0; j < ns; ++j) { fh.push_back(hex(far(j))); }
         e["far"] = fh;
         e["forces"] = json::array();
         for (const auto &fo : c["outputs"])
         {
            MISOOutput out = res.constructOutput(fo["type"], {{"boundaries", fo["boundaries"]}});
            setInputs(out, in);
            e["forces"].push_back({{"type", fo["type"]}, {"boundaries", fo["boundaries"]}, {"value", hex(calcOutput(out, in))}});
         }
      }
      else if (op == "Jacobian")
      {
         Vector v(n), y(n), jv(n), r(n), t(n);
         for (int i = 0; i < n; ++i) { v(i) = U(-1, 1); y(i) = U(-1, 1); }
         if (entvar)
         {
            for (int i = 0; i < nodes; ++i)
               for (int j = 0; j < ns; ++j) { v(ns * i + j) *= .1 * std::abs(u(ns * i + ns - 1)); }
         }
         setInputs(res, in);
         Operator &J = getJacobian(res, in, "state");
         J.Mult(v, jv);
         e["a"] = lists(y, 1)[0];
         e["post"] = lists(jv, 1)[0];
         e["steps"] = json::array();
         for (double h : {1e-4, 1e-5, 1e-6, 1e-7})
         {
            json F = json::array();
            for (double m : {-2., -1., 1., 2.})
            {
               t = u;
               t.Add(m * h, v);
               MISOInputs ti{{"state", t}, {"time", k}};
               evaluate(res, ti, r);
               F.push_back(lists(r, 1)[0]);
            }
            e["steps"].push_back({{"h", hex(h)}, {"F", F}});
         }
      }
      else if (op == "OutputDeriv")
      {
         MISOOutput out = res.constructOutput(c["type"], {{"boundaries", c["boundaries"]}});
         setInputs(out, in);
         Vector v(n), t(n), g(n);
         for (int i = 0; i < n; ++i) { v(i) = U(-1, 1); }
         if (entvar)
         {
            for (int i = 0; i < nodes; ++i)
               for (int j = 0; j < ns; ++j) { v(ns * i + j) *= .1 * std::abs(u(ns * i + ns - 1)); }
         }
         g = 0.0;
         calcOutputPartial(out, "state", in, g);
         e["type"] = c["type"];
         e["a"] = lists(v, 1)[0];
         e["post"] = lists(g, 1)[0];
         e["steps"] = json::array();
         for (double h : {1e-4, 1e-5, 1e-6, 1e-7})
         {
            json F = json::array();
            for (double m : {-2., -1., 1., 2.})
            {
               t = u;
               t.Add(m * h, v);
               MISOInputs ti{{"state", t}, {"time", k}};
               setInputs(out, ti);
               F.push_back(json::array({hex(calcOutput(out, ti))}));
            }
            e["steps"].push_back({{"h", hex(h)}, {"F", F}});
         }
      }
      else if (op == "TimeStep")
      {
         ParGridFunction gf(&fes);
         gf.SetFromTrueDofs(u);
         e["cfl"] = c["cfl"];
         e["dt"] = hex(res.minCFLTimeStep(unhex(c["cfl"]), gf));
         ParGridFunction gq(&fes);
         gq.SetFromTrueDofs(q);
         json pairs = json::array();
         for (int el = 0; el < pm.GetNE(); ++el)
         {
            Array<int> dofs;
            fes.GetElementDofs(el, dofs);
            auto *T = pm.GetElementTransformation(el);
            const auto &ir = fes.GetFE(el)->GetNodes();
            json xs = json::array(), qs = json::array();
            Vector x(dim);
            for (int i = 0; i < ir.GetNPoints(); ++i)
            {
               T->Transform(ir.IntPoint(i), x);
               json a = json::array(), b = json::array();
               for (int d = 0; d < dim; ++d) { a.push_back(hex(x(d))); }
               for (int j = 0; j < ns; ++j) { b.push_back(hex(gq(fes.DofToVDof(dofs[i], j)))); }
               xs.push_back(a);
               qs.push_back(b);
            }
            pairs.push_back({{"x", xs}, {"q", qs}});
         }
         e["elems"] = joined(pairs);
      }
      else if (op == "L2Error")
      {
         l2far = far;
         l2amp = amp;
         ParGridFunction gf(&fes);
         gf.SetFromTrueDofs(u);
         Vector one(n), hd(n), ex(n), xx(dim), t(ns);
         one = 1.0;
         getMassMatrix(res, o)->Mult(one, hd);
         for (int i = 0; i < nodes; ++i)
         {
            for (int d = 0; d < dim; ++d) { xx(d) = xy(dim * i + d); }
            l2exact<dim, false>(xx, t);
            for (int j = 0; j < ns; ++j) { ex(ns * i + j) = t(j); }
         }
         e["entry"] = c["entry"];
         e["Q"] = lists(q, ns);
         e["E"] = lists(ex, ns);
         e["H"] = lists(hd, ns);
         e["err"] = hex(res.calcConservativeVarsL2Error(gf, l2exact<dim, entvar>, c["entry"].get<int>()));
      }
      else { throw std::runtime_error("op"); }
      emit(e);
   }
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   MPI_Comm_rank(MPI_COMM_WORLD, &myrank);
   MPI_Comm_size(MPI_COMM_WORLD, &nranks);
   auto scn = load(argv[1]);
   trace().open(myrank == 0 ? argv[2] : "/dev/null");
   Quiet quiet;
   for (const auto &sc : scn)
   {
      emit({{"event", "Reset"}});
      emit({{"event", "Problem"}, {"p", sc["p"]}});
      const int dim = sc["mesh"]["dim"];
      const bool ev = sc["options"]["flow-param"]["entropy-state"];
      if (dim == 1 && ev) { run<1, true>(sc); }
      else if (dim == 1) { run<1, false>(sc); }
      else if (dim == 2 && ev) { run<2, true>(sc); }
      else if (dim == 2) { run<2, false>(sc); }
      else if (dim == 3 && ev) { run<3, true>(sc); }
      else { run<3, false>(sc); }
   }
   emit({{"event", "End"}});
}
