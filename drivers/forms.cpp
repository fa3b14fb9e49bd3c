// Forms under a history of inputs: values, products with derivatives, adjoint
// systems.  Every evaluation a derivative is compared with comes from a form
// built anew for that one point.
#include <cmath>
#include <list>
#include <map>
#include <memory>
#include <set>
#include "drv.hpp"
#include "utils.hpp"
#include "coefficient.hpp"
#include "miso_input.hpp"
#include "miso_integrator.hpp"
#include "finite_element_state.hpp"
#include "functional_output.hpp"
#include "miso_linearform.hpp"
#include "miso_nonlinearform.hpp"
#include "mfem_common_integ.hpp"
#include "electromag_integ.hpp"
#include "thermal_integ.hpp"
using namespace drv;
using namespace mfem;

using Val = std::map<std::string, int>;

// a number in [-1,1] that is a function of its arguments only
double rnd(std::uint64_t seed, const std::string &s, int id, int k)
{
   std::uint64_t h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
   for (char c : s) { h = (h ^ (unsigned char)c) * 0x100000001b3ull; }
   h ^= (std::uint64_t)id * 0xD1B54A32D192ED03ull + (std::uint64_t)k * 0x8CB92BA72F3D8DD7ull;
   h ^= h >> 31; h *= 0x7FB5D329728EA185ull; h ^= h >> 27; h *= 0x81DADEF4BC2DD44Dull; h ^= h >> 33;
   return 2.0 * (double)(h >> 11) / 9007199254740992.0 - 1.0;
}

// ---- smooth coefficients with derivatives; g is the gradient in space
struct Space
{
   double c0, g[3];
   double at(ElementTransformation &T, const IntegrationPoint &ip) const
   {
      Vector x(3);
      x = 0.0;
      Vector y(x.GetData(), T.GetSpaceDim());
      T.Transform(ip, y);
      return c0 + g[0] * x(0) + g[1] * x(1) + g[2] * x(2);
   }
   void rev(double bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) const
   {
      auto &iso = dynamic_cast<IsoparametricTransformation &>(T);
      Vector s(iso.GetFE()->GetDof());
      iso.GetFE()->CalcShape(ip, s);
      for (int j = 0; j < s.Size(); ++j)
         for (int d = 0; d < T.GetSpaceDim(); ++d) { P(d, j) += bar * g[d] * s(j); }
   }
};
struct Pos : Coefficient
{
   Space f;
   explicit Pos(Space f) : f(f) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return f.at(T, ip); }
   void EvalRevDiff(const double bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override { f.rev(bar, T, ip, P); }
};
struct VPos : VectorCoefficient
{
   std::vector<Space> f;
   VPos(int d, std::vector<Space> f) : VectorCoefficient(d), f(f) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v(i) = f[i].at(T, ip); }
   }
   void EvalRevDiff(const Vector &bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      for (int i = 0; i < vdim; ++i) { f[i].rev(bar(i), T, ip, P); }
   }
};
// w(s) = 1 + a s^2 / (2 (1 + s^2)) : even, smooth, positive for |a| < 1
double w0(double a, double s) { return 1.0 + 0.5 * a * s * s / (1.0 + s * s); }
double w1(double a, double s) { double q = 1.0 + s * s; return a * s / (q * q); }
double w2(double a, double s) { double q = 1.0 + s * s; return a * (1.0 - 3.0 * s * s) / (q * q * q); }
struct SC : miso::StateCoefficient
{
   Space f;
   double a;
   SC(Space f, double a) : f(f), a(a) { }
   using miso::StateCoefficient::Eval;
   using miso::StateCoefficient::EvalRevDiff;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return f.at(T, ip) * w0(a, s); }
   double EvalStateDeriv(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return f.at(T, ip) * w1(a, s); }
   double EvalState2ndDeriv(ElementTransformation &T, const IntegrationPoint &ip, const double s) override { return f.at(T, ip) * w2(a, s); }
   void EvalRevDiff(double bar, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override { f.rev(bar * w0(a, s), T, ip, P); }
};
struct VSC : miso::VectorStateCoefficient
{
   std::vector<Space> f;
   double a;
   VSC(int d, std::vector<Space> f, double a) : miso::VectorStateCoefficient(d), f(f), a(a) { }
   using miso::VectorStateCoefficient::Eval;
   using miso::VectorStateCoefficient::EvalRevDiff;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v(i) = f[i].at(T, ip) * w0(a, s); }
   }
   void EvalStateDeriv(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v(i) = f[i].at(T, ip) * w1(a, s); }
   }
   void EvalRevDiff(const Vector &bar, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      for (int i = 0; i < vdim; ++i) { f[i].rev(bar(i) * w0(a, s), T, ip, P); }
   }
};
struct TC : miso::ThreeStateCoefficient
{
   Space f;
   double a, b, c;
   TC(Space f, double a, double b, double c) : f(f), a(a), b(b), c(c) { }
   using miso::ThreeStateCoefficient::Eval;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double x, double y, double z) override { return f.at(T, ip) * w0(a, x) * w0(b, y) * w0(c, z); }
   double EvalDerivS1(ElementTransformation &T, const IntegrationPoint &ip, double x, double y, double z) override { return f.at(T, ip) * w1(a, x) * w0(b, y) * w0(c, z); }
   double EvalDerivS2(ElementTransformation &T, const IntegrationPoint &ip, double x, double y, double z) override { return f.at(T, ip) * w0(a, x) * w1(b, y) * w0(c, z); }
   double EvalDerivS3(ElementTransformation &T, const IntegrationPoint &ip, double x, double y, double z) override { return f.at(T, ip) * w0(a, x) * w0(b, y) * w1(c, z); }
   void EvalRevDiff(const double bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override { mfem_error("TC::EvalRevDiff"); (void)bar; (void)T; (void)ip; (void)P; }
};

struct World
{
   json c;
   std::uint64_t seed;
   std::unique_ptr<ParMesh> mesh;
   std::map<std::string, std::unique_ptr<FiniteElementCollection>> fecs;
   std::map<std::string, std::unique_ptr<ParFiniteElementSpace>> fess;
   std::map<std::string, miso::FiniteElementState> fields;
   std::list<std::unique_ptr<Coefficient>> coefs;
   std::list<std::unique_ptr<VectorCoefficient>> vcoefs;
   Coefficient *rho = nullptr;
   std::unique_ptr<miso::MISONonlinearForm> res;
   std::unique_ptr<miso::MISOLinearForm> load;
   std::unique_ptr<miso::FunctionalOutput> fun;
   Vector nodes;
   std::string kind, sname = "state";
   std::set<std::string> scalars;
   int ncoef = 0, dim;

   Space space(bool vary = true)
   {
      ++ncoef;
      Space f{1.0 + 0.3 * rnd(seed, "coef", ncoef, 0), {0, 0, 0}};
      if (vary)
         for (int d = 0; d < dim; ++d) { f.g[d] = 0.2 * rnd(seed, "coef", ncoef, 1 + d); }
      return f;
   }
   template <typename T, typename... A>
   T &coef(A... a)
   {
      auto p = std::make_unique<T>(a...);
      T &r = *p;
      coefs.push_back(std::move(p));
      return r;
   }
   template <typename T, typename... A>
   T &vcoef(A... a)
   {
      auto p = std::make_unique<T>(a...);
      T &r = *p;
      vcoefs.push_back(std::move(p));
      return r;
   }
   std::vector<Space> spaces(bool vary = true)
   {
      std::vector<Space> f;
      for (int i = 0; i < 3; ++i) { f.push_back(space(vary)); }
      return f;
   }
   ParFiniteElementSpace &fes(const std::string &name, const std::string &fam, int p)
   {
      FiniteElementCollection *f = fam == "H1" ? (FiniteElementCollection *)new H1_FECollection(p, dim)
                                   : fam == "L2" ? (FiniteElementCollection *)new L2_FECollection(p, dim)
                                                 : (FiniteElementCollection *)new ND_FECollection(p, dim);
      fecs[name].reset(f);
      fess[name] = std::make_unique<ParFiniteElementSpace>(mesh.get(), f);
      return *fess[name];
   }
   explicit World(const json &cfg) : c(cfg), seed(cfg["seed"].get<std::uint64_t>())
   {
      std::string el = c["el"];
      dim = el == "tri" || el == "quad" ? 2 : 3;
      auto t = el == "tri" ? Element::TRIANGLE : el == "quad" ? Element::QUADRILATERAL : el == "tet" ? Element::TETRAHEDRON : Element::HEXAHEDRON;
      Mesh base = dim == 2 ? Mesh::MakeCartesian2D(2, el == "tri" ? 1 : 2, t, true) : el == "tet" ? Mesh::MakeCartesian3D(1, 1, 1, t) : Mesh::MakeCartesian3D(2, 1, 1, t);
      int nd = c["nd"], nb = c["nb"];
      for (int i = 0; i < base.GetNE(); ++i) { base.SetAttribute(i, 1 + i % nd); }
      std::vector<int> inner;
      for (int f = 0; f < base.GetNumFaces(); ++f)
      {
         int a, b;
         base.GetFaceElements(f, &a, &b);
         if (b >= 0 && c["internal"].get<bool>() && (inner.empty() || rnd(seed, "inner", f, 0) < 0.0)) { inner.push_back(f); }
      }
      Mesh m(dim, base.GetNV(), base.GetNE(), base.GetNBE() + inner.size());
      for (int i = 0; i < base.GetNV(); ++i)
      {
         double *v = base.GetVertex(i);
         for (int d = 0; d < dim; ++d) { v[d] += 0.08 * rnd(seed, "vertex", i, d); }
         m.AddVertex(v);
      }
      for (int i = 0; i < base.GetNE(); ++i) { m.AddElement(base.GetElement(i)->Duplicate(&m)); }
      int nbe = 0;
      for (int i = 0; i < base.GetNBE(); ++i)
      {
         auto *e = base.GetBdrElement(i)->Duplicate(&m);
         e->SetAttribute(1 + nbe++ % nb);
         m.AddBdrElement(e);
      }
      for (int f : inner)
      {
         auto *e = base.GetFace(f)->Duplicate(&m);
         e->SetAttribute(1 + nbe++ % nb);
         m.AddBdrElement(e);
      }
      m.FinalizeTopology();
      m.Finalize(false, true);
      mesh = std::make_unique<ParMesh>(MPI_COMM_WORLD, m);
      mesh->SetCurvature(c["curve"].get<int>(), false, dim, Ordering::byNODES);
      auto &ngf = *dynamic_cast<ParGridFunction *>(mesh->GetNodes());
      auto &nfes = *ngf.ParFESpace();
      fields.emplace(std::piecewise_construct, std::forward_as_tuple("mesh_coords"), std::forward_as_tuple(*mesh, nfes, "mesh_coords"));
      auto &mc = fields.at("mesh_coords");
      mc.gridFunc() = ngf;
      mesh->NewNodes(mc.gridFunc(), false);
      mc.setTrueVec(nodes);
      std::string fam = c["fam"];
      int p = c["p"];
      auto &sfes = fes("state", fam, p);
      auto add = [&](const std::string &n, ParFiniteElementSpace &s) { fields.emplace(std::piecewise_construct, std::forward_as_tuple(n), std::forward_as_tuple(*mesh, s, n)); };
      add("state", sfes);
      for (auto &[n, f] : c["fields"].items())
      {
         if (n == "dirichlet_bc") { add(n, sfes); }
         else if (n == "v") { add(n, mc.space()); }
         else { add(n, fes(n, f["fam"], f["p"])); }
      }
      for (auto &[n, f] : fields)
         if (n != "mesh_coords") { f.gridFunc() = 0.0; }
      kind = c["kind"];
      sname = c["sname"];
      auto &ffes = fields.at(sname).space();
      if (kind == "residual") { res = std::make_unique<miso::MISONonlinearForm>(ffes, fields); }
      else if (kind == "load") { load = std::make_unique<miso::MISOLinearForm>(ffes, fields); }
      else { fun = std::make_unique<miso::FunctionalOutput>(ffes, fields, sname); }
      for (auto &[n, f] : fields)
         if (n == "adjoint") { f.gridFunc() = 0.0; }
      for (auto &t : c["terms"]) { term(t); }
      json o = json::object();
      if (!c["ess"].empty()) { o["bcs"] = {{"essential", c["ess"]}}; }
      if (c.contains("rho")) { o["rho"] = c["rho"]; }
      if (res) { setOptions(*res, o); }
      else if (load) { setOptions(*load, o); }
      else { setOptions(*fun, o); }
   }
   ~World()
   {
      res.reset();
      load.reset();
      fun.reset();
   }
   template <typename T>
   void domain(T *i, const json &m)
   {
      bool all = m.is_null();
      std::vector<int> a = all ? std::vector<int>{} : m.get<std::vector<int>>();
      if constexpr (std::is_base_of_v<LinearFormIntegrator, T> && !std::is_base_of_v<NonlinearFormIntegrator, T>)
      {
         if (all) { load->addDomainIntegrator(i); }
         else { load->addDomainIntegrator(i, a); }
      }
      else if (res)
      {
         if (all) { res->addDomainIntegrator(i); }
         else { res->addDomainIntegrator(i, a); }
      }
      else
      {
         if (all) { fun->addOutputDomainIntegrator(i); }
         else { fun->addOutputDomainIntegrator(i, a); }
      }
   }
   template <typename T>
   void bdr(T *i, const json &m)
   {
      bool all = m.is_null();
      std::vector<int> a = all ? std::vector<int>{} : m.get<std::vector<int>>();
      if (res)
      {
         if (all) { res->addBdrFaceIntegrator(i); }
         else { res->addBdrFaceIntegrator(i, a); }
      }
      else
      {
         if (all) { fun->addOutputBdrFaceIntegrator(i); }
         else { fun->addOutputBdrFaceIntegrator(i, a); }
      }
   }
   template <typename T>
   void face(T *i, const std::string &place, const json &m)
   {
      if (place == "interior") { res->addInteriorFaceIntegrator(i); }
      else if (m.is_null()) { res->addInternalBoundaryFaceIntegrator(i); }
      else { res->addInternalBoundaryFaceIntegrator(i, m.get<std::vector<int>>()); }
   }
   void term(const json &t)
   {
      std::string ty = t["type"], place = t["place"], name = t["name"];
      const json &m = t["attrs"];
      double a = unhex(t["alpha"]);
      bool vary = t["vary"];
      auto gf = [&](const char *n) -> GridFunction & { return fields.at(n).gridFunc(); };
      auto sc = [&]() -> SC & { return coef<SC>(space(vary), 0.8 * rnd(seed, "sc", ncoef, 9)); };
      auto q = [&](const char *n) { scalars.insert(name.empty() ? n : std::string(n) + ":" + name); };
      if (ty == "Diffusion") { domain(new miso::NonlinearDiffusionIntegrator(sc(), a), m); }
      else if (ty == "DGDiffusion") { auto &s = sc(); bdr(new miso::NonlinearDGDiffusionIntegrator(s, coef<Pos>(space(vary)), 10.0, a), m); }
      else if (ty == "DGInterior") { face(new miso::DGInteriorFaceDiffusionIntegrator(sc(), 10.0, a), place, m); }
      else if (ty == "CurlCurl") { domain(new miso::CurlCurlNLFIntegrator(sc(), a), m); }
      else if (ty == "Contact") { q("h"); face(new miso::ThermalContactResistanceIntegrator(unhex(t["d1"]), name, a), place, m); }
      else if (ty == "Interface") { q("h"); q("fluid_temp"); face(new miso::InternalConvectionInterfaceIntegrator(unhex(t["d1"]), unhex(t["d2"]), name, a), place, m); }
      else if (ty == "Convection") { scalars.insert({"h", "fluid_temp"}); bdr(new miso::ConvectionBCIntegrator(unhex(t["d1"]), unhex(t["d2"]), a), m); }
      else if (ty == "Outflux") { scalars.insert("outflux"); bdr(new miso::OutfluxBCIntegrator(unhex(t["d1"]), a), m); }
      else if (ty == "L2Projection") { domain(new miso::L2ProjectionIntegrator(coef<Pos>(space(vary)), a), m); }
      else if (ty == "DomainLF") { domain(new miso::DomainLFIntegrator(coef<Pos>(space(vary)), a), m); }
      else if (ty == "Magnetization") { domain(new miso::MagnetizationSource2DIntegrator(vcoef<VSC>(dim, spaces(vary), 0.7), gf("temperature"), a), m); }
      else if (ty == "DCLossLoad")
      {
         scalars.insert({"wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length", "winding_volume"});
         domain(new miso::DCLossDistributionIntegrator(sc(), gf("temperature")), m);
      }
      else if (ty == "ACLossLoad")
      {
         scalars.insert({"frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots", "winding_volume"});
         domain(new miso::ACLossDistributionIntegrator(gf("peak_flux"), gf("temperature"), sc()), m);
      }
      else if (ty == "CAL2Load" || ty == "CAL2")
      {
         scalars.insert("frequency");
         auto &r = coef<Pos>(space(vary));
         auto &kh = coef<TC>(space(false), 0.5, 0.4, 0.6), &ke = coef<TC>(space(false), -0.5, 0.7, -0.3);
         if (ty == "CAL2") { domain(new miso::CAL2CoreLossIntegrator(r, kh, ke, gf("peak_flux"), gf("temperature")), m); }
         else { domain(new miso::CAL2CoreLossDistributionIntegrator(r, kh, ke, gf("peak_flux"), gf("temperature")), m); }
      }
      else if (ty == "SteinmetzLoad" || ty == "Steinmetz")
      {
         scalars.insert("frequency");
         q("max_flux_magnitude");
         auto &r = coef<Pos>(space(vary)), &k = coef<Pos>(space(vary)), &al = coef<Pos>(space(vary)), &be = coef<Pos>(space(vary));
         if (ty == "Steinmetz") { domain(new miso::SteinmetzLossIntegrator(r, k, al, be, name), m); }
         else { scalars.insert("stack_length"); domain(new miso::SteinmetzLossDistributionIntegrator(r, k, al, be, name), m); }
      }
      else if (ty == "BoundaryNormal") { bdr(new miso::BoundaryNormalIntegrator(coef<Pos>(space(vary))), m); }
      else if (ty == "Volume") { if (vary) { rho = &coef<Pos>(space(false)); } domain(new miso::VolumeIntegrator(&rho), m); }
      else if (ty == "State") { domain(new miso::StateIntegrator, m); }
      else if (ty == "MagCurl") { domain(new miso::MagnitudeCurlStateIntegrator, m); }
      else if (ty == "IENum") { scalars.insert("true_max"); domain(new miso::IEAggregateIntegratorNumerator(unhex(t["d1"])), m); }
      else if (ty == "IEDen") { scalars.insert("true_max"); domain(new miso::IEAggregateIntegratorDenominator(unhex(t["d1"])), m); }
      else if (ty == "IECurlNum") { domain(new miso::IECurlMagnitudeAggregateIntegratorNumerator(unhex(t["d1"])), m); }
      else if (ty == "IECurlDen") { domain(new miso::IECurlMagnitudeAggregateIntegratorDenominator(unhex(t["d1"])), m); }
      else if (ty == "Energy") { domain(new miso::MagneticEnergyIntegrator(sc()), m); }
      else if (ty == "DCLoss") { domain(new miso::DCLossFunctionalIntegrator(sc(), gf("temperature")), m); }
      else if (ty == "ACLoss") { domain(new miso::ACLossFunctionalIntegrator(sc(), gf("temperature")), m); }
      else if (ty == "Force3") { domain(new miso::ForceIntegrator3(sc(), gf("v")), m); }
      else if (ty == "Force") { domain(new miso::ForceIntegrator(sc(), gf("v")), m); }
      else { std::fprintf(stderr, "term %s\n", ty.c_str()); std::exit(97); }
   }
   bool field(const std::string &n) const { return fields.count(n) != 0; }
   int size(const std::string &n) { return field(n) ? fields.at(n).space().GetTrueVSize() : 1; }
   // the value an input has under an identity
   Vector value(const std::string &n, int id)
   {
      Vector v(size(n));
      for (int k = 0; k < v.Size(); ++k)
      {
         double r = rnd(seed, n, id, k);
         v(k) = n == "mesh_coords" ? nodes(k) + 0.03 * r : n == "state" ? r : n == "temperature" ? 0.8 + 0.4 * r : n == "peak_flux" ? 1.0 + 0.4 * r
                : n == "dirichlet_bc" || n == "v" ? r : 1.0 + 0.5 * r;
      }
      return v;
   }
   Vector direction(const std::string &n, int id)
   {
      Vector v(size(n));
      for (int k = 0; k < v.Size(); ++k) { v(k) = (n == "mesh_coords" ? 0.1 : 1.0) * rnd(seed, "d" + n, id, k); }
      if (!field(n)) { v = 1.0; }
      return v;
   }
   // holds the vectors the inputs refer to
   std::map<std::string, Vector> held;
   miso::MISOInputs inputs(const std::map<std::string, Vector> &x)
   {
      held = x;
      miso::MISOInputs in;
      for (auto &[n, v] : held)
      {
         if (field(n)) { in.emplace(n, miso::InputVector(v)); }
         else { in.emplace(n, v(0)); }
      }
      return in;
   }
   void set(const miso::MISOInputs &in)
   {
      if (res) { setInputs(*res, in); }
      else if (load) { setInputs(*load, in); }
      else { setInputs(*fun, in); }
   }
   int outSize() { return fun ? 1 : fields.at(sname).space().GetTrueVSize(); }
   // value with everything in x set; pre is what a load is added to
   Vector eval(const miso::MISOInputs &in, const Vector &pre)
   {
      Vector out(outSize());
      if (res) { out = 7.0; evaluate(*res, in, out); }
      else if (load) { out = pre; addLoad(*load, out); }
      else { out(0) = calcOutput(*fun, in); }
      return out;
   }
   Array<int> ess()
   {
      Array<int> none;
      return res ? res->getEssentialDofs() : load ? load->getEssentialDofs() : none;
   }
};

struct Direct : Solver
{
   DenseMatrix A;
   void SetOperator(const Operator &op) override
   {
      height = width = op.Height();
      A.SetSize(height);
      Vector e(height), y(height);
      for (int i = 0; i < height; ++i)
      {
         e = 0.0;
         e(i) = 1.0;
         op.Mult(e, y);
         for (int k = 0; k < height; ++k) { A(k, i) = y(k); }
      }
   }
   void Mult(const Vector &b, Vector &x) const override
   {
      // Gaussian elimination; a singular system gives not-a-number
      DenseMatrix M(A);
      Vector c(b);
      int n = height;
      for (int k = 0; k < n; ++k)
      {
         int p = k;
         for (int i = k; i < n; ++i)
            if (std::abs(M(i, k)) > std::abs(M(p, k))) { p = i; }
         if (!(std::abs(M(p, k)) > 1e-10)) { x = std::nan(""); return; }
         for (int j = 0; j < n; ++j) { std::swap(M(k, j), M(p, j)); }
         std::swap(c(k), c(p));
         for (int i = k + 1; i < n; ++i)
         {
            double f = M(i, k) / M(k, k);
            for (int j = k; j < n; ++j) { M(i, j) -= f * M(k, j); }
            c(i) -= f * c(k);
         }
      }
      for (int k = n - 1; k >= 0; --k)
      {
         for (int j = k + 1; j < n; ++j) { c(k) -= M(k, j) * c(j); }
         c(k) /= M(k, k);
      }
      x = c;
   }
};

json ids(const Val &v)
{
   json j = json::object();
   for (auto &[n, i] : v) { j[n] = i; }
   return j;
}

struct Run
{
   json cfg;
   std::unique_ptr<World> A;
   Val val, lin;
   bool hasLin = false;
   int n = 0;

   std::map<std::string, Vector> at(World &w, const Val &v, const std::string &wrt = "", int dir = 0, double h = 0.0)
   {
      std::map<std::string, Vector> x;
      for (auto &[k, i] : v)
      {
         if (i == 0 && k != wrt) { continue; }
         Vector y = w.value(k, i);
         if (i == 0) { y = base(w, k); }
         if (k == wrt) { y.Add(h, w.direction(k, dir)); }
         x.emplace(k, y);
      }
      return x;
   }
   // what an input is before it is first set
   Vector base(World &w, const std::string &k)
   {
      Vector v(w.size(k));
      if (k == "mesh_coords") { v = w.nodes; }
      else if (w.field(k)) { v = 0.0; }
      else { v = unhex(cfg["defaults"].value(k, hex(1.0))); }
      return v;
   }
   Vector fresh(const Val &v, const std::string &wrt = "", int dir = 0, double h = 0.0)
   {
      World w(cfg);
      auto x = at(w, v, wrt, dir, h);
      for (auto &nm : {std::string("state"), w.sname})
         if (!x.count(nm)) { x.emplace(nm, base(w, nm)); }
      auto in = w.inputs(x);
      w.set(in);
      Vector zero(w.outSize());
      zero = 0.0;
      return w.eval(in, zero);
   }
   json points(const Val &v, const std::string &wrt, int dir, double h)
   {
      json j = json::array();
      for (double s : {1.0, -1.0, 2.0, -2.0}) { j.push_back(hex(fresh(v, wrt, dir, s * h))); }
      return j;
   }
   json all(const Vector &v) { return hex(v); }
   Vector random(const char *s, int size, int id)
   {
      Vector v(size);
      for (int k = 0; k < size; ++k) { v(k) = rnd(A->seed, s, id, k); }
      return v;
   }

   void op(const json &c)
   {
      std::string o = c["op"];
      if (o == "form")
      {
         cfg = c;
         A = std::make_unique<World>(c);
         val.clear();
         hasLin = false;
         json fs = json::array(), ss = json::array(), es = json::array();
         for (auto &[k, f] : A->fields)
            if (k != "adjoint" && k != "state_dot") { fs.push_back(k); val[k] = 0; }
         for (auto &k : A->scalars) { ss.push_back(k); val[k] = 0; }
         for (int i : A->ess()) { es.push_back(i + 1); }
         emit({{"event", "Form"}, {"kind", A->kind}, {"fields", fs}, {"scalars", ss}, {"ess", es}, {"n", A->outSize()}, {"bc", A->field("dirichlet_bc")}});
         return;
      }
      if (!A) { return; }
      int k = c["k"];
      if (o == "set")
      {
         Val ch;
         std::map<std::string, Vector> x;
         for (auto &nm : c["names"])
         {
            if (!val.count(nm)) { continue; }
            ch[nm] = k;
            x.emplace(nm, A->value(nm, k));
         }
         if (c["extra"].get<bool>()) { x.emplace("unknown", A->value("unknown", k)); }
         if (c["split"].get<bool>())
         {
            // the same inputs one call at a time, last first
            for (auto it = x.rbegin(); it != x.rend(); ++it)
            {
               auto in = A->inputs({{it->first, it->second}});
               A->set(in);
            }
         }
         else
         {
            auto in = A->inputs(x);
            A->set(in);
            for (auto &[nm, v] : x)
               for (int i = 0; i < v.Size(); ++i)
                  if (A->held.at(nm)(i) != v(i)) { emit({{"event", "Changed"}, {"name", nm}}); return; }
         }
         for (auto &[nm, v] : A->held) { v = 1e30; }   // what was given may change afterwards
         for (auto &[nm, i] : ch) { val[nm] = i; }
         emit({{"event", "Set"}, {"set", ids(ch)}});
      }
      else if (o == "value")
      {
         std::map<std::string, Vector> x;
         auto full = at(*A, val);
         Vector st = val.at("state") ? full.at("state") : base(*A, "state");
         x.emplace("state", st);
         if (A->sname != "state") { x.emplace(A->sname, val.at(A->sname) ? full.at(A->sname) : base(*A, A->sname)); }
         Val ch;
         if (A->fun)
         {
            // outputs take their inputs from the call
            for (auto &nm : c["names"])
               if (val.count(nm)) { ch[nm] = k; x[nm] = A->value(nm, k); }
            // a state that is not given is the one last set
            for (auto &nm : {std::string("state"), A->sname})
               if (!ch.count(nm) && k % 2) { ch[nm] = val.at(nm); }
               else if (!ch.count(nm)) { x.erase(nm); }
            for (auto &[nm, i] : ch) { val[nm] = i; }
         }
         auto in = A->inputs(x);
         Vector pre = random("pre", A->outSize(), k);
         Vector got = A->eval(in, pre);
         if (!A->load) { pre = 0.0; }
         Vector fr = fresh(val);
         Vector bc = A->field("dirichlet_bc") ? (val.at("dirichlet_bc") ? A->value("dirichlet_bc", val.at("dirichlet_bc")) : base(*A, "dirichlet_bc")) : Vector();
         json at_ = ids(val);
         emit({{"event", "Value"}, {"set", ids(ch)}, {"at", at_}, {"pre", hex(pre)}, {"got", hex(got)}, {"fresh", hex(fr)},
               {"state", A->res ? hex(x.at("state")) : json::array()}, {"bc", A->res ? hex(bc) : json::array()}});
      }
      else if (o == "lin" && A->res)
      {
         auto full = at(*A, val);
         if (!full.count("state")) { full.emplace("state", base(*A, "state")); }
         Val ch;
         if (c["how"] == "linearize")
         {
            for (auto &nm : c["names"])
               if (val.count(nm)) { ch[nm] = k; full[nm] = A->value(nm, k); }
            for (auto &[nm, i] : ch) { val[nm] = i; }
            linearize(*A->res, A->inputs(full));
         }
         else { getJacobian(*A->res, A->inputs(full), "state"); }
         lin = val;
         hasLin = true;
         emit({{"event", "Lin"}, {"how", c["how"]}, {"set", ids(ch)}});
      }
      else if (o == "deriv") { deriv(c, k); }
      else if (o == "adjoint" && A->res && hasLin)
      {
         int s = A->outSize();
         Vector sb = random("sb", s, k), psi = random("psi", s, k), sb0 = sb;
         Direct d;
         auto full = at(*A, val);
         if (!full.count("state")) { full.emplace("state", base(*A, "state")); }
         auto in = A->inputs(full);
         setUpAdjointSystem(*A->res, d, in, sb, psi);
         d.Mult(sb, psi);
         if (!(psi.Normlinf() < 1e5)) { return; }
         finalizeAdjointSystem(*A->res, d, in, sb, psi);
         emit({{"event", "Adjoint"}, {"at", ids(lin)}, {"sb", hex(sb0)}, {"psi", hex(psi)}, {"h", hex(1.0 / 512)}, {"d", hex(A->direction("state", k))},
               {"F", points(lin, "state", k, 1.0 / 512)}});
      }
      else if (o == "missing" && !A->load)
      {
         std::string err;
         Vector out(A->outSize()), y(A->size("state"));
         out = 0.0;
         y = 0.0;
         miso::MISOInputs in{{"unknown", 1.0}};
         try
         {
            if (A->res && c["how"] == "product" && !hasLin) { jacobianVectorProduct(*A->res, y, "state", out); }
            else if (A->res && c["how"] == "jac") { getJacobian(*A->res, in, "state"); }
            else if (A->res) { evaluate(*A->res, in, out); }
            else { calcOutputPartial(*A->fun, "state", in, y); }
         }
         catch (const miso::MISOException &) { err = "MISOException"; }
         catch (const std::exception &e) { err = "other"; }
         emit({{"event", "Missing"}, {"err", err}});
      }
   }
   void deriv(const json &c, int k)
   {
      std::string wrt = c["wrt"], mode = c["mode"], key = wrt;
      if (!val.count(wrt)) { return; }
      bool vec = A->field(wrt);
      double h = 1.0 / 512;
      int n = A->outSize();
      Vector y = random("y", n, k), a, pre, post;
      Val where = val;
      Val ch;
      std::string err;
      try
      {
         if (A->fun)
         {
            if (mode == "partial" && vec)
            {
               auto full = at(*A, val);
               for (auto &nm : c["names"])
                  if (val.count(nm)) { ch[nm] = k; full[nm] = A->value(nm, k); }
               if (!full.count("state")) { full.emplace("state", base(*A, "state")); }
               for (auto &[nm, i] : ch) { val[nm] = i; }
               where = val;
               post.SetSize(A->size(wrt));
               post = 3.0;
               calcOutputPartial(*A->fun, wrt, A->inputs(full), post);
               pre.SetSize(post.Size());
               pre = 0.0;
               a = A->direction(wrt, k);
               y = 1.0;
            }
            else if (mode == "jvp")
            {
               Vector d = A->direction(wrt, k), got(1), z(1), one(1);
               d *= vec ? 1.0 : 1.5;
               got(0) = jacobianVectorProduct(*A->fun, d, wrt);
               if (!vec) { got(0) /= 1.5; }
               z = 0.0;
               one = 1.0;
               pre = z;
               post = got;
               a = one;
               y = 1.0;
            }
            else
            {
               if (vec)
               {
                  pre = random("pre", A->size(wrt), k);
                  post = pre;
                  vectorJacobianProduct(*A->fun, y, wrt, post);
                  a = A->direction(wrt, k);
               }
               else
               {
                  pre.SetSize(1);
                  pre = 0.0;
                  post.SetSize(1);
                  post(0) = vectorJacobianProduct(*A->fun, y, wrt);
                  a.SetSize(1);
                  a = 1.0;
               }
            }
         }
         else if (wrt == "state" && A->res)
         {
            if (!hasLin) { return; }
            where = lin;
            if (mode == "jvp")
            {
               pre = random("pre", n, k);
               post = pre;
               jacobianVectorProduct(*A->res, A->direction(wrt, k), wrt, post);
               a = y;
            }
            else
            {
               pre = random("pre", n, k);
               post = pre;
               vectorJacobianProduct(*A->res, y, wrt, post);
               a = A->direction(wrt, k);
            }
         }
         else if (vec)
         {
            pre = random("pre", A->size(wrt), k);
            post = pre;
            if (A->res) { vectorJacobianProduct(*A->res, y, wrt, post); }
            else { vectorJacobianProduct(*A->load, y, wrt, post); }
            a = A->direction(wrt, k);
         }
         else
         {
            pre.SetSize(1);
            pre = 0.0;
            post.SetSize(1);
            post(0) = A->res ? vectorJacobianProduct(*A->res, y, wrt) : vectorJacobianProduct(*A->load, y, wrt);
            a.SetSize(1);
            a = 1.0;
         }
      }
      catch (const std::exception &e) { err = e.what(); }
      json d = {{"event", "Deriv"}, {"mode", mode}, {"wrt", wrt}, {"set", ids(ch)}, {"at", ids(where)}, {"err", err}, {"h", hex(h)}, {"y", hex(y)},
                {"a", hex(a)}, {"pre", hex(pre)}, {"post", hex(post)}, {"F", json::array()}};
      if (err.empty()) { d["F"] = points(where, wrt, k, h); }
      emit(d);
   }
};

int main(int argc, char *argv[])
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   std::cout.setstate(std::ios::failbit);
   for (auto &s : scn)
   {
      emit({{"event", "Reset"}});
      Run r;
      for (auto &c : s["cmds"]) { r.op(c); }
   }
   emit({{"event", "End"}});
   return 0;
}
