// Drives FirstOrderODE with every integrator it offers. The solver behind it
// is either scripted (arbitrary slopes), an exact solver for a smooth flow, or
// the library's TimeDependentResidual under a real Newton/GMRES solver.
#include "drv.hpp"
#include "ode.hpp"
#include "mfem_extensions.hpp"
using namespace drv;
using namespace miso;

static std::mt19937_64 eng;
static double U(double a, double b) { return a + (b - a) * ((eng() >> 11) * 0x1.0p-53); }

struct Problem
{
   int n;
   mfem::DenseMatrix W;  // linear part
   double cub = 0, forc = 0;
   std::string ent;
   mfem::Vector P;
   void F(const mfem::Vector &u, double t, mfem::Vector &f) const
   {
      f.SetSize(n);
      W.Mult(u, f);
      for (int i = 0; i < n; ++i) { f(i) += -cub * u(i) * u(i) * u(i) + forc * std::cos(t + i); }
   }
   double S(const mfem::Vector &u) const
   {
      double s = 0;
      for (int i = 0; i < n; ++i)
      {
         double v = u(i);
         if (ent == "quad") s += P(i) * v * v / 2;
         if (ent == "exp") s += P(i) * std::exp(v);
         if (ent == "quartic") s += P(i) * v * v * v * v / 4;
         if (ent == "log") s += -P(i) * std::log(v + 1.5);
         if (ent == "flat") s += 3.25;
      }
      return s;
   }
   double w(int i, double v) const
   {
      if (ent == "quad") return P(i) * v;
      if (ent == "exp") return P(i) * std::exp(v);
      if (ent == "quartic") return P(i) * v * v * v;
      if (ent == "log") return -P(i) / (v + 1.5);
      return 0.0;
   }
};

// what the residual was last told
struct Told
{
   mfem::Vector y;
   double h = NAN, time = NAN;
};
static Told told;

struct Res
{
   const Problem *p;
   mfem::DenseMatrix J;
};
int getSize(const Res &r) { return r.p->n; }
void setInputs(Res &, const MISOInputs &in)
{
   setVectorFromInputs(in, "state", told.y, true);
   setValueFromInputs(in, "dt", told.h);
   setValueFromInputs(in, "time", told.time);
}
void setOptions(Res &, const json &) {}
// spatial residual R = -F
void evaluate(Res &r, const MISOInputs &in, mfem::Vector &out)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, false, true);
   r.p->F(u, told.time, out);
   out *= -1.0;
}
mfem::Operator &getJacobian(Res &r, const MISOInputs &in, const std::string &)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, false, true);
   r.J = r.p->W;
   r.J *= -1.0;
   for (int i = 0; i < r.p->n; ++i) { r.J(i, i) += 3 * r.p->cub * u(i) * u(i); }
   return r.J;
}
double calcEntropy(Res &r, const MISOInputs &in)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, true, true);
   double s = r.p->S(u);
   emit({{"event", "Entropy"}, {"y", hex(u)}, {"s", hex(s)}});
   return s;
}
double calcEntropyChange(Res &r, const MISOInputs &in)
{
   mfem::Vector u, k;
   double h = NAN, t = NAN, d = 0;
   setVectorFromInputs(in, "state", u, true, true);
   setVectorFromInputs(in, "state_dot", k, true, true);
   setValueFromInputs(in, "dt", h, true);
   setValueFromInputs(in, "time", t, true);
   for (int i = 0; i < u.Size(); ++i) { d -= r.p->w(i, u(i)) * k(i); }
   emit({{"event", "EntropyChange"}, {"y", hex(u)}, {"k", hex(k)}, {"h", hex(h)}, {"time", hex(t)}, {"d", hex(d)}});
   return d;
}

struct Inner : mfem::Solver
{
   const Problem &p;
   std::string mode;
   mfem::NewtonSolver *newton = nullptr;
   Inner(const Problem &p_, std::string m) : mfem::Solver(p_.n), p(p_), mode(m) {}
   void SetOperator(const mfem::Operator &) override {}
   void Mult(const mfem::Vector &b, mfem::Vector &k) const override
   {
      const Told in = told;
      json e = {{"event", "Solve"}, {"y", hex(in.y)}, {"h", hex(in.h)}, {"time", hex(in.time)}, {"guess", iterative_mode}};
      // the vector handed over may be uninitialised when it is no guess
      e["kin"] = iterative_mode ? hex(k) : json::array();
      double resid = 0.0;
      if (mode == "script")
      {
         for (int i = 0; i < p.n; ++i) { k(i) = U(-1, 1); }
      }
      else
      {
         mfem::Vector z(p.n), f(p.n);
         if (mode == "flow")
         {
            k = 0.0;
            for (int it = 0; it < 400; ++it)
            {
               add(in.y, in.h, k, z);
               p.F(z, in.time, f);
               k = f;
            }
         }
         else
         {
            if (!iterative_mode) { k = 0.0; }
            newton->iterative_mode = true;
            newton->Mult(b, k);
            if (!newton->GetConverged()) { resid = 0.0; }
         }
         bool bad = false;
         for (int i = 0; i < p.n; ++i) { bad = bad || !(std::abs(k(i)) < 1e8); }
         if (bad)
         {
            for (int i = 0; i < p.n; ++i) { k(i) = U(-1, 1); }
         }
         add(in.y, in.h, k, z);
         p.F(z, in.time, f);
         f -= k;
         resid = mode == "flow" || bad || !newton->GetConverged() ? 0.0 : f.Norml2();
         e["conv"] = mode == "flow" || newton->GetConverged();
      }
      double tol = 1e-8 * (1.0 + k.Norml2() + in.y.Norml2());
      if (mode == "flow") { tol = 1e300; }
      e["k"] = hex(k);
      e["resid"] = hex(resid);
      e["tol"] = hex(tol);
      emit(e);
   }
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &sc : scn)
   {
      eng.seed(sc["seed"].get<unsigned>());
      Problem p;
      p.n = sc["n"];
      p.W.SetSize(p.n);
      p.P.SetSize(p.n);
      p.ent = sc["entropy"];
      for (int i = 0; i < p.n; ++i)
      {
         p.P(i) = p.ent == "quad" ? 1.0 : U(.5, 1.5);
         for (int j = 0; j <= i; ++j)
         {
            double v = U(-1, 1);
            p.W(i, j) = i == j ? (sc["damped"] ? -U(0, .5) : 0.0) : v;
            p.W(j, i) = i == j ? p.W(i, i) : -v;
         }
      }
      p.cub = unhex(sc["cub"]);
      p.forc = unhex(sc["forc"]);
      const std::string mode = sc["mode"], type = sc["type"];
      MISOResidual spatial(Res{&p, mfem::DenseMatrix()});
      std::unique_ptr<MISOResidual> tdr;
      MISOResidual *res = &spatial;
      Inner inner(p, mode);
      mfem::GMRESSolver gmres(MPI_COMM_WORLD);
      gmres.SetRelTol(1e-14);
      gmres.SetAbsTol(1e-15);
      gmres.SetMaxIter(200);
      gmres.SetPrintLevel(-1);
      mfem::NewtonSolver newton(MPI_COMM_WORLD);
      if (mode == "real")
      {
         tdr = std::make_unique<MISOResidual>(TimeDependentResidual(spatial));
         res = tdr.get();
         newton.SetSolver(gmres);
         newton.SetOperator(*res);
         newton.SetRelTol(1e-13);
         newton.SetAbsTol(1e-12);
         newton.SetMaxIter(30);
         newton.SetPrintLevel(-1);
         inner.newton = &newton;
      }
      std::unique_ptr<FirstOrderODE> ode;
      std::string err = "";
      try
      {
         json o = {{"type", type}};
         if (sc.value("oldkey", false)) { o["ode-solver"] = type; }
         const json &co = o;
         ode = std::make_unique<FirstOrderODE>(*res, co, inner);
      }
      catch (const MISOException &) { err = "MISOException"; }
      catch (const std::exception &) { err = "other"; }
      emit({{"event", "Construct"}, {"type", sc.value("oldkey", false) ? "(deprecated key)" : type}, {"err", err}});
      if (!ode) { continue; }
      mfem::Vector x = vec(sc["x"]);
      double t = unhex(sc["t"]);
      for (const auto &st : sc["steps"])
      {
         double dt = unhex(st);
         emit({{"event", "Begin"}, {"x", hex(x)}, {"t", hex(t)}, {"dt", hex(dt)}, {"near", sc.value("near", false)}});
         bool ok = true;
         try { ode->step(x, t, dt); }
         catch (const std::exception &) { ok = false; }
         emit({{"event", ok ? "Done" : "Failed"}, {"x", hex(x)}, {"t", hex(t)}, {"dt", hex(dt)}});
         bool finite = std::isfinite(t);
         for (int i = 0; i < p.n; ++i) { finite = finite && std::isfinite(x(i)) && std::abs(x(i)) < 1e6; }
         if (!finite) { break; }
      }
   }
   emit({{"event", "End"}});
}
