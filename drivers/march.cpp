// Drives AbstractSolver2::solveForState / solveForAdjoint through a derived
// class whose hooks record, then call the library's own.
#include <filesystem>
#include "drv.hpp"
#include "abstract_solver.hpp"
#include "mfem_extensions.hpp"
using namespace drv;
using namespace miso;

static std::mt19937_64 eng;
static double U(double a, double b) { return a + (b - a) * ((eng() >> 11) * 0x1.0p-53); }
static mfem::Vector rnd(int n)
{
   mfem::Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = U(-2, 2); }
   return v;
}

struct Res
{
   int n;
};
int getSize(const Res &r) { return r.n; }
void setInputs(Res &, const MISOInputs &) {}
void setOptions(Res &, const json &) {}
void evaluate(Res &, const MISOInputs &, mfem::Vector &) {}
mfem::Operator &getJacobian(Res &, const MISOInputs &, const std::string &) { throw std::runtime_error("jac"); }
void setUpAdjointSystem(Res &, mfem::Solver &, const MISOInputs &, mfem::Vector &bar, mfem::Vector &adj)
{
   json e = {{"event", "SetUp"}, {"bar", hex(bar)}};
   for (int i = 0; i < bar.Size(); ++i) { bar(i) = U(-1, 1); }
   e["rhs"] = hex(bar);
   emit(e);
}
void finalizeAdjointSystem(Res &, mfem::Solver &, const MISOInputs &, mfem::Vector &bar, mfem::Vector &adj)
{
   json e = {{"event", "Finalize"}, {"rhs", hex(bar)}, {"x", hex(adj)}};
   for (int i = 0; i < adj.Size(); ++i) { adj(i) += U(-1, 1); }
   e["y"] = hex(adj);
   emit(e);
}

struct Inner : mfem::Solver
{
   Inner(int n) : mfem::Solver(n) {}
   void SetOperator(const mfem::Operator &) override {}
   void Mult(const mfem::Vector &, mfem::Vector &k) const override
   {
      k = rnd(height);
      emit({{"event", "Slope"}, {"k", hex(k)}});
   }
};
struct Adj : mfem::Solver
{
   Adj(int n) : mfem::Solver(n) {}
   void SetOperator(const mfem::Operator &) override {}
   void Mult(const mfem::Vector &b, mfem::Vector &y) const override
   {
      y = rnd(height);
      emit({{"event", "AdjointSolve"}, {"rhs", hex(b)}, {"y", hex(y)}});
   }
};
struct Newt : mfem::NewtonSolver
{
   Newt(int n) : mfem::NewtonSolver(MPI_COMM_WORLD) { height = width = n; iterative_mode = false; }
   void Mult(const mfem::Vector &, mfem::Vector &x) const override
   {
      json e = {{"event", "Newton"}, {"guess", iterative_mode}, {"x", hex(x)}};
      x = rnd(height);
      e["y"] = hex(x);
      emit(e);
   }
};

struct Probe : AbstractSolver2
{
   json s;
   int n;
   std::unique_ptr<Inner> inner;
   Probe(const json &opts, int n_, const json &logs) : AbstractSolver2(MPI_COMM_WORLD, opts), n(n_)
   {
      spatial_res = std::make_unique<MISOResidual>(Res{n});
      inner = std::make_unique<Inner>(n);
      nonlinear_solver = std::make_unique<Newt>(n);
      adj_solver = std::make_unique<Adj>(n);
      for (auto &l : logs)
      {
         LoggingOptions o;
         o.initial_state = l["init"];
         o.each_timestep = l["each"];
         o.final_state = l["final"];
         if (l["kind"] == "A") { addLogger(ASCIILogger{}, std::move(o)); }
         else { addLogger(BinaryLogger{}, std::move(o)); }
      }
   }
   void problem(const json &sc)
   {
      s = sc;
      const std::string ty = s["q"]["type"];
      json td = {{"type", ty}, {"t-initial", unhex(s["q"]["t0"])}, {"t-final", unhex(s["q"]["tf"])}, {"dt", unhex(s["q"]["dt"])}, {"max-iter", s["q"]["maxit"]}};
      options["time-dis"].erase("exact-t-final");
      if (s["exact"] != "unset") { td["exact-t-final"] = s["exact"] == "yes"; }
      if (ty == "newton" || ty == "adjoint") { td["type"] = "steady"; }
      setOptions({{"time-dis", td}});
      ode.reset();
      if (s["q"]["ode"]) { ode = std::make_unique<FirstOrderODE>(*spatial_res, td, *inner); }
   }
   void initialHook(const mfem::Vector &x) override
   {
      emit({{"event", "InitialHook"}, {"x", hex(x)}});
      AbstractSolver2::initialHook(x);
   }
   void iterationHook(int i, double t, double dt, const mfem::Vector &x) override
   {
      emit({{"event", "IterationHook"}, {"i", i}, {"t", hex(t)}, {"dt", hex(dt)}, {"x", hex(x)}});
      AbstractSolver2::iterationHook(i, t, dt, x);
   }
   double calcStepSize(int i, double t, double tf, double dold, const mfem::Vector &x) const override
   {
      double d = AbstractSolver2::calcStepSize(i, t, tf, dold, x);
      if (s["q"]["ownStep"]) { d *= U(.2, 1.5); }
      emit({{"event", "StepSize"}, {"i", i}, {"t", hex(t)}, {"tf", hex(tf)}, {"dtold", hex(dold)}, {"x", hex(x)}, {"dt", hex(d)}});
      return d;
   }
   bool iterationExit(int i, double t, double tf, double dt, const mfem::Vector &x) const override
   {
      bool stop = AbstractSolver2::iterationExit(i, t, tf, dt, x);
      // a derived class may stop early, but never marches on past t-final
      if (s["q"]["ownExit"]) { stop = stop || U(0, 1) < .3; }
      emit({{"event", "Exit"}, {"i", i}, {"t", hex(t)}, {"tf", hex(tf)}, {"dt", hex(dt)}, {"x", hex(x)}, {"stop", stop}});
      return stop;
   }
   void terminalHook(int i, double t, const mfem::Vector &x) override
   {
      emit({{"event", "TerminalHook"}, {"i", i}, {"t", hex(t)}, {"x", hex(x)}});
      AbstractSolver2::terminalHook(i, t, x);
   }
   void clearLoggers() { loggers.clear(); }
};

template <class L>
static void probe(json &recs, const char *kind, const char *label, int step)
{
   double t = std::nan("");
   mfem::Vector v;
   try { L::readState(label, step, 0, t, v); }
   catch (...) { return; }
   if (v.Size() > 0) { recs.push_back({{"key", {kind, label, step}}, {"time", hex(t)}, {"state", hex(v)}}); }
}
static json records(int upto)
{
   json r = json::array();
   for (int i = -1; i <= upto; ++i)
   {
      probe<ASCIILogger>(r, "A", "state", i);
      probe<BinaryLogger>(r, "B", "state", i);
      if (i < 3)
      {
         probe<ASCIILogger>(r, "A", "adjoint", i);
         probe<BinaryLogger>(r, "B", "adjoint", i);
      }
   }
   return r;
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &sc : scn)
   {
      std::filesystem::remove_all("ASCIILogger");
      std::filesystem::remove_all("BinaryLogger");
      emit({{"event", "Reset"}});
      eng.seed(sc["seed"].get<unsigned>());
      int n = sc["n"], top = 0;
      Probe p({{"silent", true}, {"print-options", false}}, n, sc["logs"]);
      for (const auto &s : sc["solves"])
      {
         p.problem(s);
         mfem::Vector x = rnd(n);
         json q = s["q"];
         q["logs"] = sc["logs"];
         top = std::max(top, q["maxit"].get<int>());
         if (q["type"] == "adjoint")
         {
            mfem::Vector u = rnd(n), y = rnd(n);
            emit({{"event", "BeginAdjoint"}, {"q", q}, {"bar", hex(x)}});
            const mfem::Vector &bar = x;
            p.solveForAdjoint(u, bar, y);
            emit({{"event", "Return"}, {"x", hex(y)}, {"recs", records(top + 3)}});
         }
         else
         {
            emit({{"event", "Begin"}, {"q", q}, {"x", hex(x)}});
            p.solveForState(x);
            emit({{"event", "Return"}, {"x", hex(x)}, {"recs", records(top + 3)}});
         }
      }
      p.clearLoggers();
   }
   emit({{"event", "End"}});
}
