// Options of solvers and the solvers built from options.
#include <sstream>
#include "drv.hpp"
#include "abstract_solver.hpp"
#include "default_options.hpp"
#include "mfem_extensions.hpp"
#include "relaxed_newton.hpp"
#include "_hypre_utilities.h"
#include "HYPRE_krylov.h"
using namespace drv;
using mfem::Vector;

namespace mfem
{
struct Failed {};
void mfem_error(const char *) { throw Failed(); }
}
extern "C" {
HYPRE_Int HYPRE_PCGGetAbsoluteTol(HYPRE_Solver, HYPRE_Real *);
HYPRE_Int HYPRE_FlexGMRESGetAbsoluteTol(HYPRE_Solver, HYPRE_Real *);
}

// access to protected settings of mfem's solvers
struct It : mfem::IterativeSolver
{
   using IS = mfem::IterativeSolver;
   static double rel(IS &s) { return s.*(&It::rel_tol); }
   static double abs(IS &s) { return s.*(&It::abs_tol); }
   static int max(IS &s) { return s.*(&It::max_iter); }
   static int print(IS &s) { return s.*(&It::print_level); }
   static mfem::Solver *pr(IS &s) { return s.*(&It::prec); }
};
struct Gm : mfem::GMRESSolver { static int kdim(mfem::GMRESSolver &s) { return s.*(&Gm::m); } };
struct Fg : mfem::FGMRESSolver { static int kdim(mfem::FGMRESSolver &s) { return s.*(&Fg::m); } };
struct Nw : mfem::NewtonSolver
{
   static json adapt(mfem::NewtonSolver &s)
   {
      int t = s.*(&Nw::lin_rtol_type);
      if (t == 0) { return {hex(0.0)}; }
      return {hex(double(t)), hex(s.*(&Nw::lin_rtol0)), hex(s.*(&Nw::lin_rtol_max)), hex(s.*(&Nw::alpha)), hex(s.*(&Nw::gamma))};
   }
};

static json describe(mfem::Solver *s, mfem::Solver *prec)
{
   json r;
   auto set = [&](const char *kind, double rel, double abs, double mx, double kdim, double print, bool p)
   {
      r = {{"kind", kind}, {"rel", hex(rel)}, {"abs", hex(abs)}, {"maxit", hex(mx)}, {"kdim", hex(kdim)}, {"print", hex(print)}, {"prec", p}};
   };
   HYPRE_Real rel = -9, abs = -9;
   HYPRE_Int mx = -9, kd = -9, pl = -9;
   HYPRE_Solver hp = nullptr;
   HYPRE_Solver want = nullptr;
   if (auto *h = dynamic_cast<mfem::HypreSolver *>(prec)) { want = *h; }
   auto same = [&]() { return prec && hp == want; };
   if (auto *g = dynamic_cast<mfem::HypreGMRES *>(s))
   {
      HYPRE_Solver q = *g;
      HYPRE_GMRESGetTol(q, &rel);
      HYPRE_GMRESGetAbsoluteTol(q, &abs);
      HYPRE_GMRESGetMaxIter(q, &mx);
      HYPRE_GMRESGetKDim(q, &kd);
      HYPRE_GMRESGetPrintLevel(q, &pl);
      HYPRE_GMRESGetPrecond(q, &hp);
      set("hypregmres", rel, abs, mx, kd, pl, same());
   }
   else if (auto *g = dynamic_cast<mfem::HypreFGMRES *>(s))
   {
      HYPRE_Solver q = *g;
      HYPRE_FlexGMRESGetTol(q, &rel);
      HYPRE_FlexGMRESGetAbsoluteTol(q, &abs);
      HYPRE_FlexGMRESGetMaxIter(q, &mx);
      HYPRE_FlexGMRESGetKDim(q, &kd);
      HYPRE_FlexGMRESGetPrintLevel(q, &pl);
      HYPRE_FlexGMRESGetPrecond(q, &hp);
      set("hyprefgmres", rel, abs, mx, kd, pl, same());
   }
   else if (auto *g = dynamic_cast<mfem::HyprePCG *>(s))
   {
      HYPRE_Solver q = *g;
      HYPRE_PCGGetTol(q, &rel);
      HYPRE_PCGGetAbsoluteTol(q, &abs);
      HYPRE_PCGGetMaxIter(q, &mx);
      HYPRE_PCGGetPrintLevel(q, &pl);
      HYPRE_PCGGetPrecond(q, &hp);
      set("hyprepcg", rel, abs, mx, 0, pl, same());
   }
   else if (auto *i = dynamic_cast<mfem::IterativeSolver *>(s))
   {
      const char *k = "?";
      double kd = 0;
      if (auto *g = dynamic_cast<mfem::GMRESSolver *>(s)) { k = "gmres"; kd = Gm::kdim(*g); }
      else if (auto *g = dynamic_cast<mfem::FGMRESSolver *>(s)) { k = "fgmres"; kd = Fg::kdim(*g); }
      else if (dynamic_cast<mfem::CGSolver *>(s)) { k = "pcg"; }
      else if (dynamic_cast<mfem::MINRESSolver *>(s)) { k = "minres"; }
      set(k, It::rel(*i), It::abs(*i), It::max(*i), kd, It::print(*i), prec && It::pr(*i) == prec);
   }
   else { r = {{"kind", s ? "?" : "null"}}; }
   return r;
}

// a nonlinear map that needs damping from some starting points
struct Map : mfem::Operator
{
   mutable mfem::DenseMatrix J;
   mutable json seen = json::array();
   Map() : mfem::Operator(2), J(2) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      seen.push_back(hex(x));
      if (seen.size() > 60) { throw mfem::Failed(); }
      y(0) = std::atan(3 * x(0)) + .1 * x(1) + 1.2;
      y(1) = std::atan(2 * x(1)) - .2 * x(0) * x(0) - 1.1;
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      J(0, 0) = 3 / (1 + 9 * x(0) * x(0));
      J(0, 1) = .1;
      J(1, 0) = -.4 * x(0);
      J(1, 1) = 2 / (1 + 4 * x(1) * x(1));
      return J;
   }
};
static json visit(mfem::NewtonSolver &n)
{
   Map f;
   n.SetOperator(f);
   Vector zero, x(2);
   x(0) = 4.0;
   x(1) = -3.0;
   std::string how = "done";
   try { n.Mult(zero, x); }
   catch (const mfem::Failed &) { how = "failed"; }
   return {f.seen, how, hex(x)};
}

struct Res { int n; };
int getSize(const Res &r) { return r.n; }
void setInputs(Res &, const miso::MISOInputs &) { }
void setOptions(Res &, const json &) { }
void evaluate(Res &, const miso::MISOInputs &, Vector &) { }
static mfem::Solver *theprec = nullptr;
static mfem::DenseMatrix *themat = nullptr;
mfem::Operator &getJacobian(Res &, const miso::MISOInputs &, const std::string &) { return *themat; }
mfem::Solver *getPreconditioner(Res &) { return theprec; }
void setUpAdjointSystem(Res &, mfem::Solver &s, const miso::MISOInputs &, Vector &, Vector &) { s.SetOperator(*themat); }
void finalizeAdjointSystem(Res &, mfem::Solver &, const miso::MISOInputs &, Vector &, Vector &) { }

struct Sol : miso::AbstractSolver2
{
   Sol(const json &o) : miso::AbstractSolver2(MPI_COMM_WORLD, o) { spatial_res = std::make_unique<miso::MISOResidual>(Res{2}); }
   const json &opt() const { return options; }
   mfem::Solver *adj() { return adj_solver.get(); }
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   json all = load(argv[1]);
   trace().open(argv[2]);
   Quiet q;
   mfem::DenseMatrix M(2);
   M(0, 0) = 2; M(1, 1) = 3; M(0, 1) = M(1, 0) = .5;
   themat = &M;
   for (auto &s : all)
   {
      emit({{"event", "Reset"}, {"dflt", tag(miso::default_options)}});
      std::map<std::string, std::unique_ptr<Sol>> sols;
      for (auto &c : s["cmds"])
      {
         std::string cmd = c["cmd"];
         if (cmd == "Solver")
         {
            std::stringstream txt;
            auto *old = std::cout.rdbuf(txt.rdbuf());
            try { sols[c["id"]] = std::make_unique<Sol>(c["user"]); }
            catch (...) { std::cout.rdbuf(old); throw; }
            std::cout.rdbuf(old);
            json pr = nullptr;
            if (!txt.str().empty())
            {
               pr = json::parse(txt.str(), nullptr, false);
               if (pr.is_discarded()) { pr = "not JSON"; }
            }
            emit({{"event", "Solver"}, {"id", c["id"]}, {"user", tag(c["user"])}, {"seen", tag(sols[c["id"]]->opt())}, {"printed", tag(pr)}});
         }
         else if (cmd == "Look")
         {
            emit({{"event", "Look"}, {"id", c["id"]}, {"dflt", tag(miso::default_options)}, {"seen", tag(sols.at(c["id"])->opt())}});
         }
         else if (cmd == "Adjoint")
         {
            auto &S = *sols.at(c["id"]);
            Vector bar(2), y(2);
            bar = 0.0;
            y = 0.0;
            struct NoPrec : mfem::Solver
            {
               NoPrec() : mfem::Solver(2) { }
               void SetOperator(const mfem::Operator &) override { }
               void Mult(const Vector &x, Vector &y) const override { y = x; }
            } np;
            theprec = c["prec"] ? &np : nullptr;
            json r;
            try { S.solveForAdjoint(miso::MISOInputs{}, bar, y); r = describe(S.adj(), theprec); }
            catch (const miso::MISOException &) { r = {{"kind", "error"}}; }
            emit({{"event", "Adjoint"}, {"id", c["id"]}, {"prec", c["prec"]}, {"r", r}});
            sols.erase(c["id"]);  // it refers to the preconditioner
         }
         else if (cmd == "Linear")
         {
            struct Id : mfem::Solver
            {
               Id() : mfem::Solver(2) { }
               void SetOperator(const mfem::Operator &) override { }
               void Mult(const Vector &x, Vector &y) const override { y = x; }
            } id;
            mfem::HypreDiagScale ds;
            mfem::HypreBoomerAMG amg;
            mfem::HypreILU ilu;
            mfem::Solver *pc = nullptr;
            std::string w = c["prec"];
            if (w == "id") { pc = &id; }
            else if (w == "amg") { pc = &amg; }
            else if (w == "ilu") { pc = &ilu; }
            json r;
            try
            {
               auto l = miso::constructLinearSolver(MPI_COMM_WORLD, c["o"], pc);
               r = describe(l.get(), pc);
            }
            catch (const miso::MISOException &) { r = {{"kind", "error"}}; }
            emit({{"event", "Linear"}, {"o", tag(c["o"])}, {"prec", pc != nullptr}, {"r", r}});
         }
         else if (cmd == "Nonlinear")
         {
            mfem::GMRESSolver lin(MPI_COMM_WORLD), lin2(MPI_COMM_WORLD);
            for (auto *l : {&lin, &lin2})
            {
               l->SetRelTol(1e-13);
               l->SetMaxIter(9);
            }
            const json &o = c["o"];
            json r;
            try
            {
               auto n = miso::constructNonlinearSolver(MPI_COMM_WORLD, o, lin);
               if (!n) { r = {{"kind", "none"}}; }
               else
               {
                  bool rel = dynamic_cast<miso::RelaxedNewton *>(n.get()) != nullptr;
                  r = {{"kind", rel ? "relaxednewton" : typeid(*n) == typeid(mfem::NewtonSolver) ? "newton" : "?"},
                       {"rel", hex(It::rel(*n))}, {"abs", hex(It::abs(*n))}, {"maxit", hex(double(It::max(*n)))},
                       {"print", hex(double(It::print(*n)))}, {"solver", It::pr(*n) == &lin}, {"fresh", !n->iterative_mode}, {"adapt", Nw::adapt(*n)}};
                  r["probe"] = visit(*n);
                  std::unique_ptr<mfem::NewtonSolver> m;
                  if (o["type"] == "relaxednewton") { m = std::make_unique<miso::RelaxedNewton>(MPI_COMM_WORLD, o); }
                  else { m = std::make_unique<mfem::NewtonSolver>(MPI_COMM_WORLD); }
                  if (o["type"] == "inexactnewton")
                  {
                     m->SetAdaptiveLinRtol(o.value("inexacttype", 2), o.value("rtol0", .5), o.value("rtol_max", .9),
                                           o.value("alpha", .5 * (1 + sqrt(5.0))), o.value("gamma", 1.0));
                  }
                  m->iterative_mode = false;
                  m->SetSolver(lin2);
                  m->SetRelTol(o["reltol"]);
                  m->SetAbsTol(o["abstol"]);
                  m->SetMaxIter(o["maxiter"]);
                  r["ref"] = visit(*m);
               }
            }
            catch (const miso::MISOException &) { r = {{"kind", "error"}}; }
            emit({{"event", "Nonlinear"}, {"o", tag(o)}, {"r", r}});
         }
         else if (cmd == "Ode")
         {
            std::string r = "ok";
            miso::MISOResidual res(Res{2});
            mfem::CGSolver lin;
            try { miso::FirstOrderODE ode(res, c["o"], lin); }
            catch (const miso::MISOException &) { r = "error"; }
            emit({{"event", "Ode"}, {"o", tag(c["o"])}, {"r", r}});
         }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
