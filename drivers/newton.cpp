// Drives the real RelaxedNewton and InexactNewton with operators, Jacobians
// and linear solvers that record every call.
#include <unistd.h>
#include <memory>
#include "drv.hpp"
#include "relaxed_newton.hpp"
#include "inexact_newton.hpp"
using namespace drv;
using mfem::Vector;
using mfem::DenseMatrix;

struct Aborted {};
namespace mfem
{
// stand-in for the library's fatal error: recorded instead of ending the process
void mfem_error(const char *) { throw Aborted(); }
}  // namespace mfem

static int rank_ = 0, nranks = 1;
static void rec(const json &e) { if (rank_ == 0) emit(e); }

// local part <-> global vector
struct Dist
{
   std::vector<int> cnt, off;
   int n = 0;
   void set(int n_)
   {
      n = n_;
      cnt.assign(nranks, n / nranks);
      for (int i = 0; i < n % nranks; ++i) cnt[i]++;
      off.assign(nranks, 0);
      for (int i = 1; i < nranks; ++i) off[i] = off[i - 1] + cnt[i - 1];
   }
   int local() const { return cnt[rank_]; }
   Vector all(const Vector &v) const
   {
      Vector g(n);
      MPI_Allgatherv(const_cast<double*>(v.GetData()), local(), MPI_DOUBLE, g.GetData(), cnt.data(), off.data(), MPI_DOUBLE, MPI_COMM_WORLD);
      return g;
   }
   void part(const Vector &g, Vector &v) const
   {
      v.SetSize(local());
      for (int i = 0; i < local(); ++i) v(i) = g(off[rank_] + i);
   }
};
static Dist D;

struct Jac : mfem::Operator
{
   DenseMatrix A;
   Jac() : Operator(D.local()), A(D.n) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      Vector g(D.n);
      A.Mult(D.all(x), g);
      D.part(g, y);
   }
};

struct Rng
{
   std::mt19937_64 e;
   double u(double a = 0, double b = 1) { return a + (b - a) * ((e() >> 11) * 0x1.0p-53); }
};

struct Op : mfem::Operator
{
   json s;
   Vector b;
   mutable Rng rng;
   mutable Jac jac;
   DenseMatrix A;
   mutable std::vector<std::pair<Vector, Vector>> memo;
   mutable Vector xb, rb, c;  // last state with a Jacobian, its residual, the step
   mutable double aprev = 1, slope = 0;
   mutable std::size_t k = 0;
   mutable int evals = 0;
   bool scripted;
   Op(const json &s_, const Vector &b_) : Operator(D.local()), s(s_), b(b_), A(D.n)
   {
      rng.e.seed(s["seed"].get<unsigned>());
      scripted = s.contains("script");
      for (int i = 0; i < D.n; ++i)
         for (int j = 0; j < D.n; ++j) A(i, j) = (i == j ? 2.0 : 0.0) + rng.u(-0.8, 0.8);
   }
   // analytic systems
   void F(const Vector &x, Vector &f) const
   {
      int n = D.n, kind = s["sys"];
      A.Mult(x, f);
      for (int i = 0; i < n; ++i)
      {
         double v = x(i), w = x((i + 1) % n);
         if (kind == 0) f(i) += 0.3 * v * v * v + 0.2 * v * w - 1.0;
         if (kind == 1) f(i) = std::atan(3 * v) + 0.1 * w - 0.05;
         if (kind == 2) f(i) = (i % 2 == 0) ? 10 * (w - v * v) : 1 - x(i - 1) + 0.1 * v;
         if (kind == 3) f(i) = v * v * v - 2 * v + 2 + 0.01 * w;
         if (kind == 4) f(i) = v > 0 ? std::log(v) + 0.1 * w : std::nan("");
         if (kind == 5) f(i) = std::exp(v) - 1.5 + 0.3 * std::sin(w);
      }
   }
   void JF(const Vector &x, DenseMatrix &J) const
   {
      int n = D.n, kind = s["sys"];
      J = 0.0;
      if (kind == 0) J = A;
      for (int i = 0; i < n; ++i)
      {
         int j = (i + 1) % n;
         double v = x(i), w = x(j);
         if (kind == 0) { J(i, i) += 0.9 * v * v + 0.2 * w; J(i, j) += 0.2 * v; }
         if (kind == 1) { J(i, i) += 3 / (1 + 9 * v * v); J(i, j) += 0.1; }
         if (kind == 2)
         {
            if (i % 2 == 0) { J(i, i) += -20 * v; J(i, j) += 10; }
            else { J(i, i - 1) += -1; J(i, i) += 0.1; }
         }
         if (kind == 3) { J(i, i) += 3 * v * v - 2; J(i, j) += 0.01; }
         if (kind == 4) { J(i, i) += 1 / v; J(i, j) += 0.1; }
         if (kind == 5) { J(i, i) += std::exp(v); J(i, j) += 0.3 * std::cos(w); }
      }
   }
   double norm(const Vector &v) const { return std::sqrt(v * v); }
   void script(const Vector &x, Vector &r) const
   {
      for (auto &m : memo)
      {
         Vector d(x);
         d -= m.first;
         if (norm(d) <= 1e-13 * (norm(x) + 1e-300)) { r = m.second; return; }
      }
      r.SetSize(D.n);
      if (memo.empty())
      {
         for (int i = 0; i < D.n; ++i) r(i) = rng.u(-1, 1) + (i == 0 ? 1.2 : 0);
         r *= s["scale"].get<double>();
      }
      else
      {
         Vector d(xb);
         d -= x;
         double a = (d * c) / (c * c), n = norm(rb), t = unhex(s["t"]), mu = unhex(s["mu"]), f = 0, lim;
         bool rel = s["kind"] == "relaxed";
         double theta = (std::abs(a - 1) < 1e-12) ? 0.0 : a / aprev;
         lim = rel ? n + mu * a * slope : (1 - t * (1 - theta)) * n;
         aprev = a;
         std::string kd = k < s["script"].size() ? s["script"][k].get<std::string>() : s["tail"].get<std::string>();
         ++k;
         if (kd == "good") f = lim * rng.u(0.05, 0.9);
         if (kd == "tiny") f = lim * 1e-9;
         if (kd == "just") f = lim - 1e-3 * std::abs(n - lim) - 1e-7 * n;
         if (kd == "near") f = lim + rng.u(0.05, 0.95) * std::abs(n - lim) + 1e-7 * n;
         if (kd == "bad") f = n * rng.u(1.01, 5);
         if (kd == "huge") f = n * std::pow(10., rng.u(4, 60));
         if (kd == "inf") f = std::numeric_limits<double>::infinity();
         if (kd == "nan") f = std::nan("");
         for (int i = 0; i < D.n; ++i) r(i) = rng.u(-1, 1);
         r(rng.e() % D.n) += 1.3;
         r *= f / norm(r);
      }
      memo.push_back({x, r});
   }
   void Mult(const Vector &x, Vector &y) const override
   {
      if (++evals > 5000) { rec({{"event", "Runaway"}}); std::_Exit(3); }
      Vector g = D.all(x), f(D.n);
      if (scripted)
      {
         script(g, f);
         if (b.Size()) f += b;
      }
      else { F(g, f); }
      rec({{"event", "Res"}, {"x", hex(g)}, {"f", hex(f)}});
      D.part(f, y);
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      Vector g = D.all(x);
      if (scripted)
      {
         for (int i = 0; i < D.n; ++i)
            for (int j = 0; j < D.n; ++j) jac.A(i, j) = (i == j ? 3.0 : 0.0) + rng.u(-1.0, 1.0);
         xb = g;
         script(g, rb);
         aprev = 1;
      }
      else { JF(g, jac.A); }
      rec({{"event", "Grad"}, {"x", hex(g)}});
      return jac;
   }
};

struct Lin : mfem::Solver
{
   const Op *op;
   const mfem::Operator *J = nullptr;
   double quality;
   mutable Rng rng;
   void SetOperator(const mfem::Operator &A) override
   {
      J = &A;
      height = width = A.Height();
   }
   void Mult(const Vector &rhs, Vector &c) const override
   {
      if (J != &op->jac) { rec({{"event", "WrongJacobian"}}); std::_Exit(3); }
      Vector g = D.all(rhs), s(D.n);
      DenseMatrix inv(op->jac.A);
      inv.Invert();
      inv.Mult(g, s);
      double sc = op->norm(s);
      if (quality > 0)
         for (int i = 0; i < D.n; ++i) s(i) += quality * sc * rng.u(-1, 1);
      if (quality < 0) s *= quality;  // not a descent direction
      op->c = s;
      Vector jc(D.n);
      op->jac.A.Mult(s, jc);
      op->slope = -(jc * g) / op->norm(g);
      rec({{"event", "Lin"}, {"rhs", hex(g)}, {"c", hex(s)}, {"jc", hex(jc)}});
      D.part(s, c);
   }
};

struct Solver
{
   std::unique_ptr<mfem::NewtonSolver> s;
   mfem::InexactNewton *in = nullptr;
   void mult(const Vector &b, Vector &x) { in ? in->Mult(b, x) : s->Mult(b, x); }
};

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
   MPI_Comm_size(MPI_COMM_WORLD, &nranks);
   alarm(argc > 3 ? atoi(argv[3]) : 240);
   auto scn = load(argv[1]);
   if (rank_ == 0) trace().open(argv[2]);
   Quiet quiet;
   for (const auto &g : scn)
   {
      // one solver object, several solves
      Solver sol;
      const json &h = g["cfg"];
      if (h["kind"] == "relaxed")
      {
         nlohmann::json o;
         std::string how = h["how"];
         if (how == "string") o["linesearch"] = "backtracking";
         else if (how == "object")
            o["linesearch"] = {{"type", "backtracking"}, {"mu", unhex(h["mu"])}, {"rhohi", unhex(h["hi"])},
                               {"rholo", unhex(h["lo"])}, {"interp-order", h["order"]}, {"maxiter", h["lsmaxit"]}};
         else if (how == "partial")
            o["linesearch"] = {{"type", "backtracking"}, {"maxiter", h["lsmaxit"]}};
         else if (how == "unknown")
         {
            bool thrown = false;
            try { miso::RelaxedNewton bad(MPI_COMM_WORLD, {{"linesearch", "forwardtracking"}}); } catch (...) { thrown = true; }
            if (!thrown) rec({{"event", "UnknownAccepted"}});
         }
         sol.s = std::make_unique<miso::RelaxedNewton>(MPI_COMM_WORLD, o);
      }
      else
      {
         auto p = std::make_unique<mfem::InexactNewton>(MPI_COMM_WORLD, 1e-4, 1e-1, unhex(h["t"]));
         sol.in = p.get();
         sol.s = std::move(p);
      }
      for (const auto &one : g["solves"])
      {
         json s = one;
         s.update(h);
         D.set(s["n"]);
         Vector bg;
         if (s["b"].size()) bg = vec(s["b"]);
         Op op(s, bg);
         op.jac.A.SetSize(D.n);
         Lin lin;
         lin.op = &op;
         lin.quality = s["quality"];
         lin.rng.e.seed(s["seed"].get<unsigned>() + 1);
         sol.s->SetSolver(lin);
         sol.s->SetOperator(op);
         sol.s->SetRelTol(unhex(s["rel"]));
         sol.s->SetAbsTol(unhex(s["abs"]));
         sol.s->SetMaxIter(s["maxit"]);
         sol.s->SetPrintLevel(-1);
         sol.s->iterative_mode = s["iterative"];
         Vector x0 = vec(s["x0"]), x, b;
         D.part(x0, x);
         if (bg.Size()) D.part(bg, b);
         rec({{"event", "Begin"}, {"iterative", s["iterative"]}, {"x0", s["x0"]},
              {"q", {{"kind", s["kind"]}, {"maxit", s["maxit"]}, {"lsmaxit", s["lsmaxit"]}, {"rel", s["rel"]}, {"abs", s["abs"]},
                     {"b", s["b"]}, {"mu", s["mu"]}, {"lo", s["lo"]}, {"hi", s["hi"]}, {"order", s["order"]}, {"t", s["t"]}}}});
         try
         {
            sol.mult(b, x);
            Vector xg = D.all(x);
            int mine[2] = {sol.s->GetNumIterations(), (int)sol.s->GetConverged()}, lo[2], hi[2];
            MPI_Allreduce(mine, lo, 2, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
            MPI_Allreduce(mine, hi, 2, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
            if (lo[0] != hi[0] || lo[1] != hi[1]) rec({{"event", "RanksDisagree"}});
            rec({{"event", "Done"}, {"x", hex(xg)}, {"conv", (bool)mine[1]}, {"it", mine[0]}, {"norm", hex(sol.s->GetFinalNorm())}});
         }
         catch (Aborted &)
         {
            rec({{"event", "Abort"}});
         }
      }
   }
   rec({{"event", "End"}});
   MPI_Finalize();
}
