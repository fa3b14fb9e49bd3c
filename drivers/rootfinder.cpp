// Drives the real bisection and secant solvers, recording every evaluation.
#include <map>
#include "drv.hpp"
#include "utils.hpp"
using namespace drv;

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &s : scn)
   {
      double x1 = unhex(s["x1"]), x2 = unhex(s["x2"]), ftol = unhex(s["ftol"]), xtol = unhex(s["xtol"]);
      int maxit = s["maxit"];
      std::map<double, double> memo;
      std::size_t k = 0;
      long evals = 0;
      std::mt19937_64 e(s["seed"].get<unsigned>());
      auto u = [&]() { return (e() >> 11) * 0x1.0p-53; };
      mfem::Vector c = s.contains("coef") ? vec(s["coef"]) : mfem::Vector();
      auto f = [&](double x) -> double
      {
         if (++evals > 100000) { std::_Exit(3); }
         double v;
         if (c.Size())
         {
            v = c(0) + x * (c(1) + x * (c(2) + x * c(3))) + c(4) * std::exp(c(5) * x) + c(6) * std::sin(c(7) * x);
         }
         else if (x == x && memo.count(x)) { v = memo[x]; }
         else if (x != x) { v = x; }
         else
         {
            std::string kd = k < s["script"].size() ? s["script"][k].get<std::string>() : (u() < .5 ? "pos" : "neg");
            ++k;
            double m = ftol > 0 ? ftol : 1e-12;
            v = 0.0;
            if (kd == "pos") v = m * (2 + 1e6 * u());
            if (kd == "neg") v = -m * (2 + 1e6 * u());
            if (kd == "tol") v = (u() < .5 ? 1 : -1) * ftol * (u() < .3 ? 1.0 : u());
            if (kd == "microp") v = (u() < .5 ? 5e-324 : 1e-200);
            if (kd == "micron") v = (u() < .5 ? -5e-324 : -1e-200);
            if (kd == "hugep") v = 1e250 * (1 + u());
            if (kd == "hugen") v = -1e250 * (1 + u());
            if (kd == "nan") v = std::nan("");
            memo[x] = v;
         }
         emit({{"event", "Eval"}, {"x", hex(x)}, {"f", hex(v)}});
         return v;
      };
      emit({{"event", "Begin"}, {"q", {{"kind", s["kind"]}, {"maxit", maxit}, {"ftol", s["ftol"]}, {"xtol", s["xtol"]}, {"x1", s["x1"]}, {"x2", s["x2"]}}}});
      try
      {
         double r = s["kind"] == "secant" ? miso::secant(f, x1, x2, ftol, xtol, maxit) : miso::bisection(f, x1, x2, ftol, xtol, maxit);
         emit({{"event", "Found"}, {"x", hex(r)}});
      }
      catch (...)
      {
         emit({{"event", "Failed"}});
      }
   }
   emit({{"event", "End"}});
}
