// Drives the real BacktrackingLineSearch with scripted and analytic merit
// functions and records every evaluation.
#include "drv.hpp"
#include "linesearch.hpp"
using namespace drv;

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   for (const auto &s : scn)
   {
      miso::BacktrackingLineSearch ls;
      if (!s.value("defaults", false))
      {
         ls.mu = unhex(s["mu"]);
         ls.rho_lo = unhex(s["lo"]);
         ls.rho_hi = unhex(s["hi"]);
         ls.interp_order = s["order"];
         ls.max_iter = s["maxit"];
      }
      double alpha = unhex(s["alpha"]), phi0, dphi0;
      std::function<double(double)> f;
      int k = 0;
      if (s.contains("script"))
      {
         phi0 = unhex(s["phi0"]);
         dphi0 = unhex(s["dphi0"]);
         f = [&](double a)
         {
            double bound = phi0 + ls.mu * a * dphi0, sc = std::abs(phi0) + std::abs(dphi0) * a;
            std::string kind = k < (int)s["script"].size() ? s["script"][k].get<std::string>() : "good";
            double r = unhex(s["r"][k % s["r"].size()]);  // in (0,1)
            ++k;
            if (kind == "good") return bound - (0.01 + r) * sc * 0.5;
            if (kind == "near") return bound + (1e-9 + 1e-3 * r) * sc;
            if (kind == "bad") return bound + (0.01 + r) * sc;
            if (kind == "huge") return bound + std::pow(10.0, 3 + 150 * r) * sc;
            if (kind == "inf") return std::numeric_limits<double>::infinity();
            return std::numeric_limits<double>::quiet_NaN();
         };
      }
      else
      {
         // c0 + c1 x + c2 x^2 + c3 x^3 + A exp(B x) + C sin(D x), optionally
         // undefined beyond x >= nanfrom
         auto c = vec(s["coef"]);
         double nf = unhex(s["nanfrom"]);
         auto g = [=](double x) { return c(0) + x * (c(1) + x * (c(2) + x * c(3))) + c(4) * std::exp(c(5) * x) + c(6) * std::sin(c(7) * x); };
         phi0 = g(0.0);
         dphi0 = c(1) + c(4) * c(5) + c(6) * c(7);
         f = [=](double x) { return x >= nf ? std::numeric_limits<double>::quiet_NaN() : g(x); };
      }
      emit({{"event", "Begin"}, {"phi0", hex(phi0)}, {"dphi0", hex(dphi0)}, {"alpha", hex(alpha)}, {"mu", hex(ls.mu)},
            {"lo", hex(ls.rho_lo)}, {"hi", hex(ls.rho_hi)}, {"order", ls.interp_order}, {"maxit", ls.max_iter}});
      long evals = 0;
      auto rec = [&](double a)
      {
         double v = f(a);
         if (++evals > 10000) { std::_Exit(3); }  // a search that never stops
         emit({{"event", "Eval"}, {"alpha", hex(a)}, {"phi", hex(v)}});
         return v;
      };
      miso::LineSearch &base = ls;
      double r = base.search(rec, phi0, dphi0, alpha);
      emit({{"event", "Return"}, {"alpha", hex(r)}});
   }
   emit({{"event", "End"}});
}
