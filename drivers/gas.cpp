// Evaluates the flux functions of /repo, as instantiated for numbers and for
// differentiable numbers.
#include "drv.hpp"
#include "adept.h"
#include "euler_fluxes.hpp"
#include "navier_stokes_fluxes.hpp"
using drv::json;
using adept::adouble;
template <class T> using V = std::vector<T>;
using D = V<double>;
static double val(double x) { return x; }
static double val(const adouble &x) { return x.value(); }
template <class T> static D vals(const V<T> &v) { D r; for (auto &x : v) { r.push_back(val(x)); } return r; }
static D in(const json &j) { D v; for (auto &x : j) { v.push_back(drv::unhex(x)); } return v; }
template <class T> static V<T> lift(const D &v) { return V<T>(v.begin(), v.end()); }

template <class T, int d>
struct Gas
{
   const json &c;
   json &e;  // extra results, recorded once
   V<T> a(const char *k) const { return lift<T>(in(c.at(k))); }
   double s(const char *k) const { return drv::unhex(c.at(k)); }
   void put(const char *k, const V<T> &v) { e[k] = drv::hexv(vals(v)); }
   V<T> z(int n = d + 2) const { return V<T>(n); }
   static V<T> W(const V<T> &q) { V<T> w(d + 2); miso::calcEntropyVars<T, d, false>(q.data(), w.data()); return w; }
   // gradients come as one vector per axis
   V<T> grad() const { V<T> g; for (auto &x : c.at("Dw")) { for (auto &y : lift<T>(in(x))) { g.push_back(y); } } return g; }
   static json rows(const V<T> &g) { json j = json::array(); auto x = vals(g); for (int i = 0; i < d; ++i) { j.push_back(drv::hexv(D(x.begin() + i * (d + 2), x.begin() + (i + 1) * (d + 2)))); } return j; }

   V<T> go()
   {
      std::string op = c.at("op");
      V<T> o = z();
      if (op == "freestream")
      {
         miso::getFreeStreamQ<T, d>(s("mach"), s("aoa"), c.at("roll"), c.at("pitch"), o.data());
         return o;
      }
      if (op == "logavg")
      {
         auto n = a("n");
         put("swap", {miso::logavg<T>(n[1], n[0])});
         return {miso::logavg<T>(n[0], n[1])};
      }
      auto q = a("q");
      if (op == "pressure")
      {
         auto g = z();
         miso::dpressdq<T, d>(q.data(), g.data());
         put("grad", g);
         return {miso::pressure<T, d>(q.data())};
      }
      if (op == "entvars")
      {
         auto w = W(q), id = z();
         miso::calcEntropyVars<T, d, true>(w.data(), id.data());
         put("w", w);
         put("id", id);
         return w;
      }
      auto w = W(q);
      if (op == "consvars")
      {
         auto id = z();
         miso::calcConservativeVars<T, d, true>(w.data(), o.data());
         miso::calcConservativeVars<T, d, false>(w.data(), id.data());
         put("w", w);
         put("id", id);
         return o;
      }
      if (op == "entropy") { put("viaw", {miso::entropy<T, d, true>(w.data())}); return {miso::entropy<T, d, false>(q.data())}; }
      if (op == "sutherland") { return {miso::calcSutherlandViscosity<T, d>(q.data())}; }
      if (op == "dqdw") { auto v = a("v"); miso::calcdQdWProduct<T, d>(q.data(), v.data(), o.data()); return o; }
      if (op == "lps")
      {
         V<T> adj;
         for (auto &x : c.at("adj")) { for (auto &y : lift<T>(in(x))) { adj.push_back(y); } }
         auto v = a("v"), o2 = z();
         miso::applyLPSScaling<T, d>(adj.data(), q.data(), v.data(), o.data());
         miso::applyLPSScalingUsingEntVars<T, d>(adj.data(), w.data(), v.data(), o2.data());
         put("viaw", o2);
         return o;
      }
      if (op == "entropyref") { return eref(q); }
      auto n = a("n");
      const T *N = n.data();
      if (op == "euler") { miso::calcEulerFlux<T, d>(N, q.data(), o.data()); return o; }
      if (op == "radius") { put("viaw", {miso::calcSpectralRadius<T, d, true>(N, w.data())}); return {miso::calcSpectralRadius<T, d>(N, q.data())}; }
      if (op == "slip") { miso::projectStateOntoWall<T, d>(N, q.data(), o.data()); return o; }
      if (op == "wall")
      {
         V<T> x = z(3), o2 = z();
         miso::calcSlipWallFlux<T, d, false>(x.data(), N, q.data(), o.data());
         miso::calcSlipWallFlux<T, d, true>(x.data(), N, w.data(), o2.data());
         put("viaw", o2);
         return o;
      }
      if (op == "control") { miso::calcControlFlux<T, d>(N, q.data(), T(s("u")), o.data()); return o; }
      auto two = [&](auto f, const char *swap = "", const char *same = "")
      {
         auto r = a("r"), o2 = z();
         f(q, r, o);
         if (*swap) { f(r, q, o2); put(swap, o2); }
         if (*same) { f(q, q, o2); put(same, o2); }
      };
      if (op == "roe")
      {
         auto r = a("r"), m = n, o2 = z();
         for (auto &x : m) { x = -x; }
         two([&](V<T> &l, V<T> &r, V<T> &f) { miso::calcRoeFaceFlux<T, d>(N, l.data(), r.data(), f.data()); }, "", "same");
         miso::calcRoeFaceFlux<T, d>(m.data(), r.data(), q.data(), o2.data());
         put("back", o2);
         return o;
      }
      if (op == "ir" || op == "irdiss")
      {
         auto r = a("r"), o2 = z(), wr = W(r);
         if (op == "irdiss")
         {
            T k = s("c");
            miso::calcIsmailRoeFaceFluxWithDiss<T, d>(N, k, q.data(), r.data(), o.data());
            miso::calcIsmailRoeFaceFluxWithDissUsingEntVars<T, d>(N, k, w.data(), wr.data(), o2.data());
            put("viaw", o2);
            miso::calcIsmailRoeFaceFlux<T, d>(N, q.data(), r.data(), o2.data());
            put("plain", o2);
            return o;
         }
         two([&](V<T> &l, V<T> &r, V<T> &f) { miso::calcIsmailRoeFaceFlux<T, d>(N, l.data(), r.data(), f.data()); }, "swap", "same");
         miso::calcIsmailRoeFaceFluxUsingEntVars<T, d>(N, w.data(), wr.data(), o2.data());
         put("viaw", o2);
         json ax = json::array(), axw = json::array();
         for (int i = 0; i < d; ++i)
         {
            miso::calcIsmailRoeFlux<T, d>(i, q.data(), r.data(), o2.data());
            ax.push_back(drv::hexv(vals(o2)));
            miso::calcIsmailRoeFluxUsingEntVars<T, d>(i, w.data(), wr.data(), o2.data());
            axw.push_back(drv::hexv(vals(o2)));
         }
         e["axis"] = ax;
         e["axisw"] = axw;
         return o;
      }
      V<T> work = z();
      if (op == "bnd") { auto b = a("r"); miso::calcBoundaryFlux<T, d>(N, b.data(), q.data(), work.data(), o.data()); return o; }
      if (op == "bndec") { auto b = a("r"); miso::calcBoundaryFluxEC<T, d>(N, b.data(), q.data(), T(s("ef")), o.data()); return o; }
      if (op == "far")
      {
         auto b = a("r"), o2 = z();
         miso::calcFarFieldFlux<T, d, false>(N, b.data(), q.data(), work.data(), o.data());
         miso::calcFarFieldFlux<T, d, true>(N, b.data(), w.data(), work.data(), o2.data());
         put("viaw", o2);
         return o;
      }
      if (op == "far2") { auto b = a("r"); miso::calcFarFieldFlux2<T, d>(N, b.data(), q.data(), work.data(), o.data()); return o; }
      if constexpr (d == 2)
      {
         if (op == "vortexflux")
         {
            auto x = a("x"), o2 = z(), b = z();
            miso::calcIsentropicVortexState<T>(x.data(), b.data());
            put("r", b);
            miso::calcIsentropicVortexFlux<T, false>(x.data(), N, q.data(), o.data());
            miso::calcIsentropicVortexFlux<T, true>(x.data(), N, w.data(), o2.data());
            put("viaw", o2);
            return o;
         }
      }
      // viscous terms
      double Pr = s("Pr");
      T mu = s("mu");
      auto g = grad();
      if (op == "tangent") { V<T> t((d + 2) * d); miso::setZeroNormalDeriv<T, d>(N, g.data(), t.data()); e["dw"] = rows(t); return q; }
      if (op == "viscous")
      {
         json f = json::array();
         for (int i = 0; i < d; ++i) { miso::applyViscousScaling<T, d>(i, mu, Pr, q.data(), g.data(), o.data()); f.push_back(drv::hexv(vals(o))); }
         e["f"] = f;
         return o;
      }
      if (op == "adiabatic") { miso::calcAdiabaticWallFlux<T, d>(N, mu, Pr, q.data(), g.data(), o.data()); return o; }
      if (op == "dual") { V<T> t((d + 2) * d); miso::calcNoSlipDualFlux<T, d>(N, mu, Pr, q.data(), t.data()); e["f"] = rows(t); return t; }
      auto r = a("r");
      T jac = s("jac");
      if (op == "noslip") { miso::calcNoSlipPenaltyFlux<T, d>(N, jac, mu, Pr, r.data(), q.data(), o.data()); return o; }
      if (op == "penalty")
      {
         auto o2 = z(), at = a("at");
         miso::calcNoSlipPenaltyFlux<T, d>(N, jac, mu, Pr, r.data(), q.data(), o2.data());
         put("noslip", o2);
         T u = s("u");
         miso::calcControlPenaltyFlux<T, d>(N, jac, mu, Pr, u, r.data(), at.data(), o2.data());
         put("zero", o2);  // where the flow already has the velocity asked for
         miso::calcControlPenaltyFlux<T, d>(N, jac, mu, Pr, u, r.data(), q.data(), o.data());
         return o;
      }
      throw std::runtime_error("op " + op);
   }
   V<T> eref(V<T> &q)
   {
      auto r = a("r");
      put("self", {miso::entropy<T, d>(r.data(), r.data())});
      return {miso::entropy<T, d>(q.data(), r.data())};
   }
};

// exact solutions, sampled around a point
template <class F>
static void sample(json &e, int dim, const D &x, double h, F state, bool twice)
{
   static const int off[4] = {-2, -1, 1, 2};
   json st = json::array(), st2 = json::array();
   for (int d = 0; d < dim; ++d)
   {
      json a = json::array(), a2 = json::array();
      for (int i : off)
      {
         D y(x);
         y[d] += i * h;
         a.push_back(drv::hexv(state(y)));
         json b = json::array();
         for (int k = 0; twice && k < dim; ++k)
         {
            json cc = json::array();
            for (int m : off) { D w(y); w[k] += m * h; cc.push_back(drv::hexv(state(w))); }
            b.push_back(cc);
         }
         a2.push_back(b);
      }
      st.push_back(a);
      st2.push_back(a2);
   }
   e["st"] = st;
   if (twice) { e["st2"] = st2; }
   e["h"] = drv::hex(h);
}
template <class T>
static D exact(const json &c, json &e)
{
   std::string op = c.at("op");
   D x = in(c.at("n"));
   int dim = x.size();
   double h = drv::unhex(c.at("step"));
   if (op == "vortex")
   {
      auto f = [](const D &y) { auto v = lift<T>(y); V<T> q(4); miso::calcIsentropicVortexState<T>(v.data(), q.data()); return vals(q); };
      sample(e, 2, x, h, f, false);
      return f(x);
   }
   bool visc = c.at("viscous");
   // nothing outside the coordinates given
   auto f = [&](const D &y)
   {
      D z(y);
      z.resize(8, std::nan(""));
      V<double> q(5);
      if (visc) { miso::viscousMMSExact<double>(dim, z.data(), q.data()); }
      else { miso::InviscidMMSExact<double>(dim, z.data(), q.data()); }
      q.resize(dim + 2);
      return q;
   };
   sample(e, dim, x, h, f, visc);
   D src(5), z(x);
   z.resize(8, std::nan(""));
   if (visc) { miso::calcViscousMMS<double>(dim, drv::unhex(c.at("mu")), drv::unhex(c.at("Pr")), z.data(), src.data()); }
   else { miso::calcInviscidMMS<double>(dim, z.data(), src.data()); }
   src.resize(dim + 2);
   return src;
}
template <int d>
static void jacobian(const json &c, adept::Stack &stack, json &e)
{
   mfem::Vector q = drv::vec(c.at("q"));
   mfem::DenseMatrix J(d + 2);
   miso::convertVarsJac<d>(q, stack, J);
   e["jac"] = drv::hexm(J);
   e["out"] = e["outAD"] = drv::hex(q);
}
template <int d>
static void eval(const json &c, adept::Stack &stack, json &e)
{
   if (c.at("op") == "jacw") { jacobian<d>(c, stack, e); return; }
   json rest;
   stack.new_recording();
   e["outAD"] = drv::hexv(vals(Gas<adouble, d>{c, rest}.go()));
   e["out"] = drv::hexv(Gas<double, d>{c, e}.go());
   // the extra results agree as well
   e["more"] = e["moreAD"] = json::array();
   for (auto &x : rest.items())
   {
      json &o = e["more"], &oa = e["moreAD"];
      if (x.value()[0].is_string()) { for (auto &y : e[x.key()]) { o.push_back(y); } for (auto &y : x.value()) { oa.push_back(y); } }
   }
}

int main(int argc, char **argv)
{
   drv::trace().open(argv[2]);
   auto all = drv::load(argv[1]);
   drv::Quiet quiet;
   for (auto &s : all)
   {
      adept::Stack stack;
      drv::emit({{"event", "Reset"}});
      for (auto &c : s.at("cmds"))
      {
         json e = c;
         e["event"] = "Eval";
         e["more"] = e["moreAD"] = json::array();
         std::string op = c.at("op");
         if (op == "vortex" || op == "mms")
         {
            e["out"] = e["outAD"] = drv::hexv(exact<double>(c, e));
            if (op == "vortex") { json r; stack.new_recording(); e["outAD"] = drv::hexv(exact<adouble>(c, r)); }
         }
         else if (c.at("dim") == 1) { eval<1>(c, stack, e); }
         else if (c.at("dim") == 2) { eval<2>(c, stack, e); }
         else { eval<3>(c, stack, e); }
         drv::emit(e);
      }
   }
   drv::emit({{"event", "End"}});
}
