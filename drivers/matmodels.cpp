// Builds MISO's state-dependent material coefficients from generated components
// and libraries and records their values and derivatives.
#include "drv.hpp"
#include "coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "cal2_kh_coefficient.hpp"
#include "conductivity_coefficient.hpp"
#include "demag_flux_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include "reluctivity_coefficient.hpp"
#include "remnant_flux_coefficient.hpp"
using namespace mfem;
using namespace drv;

struct Coef
{
   std::unique_ptr<miso::StateCoefficient> one;
   std::unique_ptr<miso::TwoStateCoefficient> two;
   std::unique_ptr<miso::ThreeStateCoefficient> three;
   int n() const { return one ? 1 : two ? 2 : three ? 3 : 0; }
   Coefficient &base() { return one ? static_cast<Coefficient &>(*one) : two ? static_cast<Coefficient &>(*two) : *three; }
};
static Coef make(const std::string &k, const json &opt, const json &lib)
{
   Coef c;
   if (k == "sigma") { c.one = std::make_unique<miso::ConductivityCoefficient>(opt, lib); }
   if (k == "nu") { c.one = std::make_unique<miso::ReluctivityCoefficient>(opt, lib); }
   if (k == "br") { c.one = std::make_unique<miso::RemnantFluxCoefficient>(opt); }
   if (k == "bknee") { c.one = std::make_unique<miso::DemagFluxCoefficient>(opt, lib); }
   if (k == "demag") { c.two = std::make_unique<miso::PMDemagConstraintCoefficient>(opt, lib); }
   if (k == "kh") { c.three = std::make_unique<miso::CAL2khCoefficient>(opt, lib); }
   if (k == "ke") { c.three = std::make_unique<miso::CAL2keCoefficient>(opt, lib); }
   return c;
}

int main(int argc, char **argv)
{
   auto all = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   Mesh mesh = Mesh::MakeCartesian2D(1, 1, Element::QUADRILATERAL);
   auto &T = *mesh.GetElementTransformation(0);
   IntegrationPoint ip;
   ip.Set2(0.25, 0.625);
   T.SetIntPoint(&ip);
   for (auto &scn : all)
   {
      emit({{"event", "Reset"}});
      miso::ParameterContinuationCoefficient::setLambda(0.0);
      Coef c;
      json made, lib;
      std::string kind;
      for (auto &cmd : scn["cmds"])
      {
         std::string op = cmd["op"];
         if (op == "Build")
         {
            json e = {{"event", "Build"}, {"kind", cmd["kind"]}, {"comps", cmd["view"]}};
            kind = cmd["kind"];
            made = cmd["options"];
            lib = cmd["lib"];
            try
            {
               c = make(kind, made, lib);
               e["res"] = "ok";
            }
            catch (const std::exception &x)
            {
               c = Coef();
               e["res"] = "error";
            }
            emit(e);
            continue;
         }
         if (op == "Lambda")
         {
            double v = unhex(cmd["v"]);
            miso::ParameterContinuationCoefficient::setLambda(v);
            emit({{"event", "Lambda"}, {"v", hex(v)}, {"got", hex(miso::ParameterContinuationCoefficient::getLambda())}});
            continue;
         }
         if (!c.n()) { continue; }
         T.Attribute = cmd["attr"];
         std::vector<double> s;
         for (auto &x : cmd["s"]) { s.push_back(unhex(x)); }
         json e = {{"event", op}, {"attr", cmd["attr"]}, {"s", cmd["s"]}};
         if (op == "Plain")
         {
            e["v"] = hex(c.base().Eval(T, ip));
         }
         else if (op == "Eval")
         {
            json d = json::array(), dd = json::array();
            // every entry in an order of the scenario's choosing
            std::vector<double> r(13, 0.0);
            int n = c.n();
            std::vector<std::function<double()>> f;
            if (n == 1)
            {
               auto &k = *c.one;
               f = {[&] { return k.Eval(T, ip, s[0]); }, [&] { return k.EvalStateDeriv(T, ip, s[0]); }, [&] { return k.EvalState2ndDeriv(T, ip, s[0]); }};
            }
            else if (n == 2)
            {
               auto &k = *c.two;
               f = {[&] { return k.Eval(T, ip, s[0], s[1]); }, [&] { return k.EvalDerivS1(T, ip, s[0], s[1]); },
                    [&] { return k.EvalDerivS2(T, ip, s[0], s[1]); }, [&] { return k.Eval2ndDerivS1(T, ip, s[0], s[1]); },
                    [&] { return k.Eval2ndDerivS1S2(T, ip, s[0], s[1]); }, [&] { return k.Eval2ndDerivS2S1(T, ip, s[0], s[1]); },
                    [&] { return k.Eval2ndDerivS2(T, ip, s[0], s[1]); }};
            }
            else
            {
               auto &k = *c.three;
               double a = s[0], b = s[1], w = s[2];
               f = {[&k, &T, &ip, a, b, w] { return k.Eval(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.EvalDerivS1(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.EvalDerivS2(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.EvalDerivS3(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS1(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS1S2(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS1S3(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS2S1(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS2(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS2S3(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS3S1(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS3S2(T, ip, a, b, w); },
                    [&k, &T, &ip, a, b, w] { return k.Eval2ndDerivS3(T, ip, a, b, w); }};
            }
            int start = cmd["first"].get<int>() % f.size();
            for (std::size_t i = 0; i < f.size(); ++i)
            {
               std::size_t j = (start + i) % f.size();
               r[j] = f[j]();
            }
            for (int i = 0; i < n; ++i) { d.push_back(hex(r[1 + i])); }
            for (int i = 0; i < n; ++i)
            {
               json row = json::array();
               for (int j = 0; j < n; ++j) { row.push_back(hex(r[1 + n + n * i + j])); }
               dd.push_back(row);
            }
            e["v"] = hex(r[0]);
            e["d"] = d;
            e["dd"] = dd;
         }
         else if (c.n() != 1)
         {
            continue;
         }
         else if (op == "Vec")
         {
            // on attributes 1 and 2: coef * (coef * b); elsewhere the default coef * w, if there is one
            Vector b = vec(cmd["b"]), w = vec(cmd["w"]), v, d;
            VectorConstantCoefficient bc(b), wc(w);
            miso::ScalarVectorProductCoefficient in(*c.one, bc);
            std::unique_ptr<miso::VectorStateCoefficient> dflt;
            if (cmd["dflt"].get<bool>()) { dflt = std::make_unique<miso::ScalarVectorProductCoefficient>(*c.one, wc); }
            miso::VectorMeshDependentStateCoefficient m(b.Size(), std::move(dflt));
            for (int a : {1, 2}) { m.addCoefficient(a, std::make_unique<miso::ScalarVectorProductCoefficient>(*c.one, in)); }
            v.SetSize(b.Size());
            d.SetSize(b.Size());
            v = 7.0;
            d = 7.0;
            m.Eval(v, T, ip, s[0]);
            m.EvalStateDeriv(d, T, ip, s[0]);
            e["b"] = hex(b);
            e["w"] = hex(w);
            e["dflt"] = cmd["dflt"];
            e["v"] = hex(v);
            e["d"] = hex(d);
         }
         else if (op == "Cont")
         {
            double lin = unhex(cmd["lin"]);
            miso::ParameterContinuationCoefficient p(std::make_unique<ConstantCoefficient>(lin), std::move(make(kind, made, lib).one));
            e["lin"] = hex(lin);
            e["v"] = hex(p.Eval(T, ip, s[0]));
            e["d"] = hex(p.EvalStateDeriv(T, ip, s[0]));
         }
         emit(e);
      }
   }
   emit({{"event", "End"}});
   return 0;
}
