// Drives TimeDependentResidual (inside the MISOResidual that holds it).
#include "resmock.hpp"
#include "ode.hpp"
using namespace drv;
using namespace miso;

struct Res
{
   const Problem *P;
   bool hyp;
   double t = 0, p = 0;
   std::unique_ptr<mfem::Operator> J;
};
static json said;
static mfem::Solver *theprec;
int getSize(const Res &r) { return r.P->n(); }
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
void setInputs(Res &r, const MISOInputs &in)
{
   setValueFromInputs(in, "time", r.t);
   setValueFromInputs(in, "p", r.p);
}
void setOptions(Res &, const json &o) { said = {{"options", o}}; }
void evaluate(Res &r, const MISOInputs &in, mfem::Vector &out)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, false, true);
   out.SetSize(r.P->n());
   r.P->R(u, r.t, r.p, out);
}
mfem::Operator &getJacobian(Res &r, const MISOInputs &in, const std::string &wrt)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, false, true);
   if (wrt != "state") throw MISOException("wrt");
   mfem::DenseMatrix M;
   r.P->J(u, M);
   r.J.reset(r.hyp ? (mfem::Operator *)hypre(M) : new mfem::DenseMatrix(M));
   return *r.J;
}
static double ask(const char *what, const MISOInputs &in)
{
   mfem::Vector u, k;
   double h = NAN, t = NAN;
   setVectorFromInputs(in, "state", u, true, true);
   setVectorFromInputs(in, "state_dot", k, true);
   setValueFromInputs(in, "dt", h);
   setValueFromInputs(in, "time", t);
   double s = 0;
   for (int i = 0; i < u.Size(); ++i) s += (i + 1.5) * u(i);
   said = {{"what", what}, {"state", hex(u)}, {"state_dot", hex(k)}, {"dt", hex(h)}, {"time", hex(t)}, {"value", hex(s)}};
   return s;
}
double calcEntropy(Res &, const MISOInputs &in) { return ask("entropy", in); }
double calcEntropyChange(Res &, const MISOInputs &in) { return ask("change", in); }
double calcSupplyRate(Res &, const MISOInputs &in) { return ask("supply", in); }
mfem::Solver *getPreconditioner(Res &) { return theprec; }

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   Quiet q;
   trace().open(argv[2]);
   for (auto &scn : load(argv[1]))
   {
      Problem P;
      std::map<std::string, mfem::Vector> slot;
      std::vector<std::unique_ptr<mfem::Operator>> keep;
      std::unique_ptr<MISOResidual> spatial, res;
      mfem::Operator *mass = nullptr;
      mfem::Array<int> off;
      auto after = [&]()
      {
         json j = json::object();
         for (auto &s : slot) j[s.first] = hex(s.second);
         return j;
      };
      std::string sd;
      for (auto &c : scn["cmds"])
      {
         std::string k = c["cmd"];
         json e = c;
         e.erase("cmd");
         e["event"] = k;
         if (k == "Reset")
         {
            P = problem(c);
            std::string mk = c["mk"];
            mfem::DenseMatrix M = mat(c["M"]);
            if (mk == "hypre") mass = hypre(M);
            if (mk == "block")
            {
               int s = c["split"];
               off.SetSize(3);
               off[0] = 0;
               off[1] = s;
               off[2] = P.n();
               auto *bo = new mfem::BlockOperator(off);
               for (int i = 0; i < 2; ++i)
                  for (int j = 0; j < 2; ++j)
                  {
                     auto *B = new mfem::DenseMatrix(off[i + 1] - off[i], off[j + 1] - off[j]);
                     for (int a = 0; a < B->Height(); ++a)
                        for (int b = 0; b < B->Width(); ++b) (*B)(a, b) = M(off[i] + a, off[j] + b);
                     keep.emplace_back(B);
                     bo->SetBlock(i, j, B);
                  }
               mass = bo;
            }
            if (mass) keep.emplace_back(mass);
            e.erase("split");
            Res r;
            r.P = &P;
            r.hyp = mk == "hypre" || mk == "mixed";
            spatial = std::make_unique<MISOResidual>(std::move(r));
            res = std::make_unique<MISOResidual>(TimeDependentResidual(*spatial, mass));
         }
         else if (k == "Vec")
         {
            mfem::Vector v = vec(c["v"]);
            if (!slot.count(c["s"])) slot[c["s"]].SetSize(v.Size());
            for (int i = 0; i < v.Size(); ++i) slot[c["s"]](i) = v(i);
         }
         else if (k == "Set")
         {
            MISOInputs in;
            for (auto &x : c["in"].items())
            {
               if (x.key() == "state" || x.key() == "state_dot") in.emplace(x.key(), slot[x.value()]);
               else if (x.key() != "other") in.emplace(x.key(), unhex(x.value()));
               else in.emplace("other", 3.5);
               if (x.key() == "state_dot") sd = x.value();
            }
            setInputs(*res, in);
         }
         else if (k == "Eval")
         {
            mfem::Vector r(P.n());
            r = NAN;
            if (c["via"] == "Mult") res->Mult(slot[sd], r);
            else
            {
               MISOInputs in;
               evaluate(*res, in, r);
            }
            e["r"] = hex(r);
            e["after"] = after();
            e.erase("via");
         }
         else if (k == "Jac")
         {
            e["err"] = "";
            try
            {
               MISOInputs in;
               mfem::Operator &J = c["via"] == "GetGradient" ? res->GetGradient(slot[sd]) : getJacobian(*res, in, "state");
               mfem::Vector x = vec(c["x"]), y(P.n());
               y = NAN;
               J.Mult(x, y);
               e["y"] = hex(y);
            }
            catch (const MISOException &) { e["err"] = "MISOException"; }
            catch (...) { e["err"] = "other"; }
            e["after"] = after();
            e.erase("via");
         }
         else if (k == "Forward")
         {
            std::string what = c["what"];
            json got;
            said = json();
            mfem::Vector u = vec(c["u"]), d = vec(c["d"]);
            double h = unhex(c["h"]), t = unhex(c["t"]);
            MISOInputs in{{"state", u}, {"state_dot", d}, {"dt", h}, {"time", t}};
            auto ent = [&](double v)
            {
               got = {{"what", what}, {"state", hex(u)}, {"state_dot", hex(d)}, {"dt", hex(h)}, {"time", hex(t)}, {"value", hex(v)}};
            };
            if (what == "entropy") ent(calcEntropy(*res, in));
            if (what == "change") ent(calcEntropyChange(*res, in));
            if (what == "supply") ent(calcSupplyRate(*res, in));
            if (what == "options")
            {
               json o = {{"a", hex(h)}, {"b", {1, 2}}};
               setOptions(*res, o);
               got = {{"options", o}};
            }
            if (what == "size")
            {
               said = {P.n(), P.n(), P.n()};
               got = {getSize(*res), res->Height(), res->Width()};
            }
            if (what == "prec")
            {
               mfem::CGSolver cg;
               theprec = &cg;
               said = {"same"};
               got = {getPreconditioner(*res) == &cg ? "same" : "another"};
            }
            e = {{"event", "Forward"}, {"what", what}, {"said", said.dump()}, {"got", got.dump()}};
         }
         else { return 97; }
         emit(e);
      }
   }
   emit({{"event", "End"}});
   return 0;
}
