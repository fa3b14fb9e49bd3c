// AbstractSolver2's outputs and residual, with model outputs and a model
// residual whose values and derivatives are known integers.
#include "drv.hpp"
#include "abstract_solver.hpp"
#include "miso_input.hpp"
#include "miso_output.hpp"
#include "utils.hpp"
using namespace drv;
using namespace miso;
using mfem::Vector;

static int myrank, nranks;
static json num(double d)
{
   if (std::isfinite(d) && std::abs(d) < 1e9 && d == std::floor(d)) { return static_cast<int>(d); }
   return -123456789;
}
static json num(const Vector &v)
{
   json j = json::array();
   for (int i = 0; i < v.Size(); ++i) { j.push_back(num(v.GetData()[i])); }
   return j;
}
static Vector ints(const json &j)
{
   Vector v(static_cast<int>(j.size()));
   for (int i = 0; i < v.Size(); ++i) { v(i) = j[i].get<int>(); }
   return v;
}
static double total(const Vector &v)
{
   double s = 0;
   for (int i = 0; i < v.Size(); ++i) { s += v(i); }
   return s;
}

struct Fields
{
   double x = 0;
   Vector v, s;
   bool deep = false;
   std::string req;
   void give(const MISOInputs &in)
   {
      setValueFromInputs(in, "x", x, req == "x");
      setVectorFromInputs(in, "v", v, deep, req == "v");
      setVectorFromInputs(in, "state", s, deep);
   }
};
struct Out
{
   int n, k;
   Fields f;
   double one() const { return k * f.x * total(f.v) + total(f.s); }
   double along(const std::string &w, const Vector &d) const
   {
      return w == "x" ? k * total(f.v) * d(0) : w == "v" ? k * f.x * total(d) : w == "state" ? total(d) : 0.0;
   }
   double grad(const std::string &w) const { return w == "x" ? k * total(f.v) : w == "v" ? k * f.x : w == "state" ? 1.0 : 0.0; }
};
struct OutOne : Out {};
struct OutMany : Out {};
static void options(Out &o, const json &j) { if (j.contains("k")) { o.k = j["k"]; } }
int getSize(const OutOne &o) { return o.n; }
int getSize(const OutMany &o) { return o.n; }
void setInputs(OutOne &o, const MISOInputs &in) { o.f.give(in); }
void setInputs(OutMany &o, const MISOInputs &in) { o.f.give(in); }
void setOptions(OutOne &o, const json &j) { options(o, j); }
void setOptions(OutMany &o, const json &j) { options(o, j); }
// outputs of size 1 have the scalar functions only, the others the vector ones
double calcOutput(OutOne &o, const MISOInputs &) { return o.one(); }
double calcOutputPartial(OutOne &o, const std::string &w, const MISOInputs &) { return o.grad(w); }
void calcOutputPartial(OutOne &o, const std::string &w, const MISOInputs &, Vector &p) { p = o.grad(w); }
double jacobianVectorProduct(OutOne &o, const Vector &d, const std::string &w) { return o.along(w, d); }
double vectorJacobianProduct(OutOne &o, const Vector &b, const std::string &w) { return b(0) * o.grad(w); }
void vectorJacobianProduct(OutOne &o, const Vector &b, const std::string &w, Vector &bar)
{
   for (int j = 0; j < bar.Size(); ++j) { bar(j) += b(0) * o.grad(w); }
}
static double weight(const Vector &b)
{
   double w = 0;
   for (int i = 0; i < b.Size(); ++i) { w += (i + 1) * b(i); }
   return w;
}
double calcOutput(OutMany &, const MISOInputs &) { throw NotImplementedException("scalar"); }
void calcOutput(OutMany &o, const MISOInputs &, Vector &r)
{
   for (int i = 0; i < o.n; ++i) { r(i) = (i + 1) * o.one(); }
}
void jacobianVectorProduct(OutMany &o, const Vector &d, const std::string &w, Vector &r)
{
   for (int i = 0; i < o.n; ++i) { r(i) += (i + 1) * o.along(w, d); }
}
double vectorJacobianProduct(OutMany &o, const Vector &b, const std::string &w) { return weight(b) * o.grad(w); }
void vectorJacobianProduct(OutMany &o, const Vector &b, const std::string &w, Vector &bar)
{
   for (int j = 0; j < bar.Size(); ++j) { bar(j) += weight(b) * o.grad(w); }
}

constexpr int NS = 2;
struct Res
{
   Fields f;
   double lx = 0;
   double ls[NS] = {0, 0};
};
static double get(const Vector &v, int i) { return i < v.Size() ? v(i) : 0.0; }
int getSize(const Res &) { return NS; }
void setInputs(Res &r, const MISOInputs &in) { r.f.give(in); }
void setOptions(Res &, const json &) {}
void evaluate(Res &r, const MISOInputs &, Vector &out)
{
   out.SetSize(NS);
   for (int i = 0; i < NS; ++i) { out(i) = r.f.x * get(r.f.s, i) * get(r.f.s, i) + get(r.f.v, i); }
}
mfem::Operator &getJacobian(Res &, const MISOInputs &, const std::string &) { throw std::runtime_error("jac"); }
void linearize(Res &r, const MISOInputs &in)
{
   r.f.give(in);
   r.lx = r.f.x;
   for (int i = 0; i < NS; ++i) { r.ls[i] = get(r.f.s, i); }
}
void jacobianVectorProduct(Res &r, const Vector &d, const std::string &w, Vector &o)
{
   for (int i = 0; i < NS; ++i)
   {
      o(i) += w == "x" ? r.ls[i] * r.ls[i] * d(0) : w == "state" ? 2 * r.lx * r.ls[i] * d(i) : w == "v" ? d(i) : 0.0;
   }
}
double jacobianVectorProduct(Res &r, const Vector &d, const std::string &w)
{
   Vector o(NS);
   o = 0.0;
   jacobianVectorProduct(r, d, w, o);
   return total(o);
}
double vectorJacobianProduct(Res &r, const Vector &b, const std::string &)
{
   return r.ls[0] * r.ls[0] * b(0) + r.ls[1] * r.ls[1] * b(1);
}
void vectorJacobianProduct(Res &r, const Vector &b, const std::string &w, Vector &o)
{
   for (int i = 0; i < NS; ++i) { o(i) += w == "state" ? 2 * r.lx * r.ls[i] * b(i) : w == "v" ? b(i) : 0.0; }
}

struct Inner : mfem::Solver
{
   Inner() : mfem::Solver(NS) {}
   void SetOperator(const mfem::Operator &) override {}
   void Mult(const Vector &, Vector &k) const override { k = 0.0; }
};
struct Probe : AbstractSolver2
{
   Inner inner;
   Probe(const std::string &kind) : AbstractSolver2(MPI_COMM_WORLD, {{"silent", true}, {"print-options", false}})
   {
      if (kind == "spatial") { spatial_res = std::make_unique<MISOResidual>(Res{}); }
      if (kind == "spacetime") { space_time_res = std::make_unique<MISOResidual>(Res{}); }
   }
   void unsteady(bool u)
   {
      ode.reset();
      if (u) { ode = std::make_unique<FirstOrderODE>(*spatial_res, json{{"type", "RK1"}}, inner); }
   }
   void addOutput(const std::string &name, const json &o) override
   {
      if (o["kind"] == "bogus") { throw MISOException("unknown output"); }
      Out b;
      b.n = o["n"];
      b.k = o["k"];
      b.f.deep = o["deep"];
      b.f.req = o["req"].get<std::string>();
      if (o["kind"] == "one") { outputs.emplace(name, OutOne{b}); }
      else { outputs.emplace(name, OutMany{b}); }
   }
};

static std::map<std::string, Vector> bufs;
static void fill(const std::string &b, const json &v)
{
   for (int i = 0; i < NS; ++i) { bufs[b](i) = v[i].get<int>() + myrank; }
}
static MISOInputs inputs(const json &j)
{
   MISOInputs in;
   for (auto &[k, v] : j.items())
   {
      if (v[0] == "num") { in.emplace(k, double(v[1].get<int>())); }
      else { in.emplace(k, InputVector(bufs.at(v[1].get<std::string>()))); }
   }
   return in;
}
template <class F>
static std::string attempt(F f)
{
   try { f(); }
   catch (NotImplementedException &) { return "not implemented"; }
   catch (MISOException &) { return "error"; }
   catch (std::bad_variant_access &) { return "kind"; }
   return "";
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   MPI_Comm_rank(MPI_COMM_WORLD, &myrank);
   MPI_Comm_size(MPI_COMM_WORLD, &nranks);
   auto scn = load(argv[1]);
   trace().open(myrank == 0 ? argv[2] : "/dev/null");
   Quiet quiet;
   for (const auto &sc : scn)
   {
      emit({{"event", "Reset"}});
      for (auto b : {"p", "q"})
      {
         bufs[b].SetSize(NS);
         fill(b, sc["bufs"][b]);
      }
      Probe p(sc["kind"].get<std::string>());
      emit({{"event", "Setup"}, {"kind", sc["kind"]}, {"bufs", sc["bufs"]}});
      for (const auto &c : sc["ops"])
      {
         const std::string op = c["op"];
         json e = c;
         e["event"] = op;
         if (op == "create")
         {
            e["err"] = attempt([&] { p.createOutput(c["o"], {{"kind", c["kind"]}, {"n", c["n"]}, {"k", c["k"]}, {"deep", c["deep"]}, {"req", c["req"]}}); });
         }
         else if (op == "size")
         {
            e["n"] = -1;
            e["err"] = attempt([&] { e["n"] = p.getOutputSize(c["o"]); });
         }
         else if (op == "options")
         {
            e["err"] = attempt([&] { p.setOutputOptions(c["o"], {{"k", c["k"]}}); });
         }
         else if (op == "calc")
         {
            MISOInputs in = inputs(c["in"]);
            Vector r = ints(c["buf"]);
            if (c["vec"].get<bool>()) { e["err"] = attempt([&] { p.calcOutput(c["o"].get<std::string>(), in, r); }); }
            else { e["err"] = attempt([&] { r(0) = p.calcOutput(c["o"].get<std::string>(), in); }); }
            e["got"] = num(r);
         }
         else if (op == "partial")
         {
            MISOInputs in = inputs(c["in"]);
            Vector r = ints(c["pre"]);
            if (c["wrt"] == "x") { e["err"] = attempt([&] { p.calcOutputPartial(c["o"], c["wrt"], in, r(0)); }); }
            else { e["err"] = attempt([&] { p.calcOutputPartial(c["o"], c["wrt"], in, r); }); }
            e["post"] = num(r);
         }
         else if (op == "jvp" || op == "vjp")
         {
            MISOInputs in = inputs(c["in"]);
            const Vector d = ints(c["d"]);
            Vector r = ints(c["pre"]);
            e["err"] = attempt([&] {
               if (op == "jvp") { p.outputJacobianVectorProduct(c["o"], in, d, c["wrt"], r); }
               else { p.outputVectorJacobianProduct(c["o"], in, d, c["wrt"], r); }
            });
            e["post"] = num(r);
            e["d"] = num(d);
         }
         else if (op == "touch") { fill(c["b"], c["v"]); }
         else if (op == "residual")
         {
            MISOInputs in = inputs(c["in"]);
            Vector r = ints(c["buf"]);
            // the state alone may be given without naming it
            if (c["bare"].get<bool>()) { e["err"] = attempt([&] { p.calcResidual(bufs.at(c["in"]["state"][1].get<std::string>()), r); }); }
            else { e["err"] = attempt([&] { p.calcResidual(in, r); }); }
            e["got"] = num(r);
         }
         else if (op == "norm")
         {
            MISOInputs in = inputs(c["in"]);
            double r = 0;
            if (c["bare"].get<bool>()) { e["err"] = attempt([&] { r = p.calcResidualNorm(bufs.at(c["in"]["state"][1].get<std::string>())); }); }
            else { e["err"] = attempt([&] { r = p.calcResidualNorm(in); }); }
            e["got"] = hex(r);
            e["nr"] = nranks;
         }
         else if (op == "linearize")
         {
            MISOInputs in = inputs(c["in"]);
            e["err"] = attempt([&] { p.linearize(in); });
         }
         else if (op == "rjvp" || op == "rvjp")
         {
            const Vector d = ints(c["d"]);
            Vector r = ints(c["pre"]);
            bool sc1 = c["scalar"];
            e["err"] = attempt([&] {
               if (op == "rjvp" && sc1) { r(0) = p.jacobianVectorProduct(d, c["wrt"]); }
               else if (op == "rjvp") { p.jacobianVectorProduct(d, c["wrt"], r); }
               else if (sc1) { r(0) = p.vectorJacobianProduct(d, c["wrt"]); }
               else { p.vectorJacobianProduct(d, c["wrt"], r); }
            });
            e["post"] = num(r);
            e["d"] = num(d);
         }
         else if (op == "adjoint")
         {
            Vector a(NS), b(NS);
            a = 1.0;
            b = 1.0;
            e["err"] = attempt([&] { p.solveForAdjoint(bufs.at("p"), b, a); });
         }
         else if (op == "unsteady") { p.unsteady(c["on"].get<bool>()); }
         else if (op == "statesize")
         {
            e["n"] = -1;
            e["err"] = attempt([&] { e["n"] = p.getStateSize(); });
         }
         else if (op == "fieldsize")
         {
            e["n"] = -1;
            e["err"] = attempt([&] { e["n"] = p.getFieldSize(c["name"]); });
         }
         else if (op == "setstate")
         {
            // a function sets the state; the error of a state is its distance
            // from a function's or a vector's values, over all ranks
            const Vector &w = bufs.at(c["b"].get<std::string>());
            Vector s = ints(c["pre"]);
            s += double(myrank);
            e["err"] = hex(p.calcStateError([&](Vector &x) { x = w; }, s));
            e["errv"] = hex(p.calcStateError(Vector(w), s));
            p.setState([&](Vector &x) { x = w; }, s);
            e["got"] = num(s);
            e["kept"] = num(w);
            e["nr"] = nranks;
         }
         else { throw std::runtime_error("op"); }
         emit(e);
      }
   }
   emit({{"event", "End"}});
}
