// Losses, heat sources and forces of electromagnetic machines under a history
// of inputs.  Integrals a value is made of, and every evaluation a derivative
// is compared with, come from objects built anew for that one point.
#define main forms_main
#include "forms.cpp"
#undef main
#include <functional>
#include "common_outputs.hpp"
#include "electromag_outputs.hpp"
#include "cal2_kh_coefficient.hpp"
#include "cal2_ke_coefficient.hpp"

// one of the outputs, whatever its class
struct Any
{
   std::function<void(const miso::MISOInputs &)> set;
   std::function<double(const miso::MISOInputs &)> calc;
   std::function<void(const miso::MISOInputs &, Vector &)> calcV;
   std::function<double(const Vector &, const std::string &)> jvp, vjpS;
   std::function<void(const Vector &, const std::string &, Vector &)> vjpV;
   std::function<void(const std::string &, const miso::MISOInputs &, Vector &)> partial;
   std::function<int()> size;
};
template <typename O>
std::shared_ptr<O> common(Any &a, std::shared_ptr<O> o)
{
   a.set = [o](const miso::MISOInputs &in) { setInputs(*o, in); };
   a.vjpV = [o](const Vector &b, const std::string &w, Vector &r) { vectorJacobianProduct(*o, b, w, r); };
   return o;
}
template <typename O>
void scalarOut(Any &a, std::shared_ptr<O> o)
{
   common(a, o);
   a.calc = [o](const miso::MISOInputs &in) { return calcOutput(*o, in); };
   a.jvp = [o](const Vector &d, const std::string &w) { return jacobianVectorProduct(*o, d, w); };
   a.size = [] { return 1; };
}
template <typename O>
void scalarRev(Any &a, std::shared_ptr<O> o)
{
   a.vjpS = [o](const Vector &b, const std::string &w) { return vectorJacobianProduct(*o, b, w); };
}
template <typename O>
void fieldOut(Any &a, std::shared_ptr<O> o)
{
   common(a, o);
   a.calcV = [o](const miso::MISOInputs &in, Vector &v) { calcOutput(*o, in, v); };
   scalarRev(a, o);
   a.size = [o] { return getSize(*o); };
}

struct OutWorld
{
   json c;
   World w;
   std::string out;
   SC *sc = nullptr;
   Any a;
   std::vector<std::string> scalars;

   json opts()
   {
      json o = json::object();
      if (!c["attrs"].is_null()) { o["attributes"] = c["attrs"]; }
      if (!c["ess"].empty()) { o["bcs"] = {{"essential", c["ess"]}}; }
      return o;
   }
   json coreOpts()
   {
      json o = opts();
      if (!c["core"].is_null()) { o["attributes"] = c["core"]; }
      return o;
   }
   explicit OutWorld(const json &cfg, bool bare = false) : c(cfg), w(cfg["world"]), out(cfg["out"])
   {
      sc = &w.coef<SC>(w.space(c["vary"].get<bool>()), 0.8 * rnd(w.seed, "sc", w.ncoef, 9));
      auto &mc = w.fields.at("mesh_coords");
      if (out == "force" || out == "torque")
      {
         const std::string n = "v" + out;
         w.fields.emplace(std::piecewise_construct, std::forward_as_tuple(n), std::forward_as_tuple(*w.mesh, mc.space(), n));
         w.fields.at(n).gridFunc() = 9.0;
      }
      const std::vector<std::string> dc{"wire_length", "rms_current", "strand_radius", "strands_in_hand"},
          ac{"frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots"};
      std::set<std::string> s;
      if (out == "dc" || out == "dcdist" || out == "heat") { s.insert(dc.begin(), dc.end()); }
      if (out == "dcdist" || out == "heat" || out == "ac") { s.insert("stack_length"); }
      if (out == "ac" || out == "acdist" || out == "heat") { s.insert(ac.begin(), ac.end()); }
      if (out == "core" || out == "coredist" || out == "heat") { s.insert("frequency"); }
      scalars.assign(s.begin(), s.end());
      if (bare) { return; }
      auto &f = w.fields;
      auto o = opts();
      if (out == "dc") { auto p = std::make_shared<miso::DCLossFunctional>(f, *sc, o); scalarOut(a, p); scalarRev(a, p); }
      else if (out == "ac") { auto p = std::make_shared<miso::ACLossFunctional>(f, *sc, o); scalarOut(a, p); scalarRev(a, p); }
      else if (out == "core")
      {
         auto p = std::make_shared<miso::CoreLossFunctional>(f, c["components"], c["materials"], coreOpts());
         scalarOut(a, p);
         scalarRev(a, p);
      }
      else if (out == "dcdist") { auto p = std::make_shared<miso::DCLossDistribution>(f, *sc, o); setOptions(*p, o); fieldOut(a, p); }
      else if (out == "acdist") { auto p = std::make_shared<miso::ACLossDistribution>(f, *sc, o); setOptions(*p, o); fieldOut(a, p); }
      else if (out == "coredist") { auto p = std::make_shared<miso::CAL2CoreLossDistribution>(f, c["components"], c["materials"], coreOpts()); setOptions(*p, o); fieldOut(a, p); }
      else if (out == "heat")
      {
         json all = {{"dc_loss", o}, {"ac_loss", o}, {"core_loss", coreOpts()}};
         auto p = std::make_shared<miso::EMHeatSourceOutput>(f, *sc, c["components"], c["materials"], all);
         if (!c["ess"].empty()) { setOptions(*p, {{"bcs", o["bcs"]}}); }
         fieldOut(a, p);
      }
      else if (out == "force" || out == "torque")
      {
         json fo = {{"attributes", c["on"]}, {"axis", c["axis"]}};
         if (out == "force")
         {
            auto p = std::make_shared<miso::ForceFunctional>(f.at("state").space(), f, fo, *sc);
            scalarOut(a, p);
            a.partial = [p](const std::string &w, const miso::MISOInputs &in, Vector &r) { calcOutputPartial(*p, w, in, r); };
         }
         else
         {
            fo["about"] = c["about"];
            if (!c["attrs"].is_null()) { fo["air_attributes"] = c["attrs"]; }
            auto p = std::make_shared<miso::TorqueFunctional>(f.at("state").space(), f, fo, *sc);
            scalarOut(a, p);
            a.partial = [p](const std::string &w, const miso::MISOInputs &in, Vector &r) { calcOutputPartial(*p, w, in, r); };
         }
      }
   }
   ~OutWorld() { a = Any(); }

   template <typename T>
   void add(miso::FunctionalOutput &fo, T *i, const json &at)
   {
      if (at.is_null()) { fo.addOutputDomainIntegrator(i); }
      else { fo.addOutputDomainIntegrator(i, at.get<std::vector<int>>()); }
   }
   template <typename T>
   Vector bareLoad(T *i, const json &at, const miso::MISOInputs &in)
   {
      miso::MISOLinearForm l(w.fields.at("temperature").space(), w.fields, "thermal_adjoint");
      if (at.is_null()) { l.addDomainIntegrator(i); }
      else { l.addDomainIntegrator(i, at.get<std::vector<int>>()); }
      if (!c["ess"].empty()) { setOptions(l, {{"bcs", opts()["bcs"]}}); }
      setInputs(l, in);
      Vector v(getSize(l));
      v = 0.0;
      addLoad(l, v);
      return v;
   }
   // the integrals an output is made of
   json pieces(miso::MISOInputs in)
   {
      auto &f = w.fields;
      auto gf = [&](const char *n) -> GridFunction & { return f.at(n).gridFunc(); };
      json e = json::object();
      auto volume = [&]
      {
         miso::FunctionalOutput v(f.at("state").space(), f);
         add(v, new miso::VolumeIntegrator, c["attrs"]);
         return calcOutput(v, in);
      };
      auto rho = miso::constructMaterialCoefficient("rho", c["components"], c["materials"]);
      miso::CAL2khCoefficient kh(c["components"], c["materials"]);
      miso::CAL2keCoefficient ke(c["components"], c["materials"]);
      const json core = c["core"].is_null() ? c["attrs"] : c["core"];
      if (out == "dc")
      {
         miso::FunctionalOutput r(f.at("state").space(), f);
         add(r, new miso::DCLossFunctionalIntegrator(*sc, gf("temperature")), c["attrs"]);
         e["rho"] = hex(calcOutput(r, in));
         e["V"] = hex(volume());
      }
      else if (out == "ac")
      {
         miso::FunctionalOutput r(f.at("peak_flux").space(), f, "peak_flux");
         add(r, new miso::ACLossFunctionalIntegrator(*sc, gf("temperature")), c["attrs"]);
         e["b2"] = hex(calcOutput(r, in));
         e["V"] = hex(volume());
      }
      else if (out == "core")
      {
         miso::FunctionalOutput r(f.at("state").space(), f);
         add(r, new miso::CAL2CoreLossIntegrator(*rho, kh, ke, gf("peak_flux"), gf("temperature")), core);
         e["I"] = hex(calcOutput(r, in));
      }
      else if (out == "force" || out == "torque")
      {
         miso::FunctionalOutput r(f.at("state").space(), f);
         auto on = c["on"].get<std::unordered_set<int>>();
         add(r, new miso::ForceIntegrator3(*sc, gf(("v" + out).c_str()), on), out == "torque" ? c["attrs"] : json());
         e["I"] = hex(calcOutput(r, in));
      }
      else
      {
         e["parts"] = json::array();
         in["winding_volume"] = volume();
         if (out == "dcdist" || out == "heat") { e["parts"].push_back(hex(bareLoad(new miso::DCLossDistributionIntegrator(*sc, gf("temperature")), c["attrs"], in))); }
         if (out == "acdist" || out == "heat") { e["parts"].push_back(hex(bareLoad(new miso::ACLossDistributionIntegrator(gf("peak_flux"), gf("temperature"), *sc), c["attrs"], in))); }
         if (out == "coredist" || out == "heat") { e["parts"].push_back(hex(bareLoad(new miso::CAL2CoreLossDistributionIntegrator(*rho, kh, ke, gf("peak_flux"), gf("temperature")), core, in))); }
      }
      return e;
   }
   // virtual displacements: where each node is, whether it moves, what it has
   json displacements()
   {
      json e = json::array();
      if (out != "force" && out != "torque") { return e; }
      auto &f = w.fields.at("v" + out);
      auto &fes = f.space();
      auto &gf = f.gridFunc();
      auto &x = w.fields.at("mesh_coords").gridFunc();
      const int n = fes.GetNDofs();
      std::vector<bool> in(n, false);
      Array<int> d;
      auto on = c["on"].get<std::set<int>>();
      for (int k = 0; k < w.mesh->GetNE(); ++k)
      {
         if (!on.count(w.mesh->GetAttribute(k))) { continue; }
         fes.GetElementDofs(k, d);
         for (int i : d) { in[i] = true; }
      }
      for (int i = 0; i < n; ++i)
      {
         json xs = json::array(), vs = json::array();
         for (int k = 0; k < w.dim; ++k)
         {
            xs.push_back(hex(x(fes.DofToVDof(i, k))));
            vs.push_back(hex(gf(fes.DofToVDof(i, k))));
         }
         e.push_back({{"in", (bool)in[i]}, {"x", xs}, {"v", vs}});
      }
      return e;
   }
};

struct OutRun
{
   json cfg;
   std::unique_ptr<OutWorld> A;
   Val val, at_;
   miso::MISOInputs last;

   bool isField(const std::string &n) { return A->w.field(n); }
   Vector base(OutWorld &o, const std::string &k)
   {
      Vector v(o.w.size(k));
      if (k == "mesh_coords") { v = o.w.nodes; }
      else if (o.w.field(k)) { v = 0.0; }
      else { v = 1.0; }
      return v;
   }
   std::map<std::string, Vector> point(OutWorld &o, const Val &v, const std::string &wrt = "", int dir = 0, double h = 0.0)
   {
      std::map<std::string, Vector> x;
      for (auto &[k, i] : v)
      {
         Vector y = i ? o.w.value(k, i) : base(o, k);
         if (k == wrt) { y.Add(h, o.w.direction(k, dir)); }
         x.emplace(k, y);
      }
      return x;
   }
   Vector value(OutWorld &o, const miso::MISOInputs &in)
   {
      Vector v(o.a.size());
      if (o.a.calc) { v(0) = o.a.calc(in); }
      else { v = 5.0; o.a.calcV(in, v); }
      return v;
   }
   json points(const std::string &wrt, int dir, double h)
   {
      json j = json::array();
      for (double s : {1.0, -1.0, 2.0, -2.0})
      {
         OutWorld o(cfg);
         j.push_back(hex(value(o, o.w.inputs(point(o, val, wrt, dir, s * h)))));
      }
      return j;
   }
   json numbers()
   {
      json j = json::object();
      for (auto &s : A->scalars) { j[s] = hex(val.at(s) ? A->w.value(s, val.at(s))(0) : 1.0); }
      return j;
   }
   Vector random(const char *s, int size, int id)
   {
      Vector v(size);
      for (int k = 0; k < size; ++k) { v(k) = rnd(A->w.seed, s, id, k); }
      return v;
   }
   void op(const json &c)
   {
      std::string o = c["op"];
      if (o == "out")
      {
         cfg = c;
         A = std::make_unique<OutWorld>(c);
         json fs = json::array(), ss = json::array(), es = json::array();
         for (auto &[k, f] : A->w.fields)
            if (k != "thermal_adjoint" && k != "adjoint" && k[0] != 'v') { fs.push_back(k); val[k] = 0; }
         for (auto &k : A->scalars) { ss.push_back(k); val[k] = 0; }
         emit({{"event", "Out"}, {"out", A->out}, {"fields", fs}, {"scalars", ss}, {"n", A->a.size()}, {"dim", A->w.dim}, {"axis", c.contains("axis") ? hexes(c["axis"]) : json::array()},
               {"about", c.contains("about") ? hexes(c["about"]) : json::array()}, {"nodes", A->displacements()}});
         return;
      }
      int k = c["k"];
      Val ch;
      std::map<std::string, Vector> x;
      if (o == "set" || o == "value")
      {
         for (auto &nm : c["names"])
         {
            if (!val.count(nm)) { continue; }
            ch[nm] = k;
            x.emplace(nm, A->w.value(nm, k));
         }
         if (c["extra"].get<bool>()) { x.emplace("unknown", A->w.value("unknown", k)); }
         for (auto &[nm, i] : ch) { val[nm] = i; }
      }
      if (o == "set")
      {
         if (c["split"].get<bool>())
         {
            for (auto it = x.rbegin(); it != x.rend(); ++it)
            {
               last = A->w.inputs({{it->first, it->second}});
               A->a.set(last);
            }
         }
         else
         {
            last = A->w.inputs(x);
            A->a.set(last);
         }
         emit({{"event", "Set"}, {"set", ids(ch)}});
      }
      else if (o == "value")
      {
         last = A->w.inputs(x);
         Vector got = value(*A, last);
         at_ = val;
         OutWorld b(cfg, cfg["out"] != "force" && cfg["out"] != "torque");
         json e = {{"event", "Value"}, {"set", ids(ch)}, {"at", ids(val)}, {"got", hex(got)}, {"num", numbers()}};
         e["p"] = b.pieces(b.w.inputs(point(b, val)));
         emit(e);
      }
      else if (o == "deriv") { deriv(c, k); }
   }
   json hexes(const json &a)
   {
      json j = json::array();
      for (auto &v : a) { j.push_back(hex(v.get<double>())); }
      return j;
   }
   void deriv(const json &c, int k);
};

void OutRun::deriv(const json &c, int k)
{
   std::string wrt = c["wrt"], mode = c["mode"];
   if (!val.count(wrt)) { return; }
   // a distribution is differentiated where it was evaluated
   if (!A->a.calc && val != at_) { return; }
   bool vec = isField(wrt);
   const double h = 1.0 / 512;
   const int n = A->a.size();
   Vector y = random("y", n, k), a, pre, post;
   std::string err;
   try
   {
      if (mode == "partial" && A->a.partial && vec)
      {
         post.SetSize(A->w.size(wrt));
         post = 3.0;
         last = A->w.inputs(point(*A, val));
         A->a.partial(wrt, last, post);
         pre.SetSize(post.Size());
         pre = 0.0;
         a = A->w.direction(wrt, k);
         y = 1.0;
      }
      else if ((mode == "jvp" && A->a.jvp) || (!vec && !A->a.vjpS))
      {
         mode = "jvp";
         Vector d = A->w.direction(wrt, k);
         d *= 1.5;
         pre.SetSize(1);
         pre = 0.0;
         post.SetSize(1);
         post(0) = A->a.jvp(d, wrt) / 1.5;
         a.SetSize(1);
         a = 1.0;
         y = 1.0;
      }
      else if (vec)
      {
         mode = "vjp";
         pre = random("pre", A->w.size(wrt), k);
         post = pre;
         A->a.vjpV(y, wrt, post);
         a = A->w.direction(wrt, k);
      }
      else
      {
         mode = "vjp";
         pre.SetSize(1);
         pre = 0.0;
         post.SetSize(1);
         post(0) = A->a.vjpS(y, wrt);
         a.SetSize(1);
         a = 1.0;
      }
   }
   catch (const std::exception &e) { err = e.what(); }
   json d = {{"event", "Deriv"}, {"mode", mode}, {"wrt", wrt}, {"at", ids(val)}, {"err", err}, {"h", hex(h)}, {"y", hex(y)}, {"a", hex(a)}, {"pre", hex(pre)},
             {"post", hex(post)}, {"F", json::array()}, {"f", json::array()}, {"num", numbers()}};
   if (err.empty())
   {
      d["F"] = points(wrt, k, h);
      OutWorld o(cfg);
      d["f"] = hex(value(o, o.w.inputs(point(o, val))));
   }
   emit(d);
}

int main(int argc, char *argv[])
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   std::cout.setstate(std::ios::failbit);
   for (auto &s : scn)
   {
      emit({{"event", "Reset"}});
      OutRun r;
      for (auto &c : s["cmds"]) { r.op(c); }
   }
   emit({{"event", "End"}});
   return 0;
}
