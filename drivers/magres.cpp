// The magnetostatic residual under a history of inputs.  What it is compared with is
// a form built anew at each point from the terms the specification asks for.
#define main forms_main
#include "forms.cpp"
#undef main
#include "material_library.hpp"
#include "adept.h"
#include "current_load.hpp"
#include "magnetic_source_functions.hpp"
#include "current_source_functions.hpp"
#include "magnetostatic_load.hpp"
#include "magnetostatic_residual.hpp"

adept::Stack stack;
// magnets in space need coefficients of MISO's fork of mfem: not exercised here
miso::MagneticLoad::MagneticLoad(adept::Stack &, ParFiniteElementSpace &fes, std::map<std::string, miso::FiniteElementState> &fields, const json &, const json &, Coefficient &) : lf(fes, fields)
{
   std::exit(97);
}

struct MgWorld
{
   json c;
   World w;
   SC *nu = nullptr;
   std::unique_ptr<GridFunctionCoefficient> g;
   std::unique_ptr<miso::CurrentDensityCoefficient2D> cur;
   std::unique_ptr<miso::MagnetizationCoefficient> mag;
   std::unique_ptr<miso::ScalarVectorProductCoefficient> nuM;
   std::unique_ptr<miso::MISOLinearForm> lf;
   std::unique_ptr<miso::MagnetostaticLoad> load3;
   std::unique_ptr<miso::MagnetostaticResidual> tr;

   MgWorld(const json &cfg, bool bare) : c(cfg), w(cfg["world"])
   {
      auto &fes = w.fields.at("state").space();
      nu = &w.coef<SC>(w.space(true), 0.7);
      if (bare)
      {
         g = std::make_unique<GridFunctionCoefficient>(&w.fields.at("dirichlet_bc").gridFunc());
         if (w.dim == 2) { lf = std::make_unique<miso::MISOLinearForm>(fes, w.fields); }
         else
         {
            w.mesh->RemoveInternalBoundaries();
            load3 = std::make_unique<miso::MagnetostaticLoad>(stack, fes, w.fields, c["options"], c["materials"], *nu);
            setOptions(*load3, c["options"]);
         }
         for (auto &t : c["terms"]) { term(t); }
         if (lf) { setOptions(*lf, c["options"]); }
      }
      else { tr = std::make_unique<miso::MagnetostaticResidual>(stack, fes, w.fields, c["options"], c["materials"], *nu); }
   }
   ~MgWorld()
   {
      tr.reset();
      lf.reset();
      load3.reset();
      w.res.reset();
   }
   void term(const json &t)
   {
      std::string ty = t["type"], place = t["place"];
      auto d = [&](int i) { return unhex(t["d"][i]); };
      const json at = t["attrs"];
      if (ty == "Diffusion") { w.domain(new miso::NonlinearDiffusionIntegrator(*nu), json()); }
      else if (ty == "CurlCurl") { w.domain(new miso::CurlCurlNLFIntegrator(*nu), json()); }
      else if (ty == "DGInterior") { w.face(new miso::DGInteriorFaceDiffusionIntegrator(*nu, d(0), d(1)), place, at); }
      else if (ty == "DGDiffusion") { w.bdr(new miso::NonlinearDGDiffusionIntegrator(*nu, *g, d(0)), at); }
      else if (ty == "Current")
      {
         if (!lf) { return; }
         cur = std::make_unique<miso::CurrentDensityCoefficient2D>(stack, c["options"]["current"]);
         lf->addDomainIntegrator(new miso::DomainLFIntegrator(*cur), at.get<std::vector<int>>());
      }
      else if (ty == "Magnet")
      {
         if (!lf) { return; }
         mag = std::make_unique<miso::MagnetizationCoefficient>(stack, c["options"]["magnets"], c["materials"], 2);
         nuM = std::make_unique<miso::ScalarVectorProductCoefficient>(*nu, *mag);
         lf->addDomainIntegrator(new miso::MagnetizationSource2DIntegrator(*nuM, w.fields.at("temperature").gridFunc(), 1.0), at.get<std::vector<int>>());
      }
      else { std::fprintf(stderr, "term %s\n", ty.c_str()); std::exit(97); }
   }
   void give(const miso::MISOInputs &in)
   {
      setInputs(*w.res, in);
      if (lf) { setInputs(*lf, in); }
      if (load3) { setInputs(*load3, in); }
      if (cur) { setInputs(*cur, in); }
   }
   Vector sources()
   {
      Vector v(w.outSize());
      v = 0.0;
      if (lf) { addLoad(*lf, v); }
      else { addLoad(*load3, v); }
      return v;
   }
   void rev(const Vector &seed, const std::string &wrt, Vector &bar)
   {
      vectorJacobianProduct(*w.res, seed, wrt, bar);
      if (lf) { vectorJacobianProduct(*lf, seed, wrt, bar); }
      else { vectorJacobianProduct(*load3, seed, wrt, bar); }
   }
   void fwd(const Vector &dot, const std::string &wrt, Vector &out)
   {
      jacobianVectorProduct(*w.res, dot, wrt, out);
      if (lf) { jacobianVectorProduct(*lf, dot, wrt, out); }
   }
};

struct MgRun
{
   json cfg;
   std::unique_ptr<MgWorld> A;
   Val val, lin;
   bool hasLin = false;
   Array<int> ess;
   int n = 0;

   Vector random(const char *s, int size, int id)
   {
      Vector v(size);
      for (int k = 0; k < size; ++k) { v(k) = rnd(A->w.seed, s, id, k); }
      return v;
   }
   // everything the form depends on; a density is moved by a unit
   miso::MISOInputs all(World &w, const Val &v, const std::string &wrt = "", double by = 0.0)
   {
      std::map<std::string, Vector> x;
      for (auto &[k, i] : v)
      {
         if (i || k == wrt)
         {
            Vector y(w.size(k));
            y = 0.0;
            if (i) { y = w.value(k, i); }
            if (k == wrt) { y(0) += by; }
            x.emplace(k, y);
         }
         else if (k == "mesh_coords") { x.emplace(k, w.nodes); }
         else if (w.field(k)) { Vector z(w.size(k)); z = 0.0; x.emplace(k, z); }
      }
      return w.inputs(x);
   }
   std::map<std::string, Vector> choose(const json &c, Val &ch)
   {
      std::map<std::string, Vector> x;
      int k = c["k"];
      for (auto &nm : c["names"])
      {
         if (!val.count(nm)) { continue; }
         ch[nm] = k;
         x.emplace(nm, A->w.value(nm, k));
      }
      if (c["extra"].get<bool>()) { x.emplace("unknown", A->w.value("unknown", k)); }
      for (auto &[nm, i] : ch) { val[nm] = i; }
      return x;
   }
   std::unique_ptr<MgWorld> ref(const Val &v, miso::MISOInputs &in, const std::string &wrt = "", double by = 0.0)
   {
      auto b = std::make_unique<MgWorld>(cfg, true);
      in = all(b->w, v, wrt, by);
      b->give(in);
      return b;
   }
   void op(const json &c)
   {
      std::string o = c["op"];
      if (o == "res")
      {
         cfg = c;
         A = std::make_unique<MgWorld>(c, false);
         n = getSize(*A->tr);
         json in = json::array(), es = json::array();
         for (auto &[k, f] : A->w.fields)
            if (k != "adjoint") { in.push_back(k); val[k] = 0; }
         for (auto &k : c["numbers"]) { in.push_back(k); val[k] = 0; }
         if (!c["world"]["ess"].empty())
         {
            auto &fes = A->w.fields.at("state").space();
            Array<int> mark(A->w.mesh->bdr_attributes.Max());
            mark = 0;
            for (int a : c["world"]["ess"]) { mark[a - 1] = 1; }
            fes.GetEssentialTrueDofs(mark, ess);
         }
         for (int i : ess) { es.push_back(i + 1); }
         auto *p = getPreconditioner(*A->tr);
         json e = c["form"];
         e["event"] = "Res";
         e["inputs"] = in;
         e["n"] = n;
         e["ess"] = es;
         e["terms"] = c["terms"];
         e["numbers"] = c["numbers"];
         e["prec"] = c["options"]["lin-prec"]["type"];
         e["has"] = !p ? "none" : dynamic_cast<HypreBoomerAMG *>(p) ? "hypreboomeramg" : dynamic_cast<HypreILU *>(p) ? "hypreilu" : dynamic_cast<HypreAMS *>(p) ? "hypreams" : "other";
         emit(e);
         return;
      }
      int k = c["k"];
      if (o == "set")
      {
         Val ch;
         auto x = choose(c, ch);
         setInputs(*A->tr, A->w.inputs(x));
         emit({{"event", "Set"}, {"set", ids(ch)}});
      }
      else if (o == "eval")
      {
         Val ch;
         auto x = choose(c, ch);
         auto in = A->w.inputs(x);
         setInputs(*A->tr, in);
         Vector got(n);
         got = 7.0;
         evaluate(*A->tr, in, got);
         miso::MISOInputs bi;
         auto b = ref(val, bi);
         Vector sum(n);
         sum = 3.0;
         evaluate(*b->w.res, bi, sum);
         emit({{"event", "Eval"}, {"set", ids(ch)}, {"at", ids(val)}, {"got", hex(got)}, {"sum", hex(sum)}, {"load", hex(b->sources())}});
      }
      else if (o == "lin")
      {
         Val ch;
         auto x = choose(c, ch);
         auto in = A->w.inputs(x);
         setInputs(*A->tr, in);
         linearize(*A->tr, in);
         lin = val;
         hasLin = true;
         emit({{"event", "Linearize"}, {"set", ids(ch)}, {"at", ids(val)}});
      }
      else if (hasLin && lin == val) { use(c, k); }
   }
   void use(const json &c, int k)
   {
      std::string o = c["op"];
      miso::MISOInputs bi;
      if (o == "product")
      {
         std::string wrt = c["wrt"], mode = c["mode"];
         if (!val.count(wrt)) { return; }
         bool load = wrt.rfind("current_density", 0) == 0, vec = A->w.field(wrt);
         std::unique_ptr<MgWorld> b;
         if (!load) { b = ref(lin, bi); linearize(*b->w.res, bi); }
         Vector seed, pre, post, part;
         if (mode == "jvp")
         {
            seed = A->w.direction(wrt, k);
            pre = random("pre", n, k);
            post = pre;
            jacobianVectorProduct(*A->tr, seed, wrt, post);
            part.SetSize(n);
            part = 0.0;
            if (!load) { b->fwd(seed, wrt, part); }
         }
         else
         {
            seed = random("seed", n, k);
            pre = vec ? random("pre", A->w.size(wrt), k) : Vector(1);
            if (!vec) { pre = 0.0; }
            post = pre;
            part.SetSize(pre.Size());
            part = 0.0;
            if (vec)
            {
               vectorJacobianProduct(*A->tr, seed, wrt, post);
               if (!load) { b->rev(seed, wrt, part); }
            }
            else
            {
               post(0) = vectorJacobianProduct(*A->tr, seed, wrt);
            }
         }
         json L = json::array();
         if (load)
         {
            for (double by : {1.0, 0.0}) { L.push_back(hex(ref(lin, bi, wrt, by)->sources())); }
         }
         emit({{"event", "Product"}, {"L", L}, {"wrt", wrt}, {"mode", mode}, {"at", ids(lin)}, {"seed", hex(seed)}, {"pre", hex(pre)}, {"post", hex(post)}, {"part", hex(part)}});
         return;
      }
      auto b = ref(lin, bi);
      auto in = all(A->w, lin);
      Vector d = A->w.direction("state", k), y(n), z(n);
      if (o == "jac")
      {
         getJacobian(*A->tr, in, "state").Mult(d, y);
         getJacobian(*b->w.res, bi, "state").Mult(d, z);
      }
      else if (o == "jact")
      {
         linearize(*A->tr, in);
         linearize(*b->w.res, bi);
         getJacobianTranspose(*A->tr, in, "state").Mult(d, y);
         getJacobianTranspose(*b->w.res, bi, "state").Mult(d, z);
      }
      else
      {
         Vector s1 = random("sb", n, k), s2 = s1;
         Direct d1, d2;
         y = 0.0;
         z = 0.0;
         linearize(*A->tr, in);
         linearize(*b->w.res, bi);
         setUpAdjointSystem(*A->tr, d1, in, s1, y);
         d1.Mult(s1, y);
         finalizeAdjointSystem(*A->tr, d1, in, s1, y);
         setUpAdjointSystem(*b->w.res, d2, bi, s2, z);
         d2.Mult(s2, z);
         finalizeAdjointSystem(*b->w.res, d2, bi, s2, z);
      }
      emit({{"event", "Use"}, {"what", o}, {"at", ids(lin)}, {"got", hex(y)}, {"want", hex(z)}});
   }
};

int main(int argc, char *argv[])
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   std::cout.setstate(std::ios::failbit);
   for (auto &s : scn)
   {
      emit({{"event", "Reset"}});
      MgRun r;
      for (auto &c : s["cmds"]) { r.op(c); }
   }
   emit({{"event", "End"}});
   return 0;
}
