// The thermal residual under a history of inputs.  What it is compared with is
// a form built anew at each point from the terms the specification asks for.
#define main forms_main
#include "forms.cpp"
#undef main
#include "material_library.hpp"
#include "thermal_residual.hpp"

struct ThWorld
{
   json c;
   World w;
   std::unique_ptr<miso::MeshDependentCoefficient> kappa, g;
   std::unique_ptr<miso::ThermalResidual> tr;

   ThWorld(const json &cfg, bool bare) : c(cfg), w(cfg["world"])
   {
      auto &fes = w.fields.at("state").space();
      if (bare)
      {
         kappa = miso::constructMaterialCoefficient("kappa", c["options"]["components"], c["materials"]);
         g = std::make_unique<miso::MeshDependentCoefficient>(std::make_unique<GridFunctionCoefficient>(&w.fields.at("dirichlet_bc").gridFunc()));
         for (auto &t : c["terms"]) { term(t); }
      }
      else
      {
         tr = std::make_unique<miso::ThermalResidual>(fes, w.fields, c["options"], c["materials"]);
         setOptions(*tr, c["options"]);
      }
   }
   ~ThWorld()
   {
      tr.reset();
      w.res.reset();
   }
   void term(const json &t)
   {
      std::string ty = t["type"], place = t["place"], name = t["name"];
      auto d = [&](int i) { return unhex(t["d"][i]); };
      const json at = t["attrs"];
      if (ty == "Diffusion") { w.domain(new miso::NonlinearDiffusionIntegrator(*kappa), json()); }
      else if (ty == "DGInterior") { w.face(new miso::DGInteriorFaceDiffusionIntegrator(*kappa, d(0), d(1)), place, at); }
      else if (ty == "Convection") { w.bdr(new miso::ConvectionBCIntegrator(d(0), d(1)), at); }
      else if (ty == "Outflux") { w.bdr(new miso::OutfluxBCIntegrator(d(0), 1.0), at); }
      else if (ty == "DGDiffusion") { w.bdr(new miso::NonlinearDGDiffusionIntegrator(*kappa, *g, d(0)), at); }
      else if (ty == "Contact") { w.face(new miso::ThermalContactResistanceIntegrator(d(0), name), place, at); }
      else if (ty == "Interface") { w.face(new miso::InternalConvectionInterfaceIntegrator(d(0), d(1), name), place, at); }
      else { std::fprintf(stderr, "term %s\n", ty.c_str()); std::exit(97); }
   }
};

struct ThRun
{
   json cfg;
   std::unique_ptr<ThWorld> A;
   Val val, lin;
   bool hasLin = false;
   Array<int> ess;
   int n = 0;

   Vector random(const char *s, int size, int id)
   {
      Vector v(size);
      for (int k = 0; k < size; ++k) { v(k) = rnd(A->w.seed, s, id, k); }
      return v;
   }
   // everything the form depends on, except the load
   miso::MISOInputs all(World &w, const Val &v)
   {
      std::map<std::string, Vector> x;
      for (auto &[k, i] : v)
      {
         if (k == "thermal_load") { continue; }
         if (i) { x.emplace(k, w.value(k, i)); }
         else if (k == "mesh_coords") { x.emplace(k, w.nodes); }
         else if (w.field(k)) { Vector z(w.size(k)); z = 0.0; x.emplace(k, z); }
      }
      return w.inputs(x);
   }
   json loadAt() { return val["thermal_load"] ? hex(A->w.value("thermal_load", val["thermal_load"])) : json::array(); }
   std::map<std::string, Vector> choose(const json &c, Val &ch)
   {
      std::map<std::string, Vector> x;
      int k = c["k"];
      for (auto &nm : c["names"])
      {
         if (!val.count(nm)) { continue; }
         ch[nm] = k;
         x.emplace(nm, A->w.value(nm, k));
      }
      if (c["extra"].get<bool>()) { x.emplace("unknown", A->w.value("unknown", k)); }
      for (auto &[nm, i] : ch) { val[nm] = i; }
      return x;
   }
   // the caller's load is the caller's: as it was after the call, and free to change
   bool kept(const Val &ch)
   {
      auto it = ch.find("thermal_load");
      if (it == ch.end()) { return true; }
      Vector &mine = A->w.held.at("thermal_load"), want = A->w.value("thermal_load", it->second);
      bool same = true;
      for (int i = 0; i < n; ++i) { same = same && mine(i) == want(i); }
      mine = 1e3;
      return same;
   }
   std::unique_ptr<ThWorld> ref(const Val &v, miso::MISOInputs &in)
   {
      auto b = std::make_unique<ThWorld>(cfg, true);
      in = all(b->w, v);
      setInputs(*b->w.res, in);
      return b;
   }
   void op(const json &c)
   {
      std::string o = c["op"];
      if (o == "res")
      {
         cfg = c;
         A = std::make_unique<ThWorld>(c, false);
         n = getSize(*A->tr);
         json in = json::array(), es = json::array();
         for (auto &[k, f] : A->w.fields)
            if (k != "adjoint") { in.push_back(k); val[k] = 0; }
         for (auto &k : c["numbers"]) { in.push_back(k); val[k] = 0; }
         if (!c["world"]["ess"].empty())
         {
            auto &fes = A->w.fields.at("state").space();
            Array<int> mark(A->w.mesh->bdr_attributes.Max());
            mark = 0;
            for (int a : c["world"]["ess"]) { mark[a - 1] = 1; }
            fes.GetEssentialTrueDofs(mark, ess);
         }
         for (int i : ess) { es.push_back(i + 1); }
         auto *p = getPreconditioner(*A->tr);
         json e = c["form"];
         e["event"] = "Res";
         e["inputs"] = in;
         e["n"] = n;
         e["ess"] = es;
         e["terms"] = c["terms"];
         e["numbers"] = c["numbers"];
         e["prec"] = c["options"]["lin-prec"]["type"];
         e["has"] = !p ? "none" : dynamic_cast<HypreBoomerAMG *>(p) ? "hypreboomeramg" : dynamic_cast<HypreILU *>(p) ? "hypreilu" : "other";
         emit(e);
         return;
      }
      int k = c["k"];
      if (o == "set")
      {
         Val ch;
         auto x = choose(c, ch);
         setInputs(*A->tr, A->w.inputs(x));
         emit({{"event", "Set"}, {"set", ids(ch)}, {"kept", kept(ch)}});
      }
      else if (o == "eval")
      {
         Val ch;
         auto x = choose(c, ch);
         auto in = A->w.inputs(x);
         setInputs(*A->tr, in);
         bool same = kept(ch);
         Vector got(n);
         got = 7.0;
         evaluate(*A->tr, in, got);
         miso::MISOInputs bi;
         auto b = ref(val, bi);
         Vector sum(n);
         sum = 3.0;
         evaluate(*b->w.res, bi, sum);
         emit({{"event", "Eval"}, {"set", ids(ch)}, {"at", ids(val)}, {"kept", same}, {"got", hex(got)}, {"sum", hex(sum)}, {"load", loadAt()}});
      }
      else if (o == "lin")
      {
         Val ch;
         auto x = choose(c, ch);
         auto in = A->w.inputs(x);
         setInputs(*A->tr, in);
         bool same = kept(ch);
         linearize(*A->tr, in);
         lin = val;
         hasLin = true;
         emit({{"event", "Linearize"}, {"set", ids(ch)}, {"at", ids(val)}, {"kept", same}});
      }
      else if (hasLin && lin == val) { use(c, k); }
   }
   void use(const json &c, int k)
   {
      std::string o = c["op"];
      miso::MISOInputs bi;
      if (o == "product")
      {
         std::string wrt = c["wrt"], mode = c["mode"];
         if (!val.count(wrt)) { return; }
         bool load = wrt == "thermal_load", vec = A->w.field(wrt);
         std::unique_ptr<ThWorld> b;
         if (!load) { b = ref(lin, bi); linearize(*b->w.res, bi); }
         Vector seed, pre, post, part;
         if (mode == "jvp")
         {
            seed = A->w.direction(wrt, k);
            pre = random("pre", n, k);
            post = pre;
            jacobianVectorProduct(*A->tr, seed, wrt, post);
            part.SetSize(n);
            part = 0.0;
            if (!load) { jacobianVectorProduct(*b->w.res, seed, wrt, part); }
         }
         else
         {
            seed = random("seed", n, k);
            pre = vec ? random("pre", A->w.size(wrt), k) : Vector(1);
            if (!vec) { pre = 0.0; }
            post = pre;
            part.SetSize(pre.Size());
            part = 0.0;
            if (vec)
            {
               vectorJacobianProduct(*A->tr, seed, wrt, post);
               if (!load) { vectorJacobianProduct(*b->w.res, seed, wrt, part); }
            }
            else
            {
               post(0) = vectorJacobianProduct(*A->tr, seed, wrt);
               part(0) = vectorJacobianProduct(*b->w.res, seed, wrt);
            }
         }
         emit({{"event", "Product"}, {"wrt", wrt}, {"mode", mode}, {"at", ids(lin)}, {"seed", hex(seed)}, {"pre", hex(pre)}, {"post", hex(post)}, {"part", hex(part)}});
         return;
      }
      auto b = ref(lin, bi);
      auto in = all(A->w, lin);
      Vector d = A->w.direction("state", k), y(n), z(n);
      if (o == "jac")
      {
         getJacobian(*A->tr, in, "state").Mult(d, y);
         getJacobian(*b->w.res, bi, "state").Mult(d, z);
      }
      else if (o == "jact")
      {
         linearize(*A->tr, in);
         linearize(*b->w.res, bi);
         getJacobianTranspose(*A->tr, in, "state").Mult(d, y);
         getJacobianTranspose(*b->w.res, bi, "state").Mult(d, z);
      }
      else
      {
         Vector s1 = random("sb", n, k), s2 = s1;
         Direct d1, d2;
         y = 0.0;
         z = 0.0;
         linearize(*A->tr, in);
         linearize(*b->w.res, bi);
         setUpAdjointSystem(*A->tr, d1, in, s1, y);
         d1.Mult(s1, y);
         finalizeAdjointSystem(*A->tr, d1, in, s1, y);
         setUpAdjointSystem(*b->w.res, d2, bi, s2, z);
         d2.Mult(s2, z);
         finalizeAdjointSystem(*b->w.res, d2, bi, s2, z);
      }
      emit({{"event", "Use"}, {"what", o}, {"at", ids(lin)}, {"got", hex(y)}, {"want", hex(z)}});
   }
};

int main(int argc, char *argv[])
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   std::cout.setstate(std::ios::failbit);
   for (auto &s : scn)
   {
      emit({{"event", "Reset"}});
      ThRun r;
      for (auto &c : s["cmds"]) { r.op(c); }
   }
   emit({{"event", "End"}});
   return 0;
}
