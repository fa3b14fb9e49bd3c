// The material library, the materials of PDE solvers, and the coefficients
// built from them.
#include <memory>
#include <stdexcept>
#include "drv.hpp"
#include "coefficient.hpp"
#include "material_library.hpp"
#include "pde_solver.hpp"
using namespace drv;
using namespace mfem;

namespace mfem
{
void mfem_error(const char *msg) { throw std::runtime_error(msg ? msg : ""); }
}

struct Pde : miso::PDESolver
{
   Pde(const json &o, std::unique_ptr<Mesh> m) : miso::PDESolver(MPI_COMM_WORLD, o, 1, std::move(m)) { }
   Pde(const json &o, const std::function<int(const json &, int)> &f, std::unique_ptr<Mesh> m)
    : miso::PDESolver(MPI_COMM_WORLD, o, f, std::move(m))
   { }
   const json &mats() const { return materials; }
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   json all = load(argv[1]);
   trace().open(argv[2]);
   Quiet q;
   Mesh line = Mesh::MakeCartesian1D(1);
   for (auto &s : all)
   {
      emit({{"event", "Reset"}, {"lib", tag(miso::material_library)}});
      std::map<std::string, std::unique_ptr<Pde>> solvers;
      std::map<std::string, std::unique_ptr<miso::MeshDependentCoefficient>> coeffs;
      std::map<std::string, json> comps;
      for (auto &c : s["cmds"])
      {
         std::string cmd = c["cmd"];
         if (cmd == "Solver")
         {
            std::string id = c["id"];
            json o = {{"print-options", false},
                      {"mesh", {{"file", "none.mesh"}}},
                      {"space-dis", {{"degree", 1}, {"basis-type", "H1"}}}};
            if (!c["components"].is_null()) { o["components"] = c["components"]; }
            auto m = std::make_unique<Mesh>(line);
            if (c["ctor"] == "count") { solvers[id] = std::make_unique<Pde>(o, std::move(m)); }
            else
            {
               solvers[id] = std::make_unique<Pde>(o, [](const json &, int) { return 1; }, std::move(m));
            }
            json cs = json::array();
            if (o.contains("components"))
               for (auto &x : o["components"]) { cs.push_back(tag(x)); }
            comps[id] = o.value("components", json::array());
            emit({{"event", "Solver"}, {"id", id}, {"comps", cs}, {"mats", tag(solvers[id]->mats())}});
         }
         else if (cmd == "Look")
         {
            emit({{"event", "Look"}, {"id", c["id"]}, {"lib", tag(miso::material_library)},
                  {"mats", tag(solvers.at(c["id"])->mats())}});
         }
         else if (cmd == "Coeff")
         {
            std::string id = c["id"], k = c["c"];
            bool ok = true;
            try { coeffs[k] = miso::constructMaterialCoefficient(c["prop"], comps[id], solvers.at(id)->mats()); }
            catch (const std::runtime_error &) { ok = false; }
            emit({{"event", "Coeff"}, {"c", k}, {"id", id}, {"prop", c["prop"]}, {"ok", ok}});
            if (!ok) { coeffs.erase(k); }
         }
         else if (cmd == "Input")
         {
            std::string k = c["c"];
            if (!coeffs.count(k)) { continue; }
            miso::MISOInputs in{{c["name"].get<std::string>(), unhex(c["w"])}};
            coeffs[k]->setInputs(in);
            emit({{"event", "Input"}, {"c", k}, {"name", c["name"]}, {"w", c["w"]}});
         }
         else if (cmd == "Eval")
         {
            std::string k = c["c"];
            if (!coeffs.count(k)) { continue; }
            auto &co = *coeffs[k];
            auto &T = *line.GetElementTransformation(0);
            T.Attribute = c["attr"];
            IntegrationPoint ip;
            ip.Set1w(.25, 1.0);
            T.SetIntPoint(&ip);
            double st = unhex(c["state"]);
            double v = co.Eval(T, ip), vs = co.Eval(T, ip, st), d = co.EvalStateDeriv(T, ip, st);
            emit({{"event", "Eval"}, {"c", k}, {"attr", {{"n", hex(double(c["attr"].get<int>()))}}}, {"v", hex(v)}, {"vs", hex(vs)}, {"d", hex(d)}});
         }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
