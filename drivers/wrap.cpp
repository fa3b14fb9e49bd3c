// Residuals, outputs, loads and integrators behind their type-erased holders:
// objects that log what reaches them, held, moved, called and dropped.
#include <algorithm>
#include <list>
#include <memory>
#include <type_traits>
#include "drv.hpp"
#include "miso_input.hpp"
#include "miso_residual.hpp"
#include "miso_output.hpp"
#include "miso_load.hpp"
#include "miso_integrator.hpp"
using drv::json;
using mfem::Vector;
using miso::MISOInputs;

json seen, freed;
bool boom = false;
struct Op : mfem::Solver
{
   int obj;
   std::string what;
   Op(int o, std::string w) : mfem::Solver(2), obj(o), what(std::move(w)) { }
   void Mult(const Vector &, Vector &) const override { }
   void SetOperator(const mfem::Operator &) override { }
};
struct Core
{
   int id, size, calls = 0;
   std::list<Op> ops;
   Core(int i, int s) : id(i), size(s) { }
   ~Core() { freed.push_back(id); }
   int reply() { return 100 * id + ++calls; }
   Op &op(const std::string &w)
   {
      for (auto &o : ops) { if (o.what == w) { return o; } }
      ops.emplace_back(id, w);
      return ops.back();
   }
};
json num(const Vector &v)
{
   json j = json::array();
   for (int i = 0; i < v.Size(); ++i) { j.push_back((int)std::lround(v.GetData()[i])); }
   return j;
}
json num(const MISOInputs &in)
{
   std::vector<json> all;
   for (auto &[k, x] : in)
   {
      if (std::holds_alternative<double>(x)) { all.push_back({{"name", k}, {"num", {(int)std::lround(std::get<double>(x))}}, {"vec", json::array()}}); }
      else
      {
         auto v = std::get<miso::InputVector>(x);
         json a = json::array();
         for (int i = 0; i < v.size; ++i) { a.push_back((int)std::lround(v.data[i])); }
         all.push_back({{"name", k}, {"num", json::array()}, {"vec", a}});
      }
   }
   std::sort(all.begin(), all.end(), [](const json &a, const json &b) { return a["name"].get<std::string>() < b["name"].get<std::string>(); });
   json r = json::array();
   for (auto &x : all) { r.push_back(x); }
   return r;
}
json args(const MISOInputs *in = nullptr, const std::string &wrt = "", const Vector *x = nullptr, const std::vector<const Vector *> &bufs = {},
          const json &opt = nullptr, int n = 0, const void *solver = nullptr)
{
   json b = json::array();
   for (auto *v : bufs) { b.push_back(num(*v)); }
   static std::vector<const void *> known;
   int s = 0;
   if (solver)
   {
      auto it = std::find(known.begin(), known.end(), solver);
      s = it - known.begin() + 1;
      if (it == known.end()) { known.push_back(solver); }
   }
   return {{"inputs", in ? num(*in) : json::array()}, {"wrt", wrt}, {"x", x ? num(*x) : json::array()}, {"bufs", b},
           {"opt", opt.is_null() ? "" : opt.dump()}, {"n", n}, {"solver", s}};
}
int note(const std::unique_ptr<Core> &c, const char *op, const json &a, const std::vector<Vector *> &bufs = {})
{
   seen.push_back({{"obj", c->id}, {"op", op}, {"args", a}});
   if (std::string(op) == "getSize") { return 0; }
   int r = c->reply();
   if (boom) { throw std::runtime_error("boom"); }
   for (auto *b : bufs) { *b += r; }
   return r;
}

namespace own
{
template <char K, unsigned M>
struct Obj
{
   std::unique_ptr<Core> c;
   Obj(int id, int size) : c(new Core(id, size)) { }
};
// integrators are referred to, so they can be anything
template <unsigned M>
struct Integ
{
   std::unique_ptr<Core> c;
   Integ(int id) : c(new Core(id, 0)) { }
   // a copy is somebody else
   Integ(const Integ &) : c(new Core(0, 0)) { }
};
#define WHEN(K, bit) template <unsigned M, std::enable_if_t<((M >> bit) & 1u) != 0, int> = 0>
#define R Obj<'r', M> &o
#define O Obj<'o', M> &o
#define L Obj<'l', M> &o
#define I Integ<M> &o
template <char K, unsigned M>
int getSize(const Obj<K, M> &o) { note(o.c, "getSize", args()); return o.c->size; }
// residuals
template <unsigned M>
void evaluate(R, const MISOInputs &in, Vector &v) { note(o.c, "evaluate", args(&in, "", nullptr, {&v}), {&v}); }
template <unsigned M>
mfem::Operator &getJacobian(R, const MISOInputs &in, const std::string &wrt) { note(o.c, "getJacobian", args(&in, wrt)); return o.c->op("getJacobian"); }
WHEN(r, 0) void setInputs(R, const MISOInputs &in) { note(o.c, "setInputs", args(&in)); }
WHEN(r, 1) void setOptions(R, const json &j) { note(o.c, "setOptions", args(nullptr, "", nullptr, {}, j)); }
WHEN(r, 2) MPI_Comm getMPIComm(const Obj<'r', M> &o) { note(o.c, "getMPIComm", args()); return o.c->id % 2 ? MPI_COMM_SELF : MPI_COMM_WORLD; }
WHEN(r, 3) void linearize(R, const MISOInputs &in) { note(o.c, "linearize", args(&in)); }
WHEN(r, 4) mfem::Operator &getJacobianTranspose(R, const MISOInputs &in, const std::string &wrt)
{ note(o.c, "getJacobianTranspose", args(&in, wrt)); return o.c->op("getJacobianTranspose"); }
WHEN(r, 5) mfem::Operator &getJacobianBlock(R, const MISOInputs &in, int n)
{ note(o.c, "getJacobianBlock", args(&in, "", nullptr, {}, nullptr, n)); return o.c->op("getJacobianBlock"); }
WHEN(r, 6) void setUpAdjointSystem(R, mfem::Solver &s, const MISOInputs &in, Vector &a, Vector &b)
{ note(o.c, "setUpAdjointSystem", args(&in, "", nullptr, {&a, &b}, nullptr, 0, &s), {&a, &b}); }
WHEN(r, 7) void finalizeAdjointSystem(R, mfem::Solver &s, const MISOInputs &in, Vector &a, Vector &b)
{ note(o.c, "finalizeAdjointSystem", args(&in, "", nullptr, {&a, &b}, nullptr, 0, &s), {&a, &b}); }
WHEN(r, 12) double calcEntropy(R, const MISOInputs &in) { return note(o.c, "calcEntropy", args(&in)); }
WHEN(r, 13) double calcEntropyChange(R, const MISOInputs &in) { return note(o.c, "calcEntropyChange", args(&in)); }
WHEN(r, 14) double calcSupplyRate(R, const MISOInputs &in) { return note(o.c, "calcSupplyRate", args(&in)); }
WHEN(r, 15) mfem::Operator *getMassMatrix(R, const json &j) { note(o.c, "getMassMatrix", args(nullptr, "", nullptr, {}, j)); return &o.c->op("getMassMatrix"); }
WHEN(r, 16) mfem::Solver *getPreconditioner(R) { note(o.c, "getPreconditioner", args()); return &o.c->op("getPreconditioner"); }
// products, of residuals, outputs and loads alike
#define PRODUCTS(TYPE) \
   WHEN(x, 8) double jacobianVectorProduct(TYPE, const Vector &x, const std::string &w) { return note(o.c, "jvps", args(nullptr, w, &x)); } \
   WHEN(x, 9) void jacobianVectorProduct(TYPE, const Vector &x, const std::string &w, Vector &y) { note(o.c, "jvpv", args(nullptr, w, &x, {&y}), {&y}); } \
   WHEN(x, 10) double vectorJacobianProduct(TYPE, const Vector &x, const std::string &w) { return note(o.c, "vjps", args(nullptr, w, &x)); } \
   WHEN(x, 11) void vectorJacobianProduct(TYPE, const Vector &x, const std::string &w, Vector &y) { note(o.c, "vjpv", args(nullptr, w, &x, {&y}), {&y}); }
PRODUCTS(R)
PRODUCTS(O)
PRODUCTS(L)
// outputs
WHEN(o, 0) void setInputs(O, const MISOInputs &in) { note(o.c, "setInputs", args(&in)); }
WHEN(o, 1) void setOptions(O, const json &j) { note(o.c, "setOptions", args(nullptr, "", nullptr, {}, j)); }
template <unsigned M>
double calcOutput(O, const MISOInputs &in) { return note(o.c, "calcOutput", args(&in)); }
WHEN(o, 17) double calcOutputPartial(O, const std::string &w, const MISOInputs &in) { return note(o.c, "partials", args(&in, w)); }
WHEN(o, 18) void calcOutputPartial(O, const std::string &w, const MISOInputs &in, Vector &v) { note(o.c, "partialv", args(&in, w, nullptr, {&v}), {&v}); }
WHEN(o, 19) void calcOutput(O, const MISOInputs &in, Vector &v) { note(o.c, "outputv", args(&in, "", nullptr, {&v}), {&v}); }
// loads
WHEN(l, 0) void setInputs(L, const MISOInputs &in) { note(o.c, "setInputs", args(&in)); }
WHEN(l, 1) void setOptions(L, const json &j) { note(o.c, "setOptions", args(nullptr, "", nullptr, {}, j)); }
template <unsigned M>
void addLoad(L, Vector &v) { note(o.c, "addLoad", args(nullptr, "", nullptr, {&v}), {&v}); }
// integrators
WHEN(i, 0) void setInputs(I, const MISOInputs &in) { note(o.c, "setInputs", args(&in)); }
WHEN(i, 1) void setOptions(I, const json &j) { note(o.c, "setOptions", args(nullptr, "", nullptr, {}, j)); }
}  // namespace own

constexpr unsigned FULL = 0xFFFFF, EVEN = 0x55555, ODD = 0xAAAAA, LOW = 0x0C3F5, HIGH = 0xF3C0A, PROD = 0x00F00;
const char *optional[20] = {"setInputs", "setOptions", "getMPIComm", "linearize", "getJacobianTranspose", "getJacobianBlock", "setUpAdjointSystem",
                            "finalizeAdjointSystem", "jvps", "jvpv", "vjps", "vjpv", "calcEntropy", "calcEntropyChange", "calcSupplyRate",
                            "getMassMatrix", "getPreconditioner", "partials", "partialv", "outputv"};
bool allowed(char kind, int bit)
{
   return kind == 'r' ? bit < 17 : kind == 'o' ? bit < 2 || (bit > 7 && bit < 12) || bit > 16 : bit < 2;
}
template <unsigned M>
struct Tag { static constexpr unsigned m = M; };
template <class F>
void withMask(int i, F f)
{
   switch (i % 7)
   {
      case 0: return f(Tag<0>());
      case 1: return f(Tag<FULL>());
      case 2: return f(Tag<EVEN>());
      case 3: return f(Tag<ODD>());
      case 4: return f(Tag<LOW>());
      case 5: return f(Tag<HIGH>());
      default: return f(Tag<PROD>());
   }
}

struct Holder
{
   int obj = 0, mask = 0;
   char kind = 0;
   std::unique_ptr<miso::MISOResidual> r;
   std::unique_ptr<miso::MISOOutput> o;
   std::unique_ptr<miso::MISOLoad> l;
   std::unique_ptr<miso::MISOIntegrator> i;
};

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   json scn = drv::load(argv[1]);
   drv::trace().open(argv[2]);
   drv::Quiet q;
   std::mt19937_64 rng;
   auto uni = [&](int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); };
   for (auto &s : scn)
   {
      rng.seed(s["seed"].get<std::uint64_t>());
      drv::emit({{"event", "Reset"}});
      std::map<int, Holder> hold;
      std::map<int, std::function<void(Holder &, int)>> waiting;    // objects nobody holds
      std::list<std::shared_ptr<void>> integs;
      std::list<Op> solvers;
      for (int i = 0; i < 3; ++i) { solvers.emplace_back(0, "solver"); }
      for (auto &c : s["cmds"])
      {
         std::string cmd = c["cmd"];
         seen = json::array();
         freed = json::array();
         if (cmd == "Make")
         {
            int id = c["o"], mask = c["mask"], size = uni(1, 9);
            char kind = c["kind"].get<std::string>()[0];
            json prov = json::array();
            withMask(mask, [&](auto t)
            {
               constexpr unsigned M = decltype(t)::m;
               unsigned m = kind == 'l' || kind == 'i' ? M & 3u : M;
               for (int b = 0; b < 20; ++b) { if (((m >> b) & 1u) && allowed(kind, b)) { prov.push_back(optional[b]); } }
               if (kind == 'r')
               {
                  auto x = std::make_shared<own::Obj<'r', M>>(id, size);
                  waiting[id] = [x](Holder &h, int) { h.r = std::make_unique<miso::MISOResidual>(std::move(*x)); };
               }
               else if (kind == 'o')
               {
                  auto x = std::make_shared<own::Obj<'o', M>>(id, size);
                  waiting[id] = [x](Holder &h, int) { h.o = std::make_unique<miso::MISOOutput>(std::move(*x)); };
               }
               else if (kind == 'l')
               {
                  auto x = std::make_shared<own::Obj<'l', M | PROD>>(id, size);
                  waiting[id] = [x](Holder &h, int) { h.l = std::make_unique<miso::MISOLoad>(std::move(*x)); };
               }
               else
               {
                  auto x = std::make_shared<own::Integ<M>>(id);
                  integs.push_back(x);
                  auto *p = x.get();
                  waiting[id] = [p](Holder &h, int) { h.i = std::make_unique<miso::MISOIntegrator>(*p); };
               }
            });
            static const std::map<char, std::string> names{{'r', "residual"}, {'o', "output"}, {'l', "load"}, {'i', "integrator"}};
            drv::emit({{"event", "Make"}, {"o", id}, {"kind", names.at(kind)}, {"prov", prov}, {"size", size}});
         }
         else if (cmd == "Wrap")
         {
            auto &h = hold[c["h"].get<int>()];
            int id = c["o"];
            h.obj = id;
            h.mask = c["mask"];
            h.kind = c["kind"].get<std::string>()[0];
            waiting.at(id)(h, 0);
            if (h.kind != 'i') { waiting.erase(id); }
            drv::emit({{"event", "Wrap"}, {"h", c["h"]}, {"o", id}, {"seen", seen}, {"freed", freed},
                       {"height", h.r ? h.r->Height() : -1}, {"width", h.r ? h.r->Width() : -1}});
         }
         else if (cmd == "Move")
         {
            int a = c["h"], b = c["g"];
            auto &h = hold.at(a);
            Holder g;
            g.obj = h.obj;
            g.mask = h.mask;
            g.kind = h.kind;
            // through containers that relocate
            if (h.r) { std::vector<miso::MISOResidual> v; v.push_back(std::move(*h.r)); v.reserve(7); g.r = std::make_unique<miso::MISOResidual>(std::move(v[0])); }
            if (h.o) { std::vector<miso::MISOOutput> v; v.push_back(std::move(*h.o)); v.reserve(7); g.o = std::make_unique<miso::MISOOutput>(std::move(v[0])); }
            if (h.l) { std::vector<miso::MISOLoad> v; v.push_back(std::move(*h.l)); v.reserve(7); g.l = std::make_unique<miso::MISOLoad>(std::move(v[0])); }
            if (h.i) { std::vector<miso::MISOIntegrator> v; v.push_back(std::move(*h.i)); v.reserve(7); g.i = std::make_unique<miso::MISOIntegrator>(std::move(v[0])); }
            hold.erase(a);
            hold[b] = std::move(g);
            drv::emit({{"event", "Move"}, {"h", a}, {"g", b}, {"seen", seen}, {"freed", freed},
                       {"height", hold[b].r ? hold[b].r->Height() : -1}, {"o", hold[b].obj}});
         }
         else if (cmd == "Copy")
         {
            int a = c["h"], b = c["g"];
            auto &h = hold.at(a);
            if (hold.count(b)) { *hold[b].i = *h.i; hold[b].obj = h.obj; hold[b].mask = h.mask; }
            else
            {
               hold[b].i = std::make_unique<miso::MISOIntegrator>(*h.i);
               hold[b].obj = h.obj; hold[b].mask = h.mask; hold[b].kind = 'i';
            }
            drv::emit({{"event", "Copy"}, {"h", a}, {"g", b}, {"seen", seen}, {"freed", freed}});
         }
         else if (cmd == "Drop")
         {
            hold.erase(c["h"].get<int>());
            drv::emit({{"event", "Drop"}, {"h", c["h"]}, {"seen", seen}, {"freed", freed}});
         }
         else
         {
            // a call
            std::string op = c.value("op", "");
            boom = c.value("boom", false);
            MISOInputs in;
            std::list<Vector> mem;
            auto vec = [&](int n) -> Vector &
            {
               mem.emplace_back(n);
               for (int i = 0; i < n; ++i) { mem.back()(i) = uni(-9, 9); }
               return mem.back();
            };
            int n = uni(0, 3);
            for (int i = 0; i < n; ++i)
            {
               std::string name = i ? "in" + std::to_string(uni(0, 5)) : "state";
               if (uni(0, 1)) { in[name] = double(uni(-99, 99)); }
               else { in[name] = miso::InputVector(vec(uni(0, 3))); }
            }
            static const std::vector<std::string> names{"state", "mesh_coords", "", "h:a", "in1"};
            std::string wrt = names[uni(0, 4)];
            Vector &x = vec(uni(0, 4));
            Vector &y = vec(uni(0, 4));
            Vector &z = vec(uni(0, 4));
            json opt = uni(0, 1) ? json{{"a", uni(0, 9)}, {"b", {1, "x"}}} : json::object();
            int blk = uni(0, 5);
            auto &sol = *std::next(solvers.begin(), uni(0, 2));
            json res = {{"k", "none"}}, a;
            std::vector<Vector *> bufs;
            auto nums = [&](double v) { res = {{"k", "num"}, {"v", (int)std::lround(v)}}; };
            auto ref = [&](mfem::Operator *p)
            {
               auto *k = dynamic_cast<Op *>(p);
               if (!p) { res = {{"k", "null"}}; }
               else if (k) { res = {{"k", "ref"}, {"obj", k->obj}, {"what", k->what}}; }
               else { res = {{"k", "stranger"}}; }
            };
            auto products = [&](auto &w)
            {
               if (op == "jvps") { a = args(nullptr, wrt, &x); nums(jacobianVectorProduct(w, x, wrt)); }
               else if (op == "jvpv") { bufs = {&y}; a = args(nullptr, wrt, &x, {&y}); jacobianVectorProduct(w, x, wrt, y); }
               else if (op == "vjps") { a = args(nullptr, wrt, &x); nums(vectorJacobianProduct(w, x, wrt)); }
               else if (op == "vjpv") { bufs = {&y}; a = args(nullptr, wrt, &x, {&y}); vectorJacobianProduct(w, x, wrt, y); }
               else { return false; }
               return true;
            };
            auto common = [&](auto &w)
            {
               if (op == "setInputs") { a = args(&in); setInputs(w, in); }
               else if (op == "setOptions") { a = args(nullptr, "", nullptr, {}, opt); setOptions(w, opt); }
               else { return false; }
               return true;
            };
            auto guard = [&](auto f)
            {
               try { f(); }
               catch (miso::NotImplementedException &) { res = {{"k", "error"}, {"e", "notimplemented"}}; }
               catch (miso::MISOException &) { res = {{"k", "error"}, {"e", "miso"}}; }
               catch (std::runtime_error &) { res = {{"k", "error"}, {"e", "thrown"}}; }
               catch (std::exception &) { res = {{"k", "error"}, {"e", "other"}}; }
            };
            if (cmd == "CallAll")
            {
               std::vector<miso::MISOIntegrator> v;
               for (auto &h : c["hs"]) { v.push_back(*hold.at(h.get<int>()).i); }
               guard([&] { common(v); });
               drv::emit({{"event", "CallAll"}, {"hs", c["hs"]}, {"op", op}, {"args", a}, {"seen", seen}, {"res", res}, {"freed", freed}});
               boom = false;
               continue;
            }
            auto &h = hold.at(c["h"].get<int>());
            if (cmd == "Concrete")
            {
               withMask(c["as"].get<int>(), [&](auto t)
               {
                  using T = own::Obj<'r', decltype(t)::m>;
                  guard([&] { if (c["const"].get<bool>()) { nums(miso::getConcrete<T>(static_cast<const miso::MISOResidual &>(*h.r)).c->id); } else { nums(miso::getConcrete<T>(*h.r).c->id); } });
               });
               drv::emit({{"event", "Concrete"}, {"h", c["h"]}, {"right", c["as"].get<int>() % 7 == h.mask % 7}, {"res", res}, {"seen", seen}, {"freed", freed}});
               continue;
            }
            json before = json::array(), after = json::array();
            Vector y0(y), z0(z);
            if (cmd == "Entropy")
            {
               guard([&]
               {
                  miso::EntropyOutput<miso::MISOResidual> e(*h.r);
                  if (op == "calcOutput") { a = args(&in); nums(calcOutput(e, in)); }
                  else if (op == "partials") { a = args(&in, wrt); nums(calcOutputPartial(e, wrt, in)); }
                  else { common(e); }
               });
            }
            else guard([&]
            {
               if (h.r)
               {
                  auto &w = *h.r;
                  if (common(w) || products(w)) { }
                  else if (op == "getSize") { a = args(); nums(getSize(w)); }
                  else if (op == "evaluate") { bufs = {&y}; a = args(&in, "", nullptr, {&y}); evaluate(w, in, y); }
                  else if (op == "Mult") { bufs = {&y}; a = args(nullptr, "", &x, {&y}); w.Mult(x, y); }
                  else if (op == "getJacobian") { a = args(&in, wrt); ref(&getJacobian(w, in, wrt)); }
                  else if (op == "GetGradient") { a = args(nullptr, "", &x); ref(&w.GetGradient(x)); }
                  else if (op == "getMPIComm")
                  {
                     a = args();
                     auto k = getMPIComm(w);
                     res = {{"k", "comm"}, {"v", k == MPI_COMM_SELF ? "self" : k == MPI_COMM_WORLD ? "world" : "other"}};
                  }
                  else if (op == "linearize") { a = args(&in); linearize(w, in); }
                  else if (op == "getJacobianTranspose") { a = args(&in, wrt); ref(&getJacobianTranspose(w, in, wrt)); }
                  else if (op == "getJacobianBlock") { a = args(&in, "", nullptr, {}, nullptr, blk); ref(&getJacobianBlock(w, in, blk)); }
                  else if (op == "setUpAdjointSystem") { bufs = {&y, &z}; a = args(&in, "", nullptr, {&y, &z}, nullptr, 0, &sol); setUpAdjointSystem(w, sol, in, y, z); }
                  else if (op == "finalizeAdjointSystem") { bufs = {&y, &z}; a = args(&in, "", nullptr, {&y, &z}, nullptr, 0, &sol); finalizeAdjointSystem(w, sol, in, y, z); }
                  else if (op == "calcEntropy") { a = args(&in); nums(calcEntropy(w, in)); }
                  else if (op == "calcEntropyChange") { a = args(&in); nums(calcEntropyChange(w, in)); }
                  else if (op == "calcSupplyRate") { a = args(&in); nums(calcSupplyRate(w, in)); }
                  else if (op == "getMassMatrix") { a = args(nullptr, "", nullptr, {}, opt); ref(getMassMatrix(w, opt)); }
                  else if (op == "getPreconditioner") { a = args(); ref(getPreconditioner(w)); }
               }
               else if (h.o)
               {
                  auto &w = *h.o;
                  if (common(w) || products(w)) { }
                  else if (op == "getSize") { a = args(); nums(getSize(w)); }
                  else if (op == "calcOutput") { a = args(&in); nums(calcOutput(w, in)); }
                  else if (op == "partials") { a = args(&in, wrt); nums(calcOutputPartial(w, wrt, in)); }
                  else if (op == "partialv") { bufs = {&y}; a = args(&in, wrt, nullptr, {&y}); calcOutputPartial(w, wrt, in, y); }
                  else if (op == "outputv") { bufs = {&y}; a = args(&in, "", nullptr, {&y}); calcOutput(w, in, y); }
               }
               else if (h.l)
               {
                  auto &w = *h.l;
                  if (common(w) || products(w)) { }
                  else if (op == "addLoad") { bufs = {&y}; a = args(nullptr, "", nullptr, {&y}); addLoad(w, y); }
               }
               else { common(*h.i); }
            });
            if (bufs.size() > 0) { before.push_back(num(y0)); after.push_back(num(y)); }
            if (bufs.size() > 1) { before.push_back(num(z0)); after.push_back(num(z)); }
            drv::emit({{"event", cmd}, {"h", c["h"]}, {"op", op}, {"boom", boom}, {"args", a}, {"seen", seen}, {"res", res},
                       {"before", before}, {"after", after}, {"freed", freed}});
            boom = false;
         }
      }
      freed = json::array();
   }
   drv::emit({{"event", "End"}});
   return 0;
}
