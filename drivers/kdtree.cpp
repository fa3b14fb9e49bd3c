// Drives the real k-d tree; every datum stored and every answer is an event.
#include "drv.hpp"
#include "kdtree.hpp"
using namespace drv;

struct Tree
{
   virtual ~Tree() = default;
   virtual void size(int n) = 0;
   virtual void add(const mfem::Vector &x, int id) = 0;
   virtual void finalize() = 0;
   virtual bool empty() = 0;
   virtual int nearest(const mfem::Vector &x, int how) = 0;
   virtual double distance() = 0;
};
template <typename T, size_t D>
struct TreeOf : Tree
{
   using P = miso::point<T, D>;
   std::unique_ptr<miso::kdtree<T, D>> t;
   static P make(const mfem::Vector &x, int how)
   {
      if (how == 1)
      {
         std::array<T, D> a;
         for (size_t i = 0; i < D; ++i) { a[i] = static_cast<T>(x(i)); }
         return P(a);
      }
      if constexpr (D == 2)
      {
         if (how == 2) { return P{static_cast<T>(x(0)), static_cast<T>(x(1))}; }
      }
      return P(x);
   }
   TreeOf(const std::string &how, const std::vector<mfem::Vector> &pts)
   {
      if (how == "add") { t = std::make_unique<miso::kdtree<T, D>>(); return; }
      std::vector<P> ps;
      for (size_t i = 0; i < pts.size(); ++i) { ps.push_back(make(pts[i], i % 3)); }
      if (how == "iter") { t = std::make_unique<miso::kdtree<T, D>>(ps.begin(), ps.end()); return; }
      size_t k = 0;
      t = std::make_unique<miso::kdtree<T, D>>([&]() { return ps.at(k++); }, ps.size());
   }
   void size(int n) override { t->set_size(n); }
   void add(const mfem::Vector &x, int id) override { t->add_node(x, id); }
   void finalize() override { t->finalize(); }
   bool empty() override { return t->empty(); }
   int nearest(const mfem::Vector &x, int how) override { return t->nearest(make(x, how)); }
   double distance() override { return t->distance(); }
};
template <typename T>
std::unique_ptr<Tree> create(int d, const std::string &how, const std::vector<mfem::Vector> &p)
{
   switch (d)
   {
      case 1: return std::make_unique<TreeOf<T, 1>>(how, p);
      case 2: return std::make_unique<TreeOf<T, 2>>(how, p);
      case 3: return std::make_unique<TreeOf<T, 3>>(how, p);
      default: return std::make_unique<TreeOf<T, 4>>(how, p);
   }
}

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &s : scn)
   {
      emit({{"event", "Reset"}});
      std::unique_ptr<Tree> t;
      int how = 0;
      for (const auto &c : s["cmds"])
      {
         std::string k = c["cmd"];
         if (k == "New")
         {
            std::vector<mfem::Vector> p;
            for (const auto &x : c["pts"]) { p.push_back(vec(x)); }
            int d = c["dim"];
            t = c["type"] == "int" ? create<int>(d, c["how"], p) : create<double>(d, c["how"], p);
            if (c["how"] != "add") { emit({{"event", "Make"}, {"pts", c["pts"]}}); }
            else if (c.contains("reserve")) { t->size(c["reserve"]); }
         }
         else if (k == "Add")
         {
            t->add(vec(c["x"]), c["id"]);
            emit({{"event", "Add"}, {"x", c["x"]}, {"id", c["id"]}});
         }
         else if (k == "Finalize")
         {
            t->finalize();
            emit({{"event", "Finalize"}});
         }
         else if (k == "Query")
         {
            json e = {{"event", "Query"}, {"x", c["x"]}, {"id", -99}, {"d", hex(0.0)}, {"err", false}};
            try
            {
               e["id"] = t->nearest(vec(c["x"]), how++ % 3);
               e["d"] = hex(t->distance());
            }
            catch (const std::exception &) { e["err"] = true; }
            emit(e);
         }
         else if (k == "Empty") { emit({{"event", "Empty"}, {"r", t->empty()}}); }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
