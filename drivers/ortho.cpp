// Drives the real quadrature and polynomial routines; buffers are reused.
#include "drv.hpp"
#include "orthopoly.hpp"
#include "utils.hpp"
using namespace drv;
using namespace mfem;

static json cols(const DenseMatrix &V)
{
   json r = json::array();
   for (int j = 0; j < V.Width(); ++j)
   {
      Vector c(V.Height());
      for (int i = 0; i < V.Height(); ++i) { c(i) = V(i, j); }
      r.push_back(hex(c));
   }
   return r;
}

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &s : scn)
   {
      emit({{"event", "Reset"}});
      Vector P, w;
      DenseMatrix V(2, 3);
      V = 4.25;
      for (const auto &c : s["cmds"])
      {
         std::string k = c["cmd"];
         Vector x, y, z;
         if (c.contains("x")) { x = vec(c["x"]); }
         if (c.contains("y")) { y = vec(c["y"]); }
         if (c.contains("z")) { z = vec(c["z"]); }
         int a = c["a"], b = c["b"], e = c["c"];
         int n = x.Size();
         if (P.Size() != n) { P.SetSize(n); P = -8.5; }
         if (k == "jacobi")
         {
            miso::jacobiPoly(x, b, e, a, P);
            emit({{"event", "Jacobi"}, {"d", a}, {"al", b}, {"be", e}, {"x", hex(x)}, {"P", hex(P)}});
         }
         else if (k == "tri")
         {
            miso::prorioPoly(x, y, a, b, P);
            emit({{"event", "Tri"}, {"i", a}, {"j", b}, {"x", hex(x)}, {"y", hex(y)}, {"P", hex(P)}});
         }
         else if (k == "tet")
         {
            miso::prorioPoly(x, y, z, a, b, e, P);
            emit({{"event", "Tet"}, {"i", a}, {"j", b}, {"k", e}, {"x", hex(x)}, {"y", hex(y)}, {"z", hex(z)}, {"P", hex(P)}});
         }
         else if (k == "vseg")
         {
            miso::getVandermondeForSeg(x, a, V);
            emit({{"event", "VanderSeg"}, {"d", a}, {"x", hex(x)}, {"V", cols(V)}});
         }
         else if (k == "vtri")
         {
            miso::getVandermondeForTri(x, y, a, V);
            emit({{"event", "VanderTri"}, {"d", a}, {"x", hex(x)}, {"y", hex(y)}, {"V", cols(V)}});
         }
         else if (k == "vtet")
         {
            miso::getVandermondeForTet(x, y, z, a, V);
            emit({{"event", "VanderTet"}, {"d", a}, {"x", hex(x)}, {"y", hex(y)}, {"z", hex(z)}, {"V", cols(V)}});
         }
         else if (k == "lobatto")
         {
            Vector q(a);
            q = 0.375;
            w.SetSize(a);
            w = -2.0;
            miso::getLobattoQuadrature(a, q, w);
            emit({{"event", "Lobatto"}, {"k", a}, {"x", hex(q)}, {"w", hex(w)}});
         }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
