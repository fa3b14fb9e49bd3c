// Drives the real SBP elements; every operator application, query and mesh
// numbering is an event.
#include "drv.hpp"
#include "sbp_fe.hpp"
#include "utils.hpp"
using namespace drv;
using namespace mfem;

static DenseMatrix junk(int h, int w, double v = 7.25)
{
   DenseMatrix A(h, w);
   for (int i = 0; i < h * w; ++i) { A.Data()[i] = v + i; }
   return A;
}

static void mesh(const json &c)
{
   int d = c["dim"], p = c["p"];
   bool cont = c["coll"] == "sbp";
   std::unique_ptr<FiniteElementCollection> fec;
   if (cont) { fec = std::make_unique<SBPCollection>(p, d); }
   else { fec = std::make_unique<DSBPCollection>(p, d); }
   const auto &X = c["verts"], &E = c["elems"], &B = c["bdr"];
   Mesh m(d, X.size(), E.size(), B.size(), d);
   for (const auto &x : X) { m.AddVertex(vec(x).GetData()); }
   for (const auto &e : E)
   {
      std::vector<int> v = e;
      if (d == 1) { m.AddSegment(v.data()); }
      else if (d == 2) { m.AddTriangle(v.data()); }
      else { m.AddTet(v.data()); }
   }
   for (const auto &e : B)
   {
      std::vector<int> v = e;
      if (d == 1) { m.AddBdrPoint(v[0]); }
      else if (d == 2) { m.AddBdrSegment(v.data()); }
      else { m.AddBdrTriangle(v.data()); }
   }
   if (d == 1) { m.FinalizeTopology(); m.Finalize(false, true); }
   else if (d == 2) { m.FinalizeTriMesh(1, 0, true); }
   else { m.FinalizeTetMesh(1, 0, true); }
   FiniteElementSpace fes(&m, fec.get());
   auto nodes = [&](bool bdr)
   {
      json r = json::array();
      int n = bdr ? m.GetNBE() : m.GetNE();
      for (int e = 0; e < n; ++e)
      {
         Array<int> dofs;
         const FiniteElement *fe;
         ElementTransformation *T;
         if (bdr) { fes.GetBdrElementDofs(e, dofs); fe = fes.GetBE(e); T = fes.GetBdrElementTransformation(e); }
         else { fes.GetElementDofs(e, dofs); fe = fes.GetFE(e); T = fes.GetElementTransformation(e); }
         const IntegrationRule &ir = fe->GetNodes();
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            Vector x(d);
            T->SetIntPoint(&ir.IntPoint(i));
            T->Transform(ir.IntPoint(i), x);
            r.push_back({{"x", hex(x)}, {"dof", i < dofs.Size() ? dofs[i] : -12345}});
         }
      }
      return r;
   };
   emit({{"event", "Mesh"}, {"cont", cont}, {"nodes", nodes(false)}, {"bdr", cont ? nodes(true) : json::array()}});
}

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &s : scn)
   {
      emit({{"event", "Reset"}});
      std::unique_ptr<FiniteElementCollection> fec;
      const SBPFiniteElement *fe = nullptr;
      DenseMatrix buf;
      int N = 0, d = 0;
      for (const auto &c : s["cmds"])
      {
         std::string k = c["cmd"];
         int di = c.value("c", 0), i = c.value("i", 0), j = c.value("j", 0);
         if (k == "Mesh") { mesh(c); }
         else if (k == "Elem")
         {
            int p = c["p"];
            std::string g = c["kind"];
            if (c["coll"] == "sbp") { fec = std::make_unique<SBPCollection>(p, c["dim"].get<int>()); }
            else { fec = std::make_unique<DSBPCollection>(p, 2); }
            auto geom = g == "seg" ? Geometry::SEGMENT : g == "tri" ? Geometry::TRIANGLE : Geometry::TETRAHEDRON;
            fe = dynamic_cast<const SBPFiniteElement *>(fec->FiniteElementForGeometry(geom));
            if (!fe) { return 97; }
            N = fe->GetDof();
            d = fe->GetDim();
            json e = {{"dim", d}, {"p", fe->GetOrder()}, {"H", hex(fe->returnDiagNorm())}, {"pts", json::array()}, {"Q", json::array()}};
            Vector w(N);
            for (int q = 0; q < N; ++q) { w(q) = fe->GetNodes().IntPoint(q).weight; }
            e["w"] = hex(w);
            for (int a = 0; a < d; ++a)
            {
               Vector x(N);
               for (int q = 0; q < N; ++q)
               {
                  const auto &ip = fe->GetNodes().IntPoint(q);
                  x(q) = a == 0 ? ip.x : a == 1 ? ip.y : ip.z;
               }
               e["pts"].push_back(hex(x));
               DenseMatrix Q(N);
               for (int q = 0; q < N; ++q)
                  for (int r = 0; r < N; ++r) { Q(q, r) = fe->getQ(a, q, r); }
               e["Q"].push_back(hexm(Q));
            }
            DenseMatrix P = junk(N, N);
            fe->getProjOperator(P);
            e["P"] = hexm(P);
            emit({{"event", "Element"}, {"e", e}});
         }
         else if (k == "Buffer")
         {
            buf = mat(c["B"]);
            emit({{"event", "Buffer"}, {"B", c["B"]}});
         }
         else if (k == "Norm" || k == "NormInv")
         {
            DenseMatrix u = mat(c["u"]);
            json ju = c["u"];
            if (c["alias"]) { ju = hexm(buf); }
            const DenseMatrix &v = c["alias"] ? buf : u;
            if (k == "Norm") { fe->multNormMatrix(v, buf); }
            else { fe->multNormMatrixInv(v, buf); }
            emit({{"event", k}, {"u", ju}, {"B", hexm(buf)}});
         }
         else if (k == "Weak")
         {
            DenseMatrix u = mat(c["u"]);
            if (c["tr"]) { fe->multWeakOperator(di, u, buf, true); }
            else { fe->multWeakOperator(di, u, buf); }
            emit({{"event", k}, {"c", di + 1}, {"tr", c["tr"]}, {"u", c["u"]}, {"B", hexm(buf)}});
         }
         else if (k == "Proj")
         {
            DenseMatrix u = mat(c["u"]);
            fe->multProjOperator(u, buf, c["tr"]);
            emit({{"event", k}, {"tr", c["tr"]}, {"u", c["u"]}, {"B", hexm(buf)}});
         }
         else if (k == "WeakNode" || k == "StrongNode")
         {
            DenseMatrix u = mat(c["u"]);
            Vector r(u.Height());
            r = -3.5;
            if (k == "WeakNode") { fe->multWeakOperator(di, i, u, r); }
            else { fe->multStrongOperator(di, i, u, r); }
            emit({{"event", k}, {"c", di + 1}, {"i", i + 1}, {"u", c["u"]}, {"r", hex(r)}});
         }
         else if (k == "Entries")
         {
            DenseMatrix A = mat(c["Ai"]), B = mat(c["Aj"]);
            emit({{"event", k}, {"c", di + 1}, {"i", i + 1}, {"j", j + 1}, {"Ai", c["Ai"]}, {"Aj", c["Aj"]},
                  {"q", hex(fe->getQ(di, i, j))}, {"sym", hex(fe->getSymEntry(di, i, A))},
                  {"skew", hex(fe->getSkewEntry(di, i, j, A, B))}, {"phys", hex(fe->getQEntry(di, i, j, A, B))}});
         }
         else if (k == "SkewRev")
         {
            DenseMatrix A = mat(c["Ai"]), B = mat(c["Aj"]);
            fe->getSkewEntryRevDiff(di, i, j, unhex(c["s"]), A, B);
            emit({{"event", k}, {"c", di + 1}, {"i", i + 1}, {"j", j + 1}, {"s", c["s"]}, {"bi", c["Ai"]}, {"bj", c["Aj"]},
                  {"ai", hexm(A)}, {"aj", hexm(B)}});
         }
         else if (k == "Shape" || k == "DShape" || k == "Index")
         {
            int node = c["node"];   // 0: the point x; otherwise the node, by reference or as a copy
            IntegrationPoint own;
            own.Init(0);
            if (node) { own = fe->GetNodes().IntPoint(node - 1); }
            else
            {
               Vector x = vec(c["x"]);
               own.x = x(0);
               if (d > 1) { own.y = x(1); }
               if (d > 2) { own.z = x(2); }
            }
            const IntegrationPoint &ip = node && !c["copy"].get<bool>() ? fe->GetNodes().IntPoint(node - 1) : own;
            if (k == "Shape")
            {
               Vector sh(N), x(d);
               sh = 5.5;
               fe->CalcShape(ip, sh);
               for (int a = 0; a < d; ++a) { x(a) = a == 0 ? ip.x : a == 1 ? ip.y : ip.z; }
               emit({{"event", k}, {"node", c["copy"].get<bool>() ? 0 : node}, {"x", hex(x)}, {"sh", hex(sh)}});
            }
            else if (k == "DShape")
            {
               DenseMatrix ds = junk(N, d);
               bool err = false;
               try { fe->CalcDShape(ip, ds); }
               catch (const miso::MISOException &) { err = true; }
               emit({{"event", k}, {"node", node}, {"ds", hexm(ds)}, {"err", err}});
            }
            else
            {
               int r = -1;
               bool err = false;
               try { r = fe->getIntegrationPointIndex(ip); }
               catch (const miso::MISOException &) { err = true; }
               emit({{"event", k}, {"node", node}, {"r", r + 1}, {"err", err}});
            }
         }
         else if (k == "StrongMat" || k == "WeakMat")
         {
            DenseMatrix A = junk(c["h"], c["h"]);
            if (k == "StrongMat") { fe->getStrongOperator(di, A, c["tr"].get<bool>()); }
            else { fe->getWeakOperator(di, A, c["tr"].get<bool>()); }
            emit({{"event", k}, {"c", di + 1}, {"tr", c["tr"]}, {"A", hexm(A)}});
         }
         else if (k == "StrongRow")
         {
            Vector r(3);
            fe->getStrongOperator(di, i, r);
            emit({{"event", k}, {"c", di + 1}, {"i", i + 1}, {"r", hex(r)}});
         }
         else if (k == "ProjMat")
         {
            DenseMatrix P = junk(N, N), E(N);
            fe->getProjOperator(P);
            for (int q = 0; q < N; ++q)
               for (int r = 0; r < N; ++r) { E(q, r) = fe->getProjOperatorEntry(q, r); }
            emit({{"event", k}, {"A", hexm(P)}, {"E", hexm(E)}});
         }
         else if (k == "Coords")
         {
            Vector x;
            fe->getNodeCoords(di, x);
            emit({{"event", k}, {"c", di + 1}, {"x", hex(x)}});
         }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
