// Drives the real Surface: surfaces from curves and from boundaries of plane
// meshes, asked for distances while their source changes.
#include "drv.hpp"
#include "surface.hpp"
using namespace drv;
using namespace mfem;

// the shape of the elements of a source: p+1 equidistant points
static json shapeOf(ElementTransformation &T, int p)
{
   json el = json::array();
   for (int i = 0; i <= p; ++i)
   {
      IntegrationPoint ip;
      ip.Set1w(double(i) / p, 1);
      Vector x(2);
      T.Transform(ip, x);
      el.push_back(hex(x));
   }
   return el;
}

int main(int, char **argv)
{
   auto scn = load(argv[1]);
   trace().open(argv[2]);
   Quiet quiet;
   for (const auto &s : scn)
   {
      emit({{"event", "Reset"}});
      std::unique_ptr<Mesh> src;
      std::unique_ptr<miso::Surface<2>> surf;
      bool volume = false;
      for (const auto &c : s["cmds"])
      {
         std::string k = c["cmd"];
         if (k == "Curve" || k == "Volume")
         {
            int p = c["p"];
            surf.reset();
            json els = json::array();
            if (k == "Curve")
            {
               volume = false;
               const auto &X = c["verts"], &E = c["elems"];
               src = std::make_unique<Mesh>(1, X.size(), E.size(), 0, 2);
               for (const auto &x : X) { src->AddVertex(vec(x).GetData()); }
               for (const auto &e : E)
               {
                  int v[2] = {e["v"][0], e["v"][1]};
                  src->AddSegment(v, e["attr"].get<int>());
               }
               src->FinalizeMesh();
               if (p > 0)
               {
                  src->SetCurvature(p, false, 2);
                  auto &fes = *src->GetNodes()->FESpace();
                  Array<int> dofs;
                  for (size_t e = 0; e < E.size(); ++e)
                  {
                     fes.GetElementDofs(e, dofs);
                     for (int i = 0; i < dofs.Size(); ++i)
                        for (int d = 0; d < 2; ++d)
                           (*src->GetNodes())(fes.DofToVDof(dofs[i], d)) = unhex(E[e]["x"][i][d]);
                  }
               }
               for (int e = 0; e < src->GetNE(); ++e) { els.push_back(shapeOf(*src->GetElementTransformation(e), std::max(p, 1))); }
               surf = std::make_unique<miso::Surface<2>>(*src);
            }
            else
            {
               volume = true;
               src = std::make_unique<Mesh>(Mesh::MakeCartesian2D(c["nx"], c["ny"], c["tri"].get<bool>() ? Element::TRIANGLE : Element::QUADRILATERAL, true, 1.0, 1.0, false));
               int map = c["map"];
               double amp = unhex(c["amp"]);
               if (p > 0) { src->SetCurvature(p, false, 2, c["byvdim"].get<bool>() ? Ordering::byVDIM : Ordering::byNODES); }
               VectorFunctionCoefficient shapeMap(2, [=](const Vector &x, Vector &y)
                              {
                                 y.SetSize(2);
                                 if (map == 0) { y(0) = 2 * x(0) + .3 * x(1); y(1) = x(1) - .2 * x(0); }
                                 else if (map == 1)  // a sector of an annulus
                                 {
                                    double r = 1 + x(1), t = amp * x(0);
                                    y(0) = r * cos(t); y(1) = r * sin(t);
                                 }
                                 else
                                 {
                                    y(0) = 3 * x(0) + .1 * sin(2 * x(1)); y(1) = 2 * x(1) + .15 * sin(3 * x(0));
                                 }
                              });
               src->Transform(shapeMap);
               Array<int> marker(src->bdr_attributes.Max());
               for (int i = 0; i < marker.Size(); ++i) { marker[i] = c["marker"][i]; }
               for (int i = 0; i < src->GetNBE(); ++i)
                  if (marker[src->GetBdrAttribute(i) - 1]) { els.push_back(shapeOf(*src->GetBdrElementTransformation(i), std::max(p, 1))); }
               surf = std::make_unique<miso::Surface<2>>(*src, marker);
               if (c["other"].get<bool>())
               {
                  bool miso = false;
                  try { miso::Surface<3> no(*src, marker); }
                  catch (const miso::MISOException &) { miso = true; }
                  catch (...) {}
                  emit({{"event", "Refused"}, {"miso", miso}});
               }
            }
            emit({{"event", "Surface"}, {"els", els}});
         }
         else if (k == "Distance" || k == "Element")
         {
            Vector x = vec(c["x"]), x0 = x;
            json e{{"event", k}, {"x", c["x"]}, {"threw", false}, {"d", hex(0.0)}};
            try
            {
               if (k == "Distance") { e["d"] = hex(surf->calcDistance(x)); }
               else
               {
                  // an element the caller knows: of a copy of the source
                  e["e"] = c["e"].get<int>() + 1;
                  e["d"] = hex(surf->solveDistance(*src->GetElementTransformation(c["e"]), x));
               }
            }
            catch (const std::exception &ex) { e["threw"] = true; e["what"] = ex.what(); }
            if (x(0) != x0(0) || x(1) != x0(1)) { e["threw"] = true; e["what"] = "moved the point"; }
            emit(e);
         }
         else if (k == "Move")
         {
            if (src)
            {
               if (src->GetNodes()) { *src->GetNodes() *= 3.0; *src->GetNodes() += 1.0; }
               else { for (int i = 0; i < src->GetNV(); ++i) { src->GetVertex(i)[0] += 7; src->GetVertex(i)[1] *= -2; } }
            }
            emit({{"event", "Moved"}});
         }
         else if (k == "Drop") { src.reset(); emit({{"event", "Moved"}}); }
         else { return 97; }
      }
   }
   emit({{"event", "End"}});
}
