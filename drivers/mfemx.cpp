// Definitions of what the header overlay (tools/mfemx.py) declares.
#include <list>
#include "mfem.hpp"
using namespace mfem;

namespace mfemx
{
void jacRev(const FiniteElement &fe, const IntegrationPoint &ip, const DenseMatrix &J_bar, DenseMatrix &P_bar)
{
   // J = P dshape
   DenseMatrix dshape(fe.GetDof(), fe.GetDim());
   fe.CalcDShape(ip, dshape);
   for (int j = 0; j < fe.GetDof(); ++j)
      for (int a = 0; a < P_bar.Height(); ++a)
         for (int b = 0; b < fe.GetDim(); ++b) { P_bar(a, j) += J_bar(a, b) * dshape(j, b); }
}
void weightGrad(const DenseMatrix &J, DenseMatrix &J_bar)
{
   int h = J.Height(), w = J.Width();
   J_bar.SetSize(h, w);
   if (h == w)
   {
      DenseMatrix A(h);
      CalcAdjugate(J, A);
      for (int a = 0; a < h; ++a)
         for (int b = 0; b < w; ++b) { J_bar(a, b) = A(b, a); }
      return;
   }
   // sqrt(det(G)), G = J^T J : d = weight * J G^{-1}
   DenseMatrix G(w), Gi(w);
   MultAtB(J, J, G);
   CalcInverse(G, Gi);
   Mult(J, Gi, J_bar);
   J_bar *= J.Weight();
}
void adjRev(const DenseMatrix &J, const DenseMatrix &Ab, DenseMatrix &J_bar)
{
   int h = J.Height(), w = J.Width();
   J_bar.SetSize(h, w);
   J_bar = 0.0;
   if (h != w) { mfem_error("AdjugateJacobianRevDiff of a surface element"); }
   if (h == 1) { return; }
   // every entry of the adjugate is a polynomial in the entries of J
   for (int i = 0; i < h; ++i)
      for (int j = 0; j < h; ++j)
      {
         // adj(i,j) = (-1)^(i+j) minor of J without row j and column i
         int r[2], c[2], n = 0;
         for (int k = 0; k < h; ++k) { if (k != j) { r[n++] = k; } }
         n = 0;
         for (int k = 0; k < h; ++k) { if (k != i) { c[n++] = k; } }
         double s = ((i + j) % 2 ? -1.0 : 1.0) * Ab(i, j);
         if (h == 2) { J_bar(r[0], c[0]) += s; }
         else
         {
            J_bar(r[0], c[0]) += s * J(r[1], c[1]);
            J_bar(r[1], c[1]) += s * J(r[0], c[0]);
            J_bar(r[0], c[1]) -= s * J(r[1], c[0]);
            J_bar(r[1], c[0]) -= s * J(r[0], c[1]);
         }
      }
}
void invRev(const DenseMatrix &Ji, const DenseMatrix &Ib, DenseMatrix &J_bar)
{
   // d(J^{-1}) = -J^{-1} dJ J^{-1}
   int n = Ji.Height();
   if (n != Ji.Width()) { mfem_error("InverseJacobianRevDiff of a surface element"); }
   DenseMatrix T(n);
   J_bar.SetSize(n);
   MultAtB(Ji, Ib, T);
   MultABt(T, Ji, J_bar);
   J_bar *= -1.0;
}
static IsoparametricTransformation &iso(ElementTransformation &T)
{
   auto *p = dynamic_cast<IsoparametricTransformation *>(&T);
   if (!p) { mfem_error("not an isoparametric transformation"); }
   return *p;
}
void shapeRev(const FiniteElement &fe, ElementTransformation &T, const Vector &bar, DenseMatrix &P_bar)
{
   if (fe.GetMapType() != FiniteElement::INTEGRAL) { return; }
   Vector s(fe.GetDof());
   fe.CalcShape(T.GetIntPoint(), s);
   double w = T.Weight();
   iso(T).WeightRevDiff(-(bar * s) / (w * w), P_bar);
}
void vshapeRev(const FiniteElement &fe, ElementTransformation &T, const DenseMatrix &bar, DenseMatrix &P_bar)
{
   DenseMatrix v(fe.GetDof(), fe.GetDim());
   fe.CalcVShape(T.GetIntPoint(), v);
   int d = fe.GetDim(), n = fe.GetDof();
   if (fe.GetMapType() == FiniteElement::H_CURL)
   {
      // phys = v J^{-1}
      DenseMatrix Ib(d, bar.Width());
      MultAtB(v, bar, Ib);
      iso(T).InverseJacobianRevDiff(Ib, P_bar);
   }
   else
   {
      // phys = v J^T / w
      double w = T.Weight();
      DenseMatrix Jb(bar.Width(), d);
      MultAtB(bar, v, Jb);
      double wb = 0.0;
      for (int a = 0; a < Jb.Height(); ++a)
         for (int b = 0; b < d; ++b) { wb += Jb(a, b) * T.Jacobian()(a, b); }
      Jb *= 1.0 / w;
      iso(T).JacobianRevDiff(Jb, P_bar);
      iso(T).WeightRevDiff(-wb / (w * w), P_bar);
   }
   (void)n;
}
void curlRev(const FiniteElement &fe, ElementTransformation &T, const DenseMatrix &bar, DenseMatrix &P_bar)
{
   int d = fe.GetDim(), cd = d == 3 ? 3 : 1;
   DenseMatrix c(fe.GetDof(), cd);
   fe.CalcCurlShape(T.GetIntPoint(), c);
   double w = T.Weight(), wb = 0.0;
   if (d == 3)
   {
      DenseMatrix Jb(3);
      MultAtB(bar, c, Jb);
      for (int a = 0; a < 3; ++a)
         for (int b = 0; b < 3; ++b) { wb += Jb(a, b) * T.Jacobian()(a, b); }
      Jb *= 1.0 / w;
      iso(T).JacobianRevDiff(Jb, P_bar);
   }
   else
   {
      for (int i = 0; i < fe.GetDof(); ++i) { wb += bar(i, 0) * c(i, 0); }
   }
   iso(T).WeightRevDiff(-wb / (w * w), P_bar);
}
}  // namespace mfemx

namespace mfem
{
void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &nb, DenseMatrix &Jb)
{
   if (J.Height() == 2)
   {
      Jb(1, 0) += nb(0);
      Jb(0, 0) -= nb(1);
   }
   else
   {
      // n = J(:,0) x J(:,1)
      auto cr = [](const double *a, const double *b, double *o, double s)
      {
         o[0] += s * (a[1] * b[2] - a[2] * b[1]);
         o[1] += s * (a[2] * b[0] - a[0] * b[2]);
         o[2] += s * (a[0] * b[1] - a[1] * b[0]);
      };
      double a[3], b[3], n[3], ab[3] = {}, bb[3] = {};
      for (int i = 0; i < 3; ++i) { a[i] = J(i, 0); b[i] = J(i, 1); n[i] = nb(i); }
      cr(b, n, ab, 1.0);   // d(n.(a x b))/da = b x n
      cr(n, a, bb, 1.0);
      for (int i = 0; i < 3; ++i) { Jb(i, 0) += ab[i]; Jb(i, 1) += bb[i]; }
   }
}

double NonlinearFormIntegrator::GetFaceEnergy(const FiniteElement &, const FiniteElement &, FaceElementTransformations &, const Vector &)
{
   mfem_error("NonlinearFormIntegrator::GetFaceEnergy(...) is not overloaded!");
   return 0.0;
}

static bool internalBdr(ElementTransformation &T, const Array<int> *marker)
{
   Mesh *m = T.mesh;
   for (int i = 0; m && i < m->GetNBE(); ++i)
   {
      if (m->GetBdrElementEdgeIndex(i) == T.ElementNo && (!marker || (*marker)[m->GetBdrAttribute(i) - 1])) { return true; }
   }
   return false;
}
void InternalBdrIntegrator::AssembleFaceVector(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T,
                                               const Vector &f, Vector &v)
{
   if (internalBdr(T, marker)) { in->AssembleFaceVector(a, b, T, f, v); }
   else { v.SetSize(f.Size()); v = 0.0; }
}
void InternalBdrIntegrator::AssembleFaceGrad(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T,
                                             const Vector &f, DenseMatrix &m)
{
   if (internalBdr(T, marker)) { in->AssembleFaceGrad(a, b, T, f, m); }
   else { m.SetSize(f.Size()); m = 0.0; }
}
double InternalBdrIntegrator::GetFaceEnergy(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, const Vector &f)
{
   return internalBdr(T, marker) ? in->GetFaceEnergy(a, b, T, f) : 0.0;
}
void InternalBdrLFIntegrator::AssembleRHSElementVect(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, Vector &v)
{
   if (internalBdr(T, marker)) { in->AssembleRHSElementVect(a, b, T, v); }
   else
   {
      v.SetSize(vdim * (a.GetDof() + (T.Elem2No >= 0 ? b.GetDof() : 0)));
      v = 0.0;
   }
}

// takes the place of the library's, which has no face terms
double NonlinearForm::GetGridFunctionEnergy(const Vector &x) const
{
   Vector el_x;
   Array<int> vd, vd2;
   double e = 0.0;
   Mesh *mesh = fes->GetMesh();
   for (int i = 0; dnfi.Size() && i < fes->GetNE(); ++i)
   {
      auto *dt = fes->GetElementVDofs(i, vd);
      x.GetSubVector(vd, el_x);
      if (dt) { dt->InvTransformPrimal(el_x); }
      for (int k = 0; k < dnfi.Size(); ++k) { e += dnfi[k]->GetElementEnergy(*fes->GetFE(i), *fes->GetElementTransformation(i), el_x); }
   }
   for (int i = 0; fnfi.Size() && i < mesh->GetNumFaces(); ++i)
   {
      auto *tr = mesh->GetInteriorFaceTransformations(i);
      if (!tr) { continue; }
      fes->GetElementVDofs(tr->Elem1No, vd);
      fes->GetElementVDofs(tr->Elem2No, vd2);
      vd.Append(vd2);
      x.GetSubVector(vd, el_x);
      for (int k = 0; k < fnfi.Size(); ++k) { e += fnfi[k]->GetFaceEnergy(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, el_x); }
   }
   for (int i = 0; bfnfi.Size() && i < fes->GetNBE(); ++i)
   {
      auto *tr = mesh->GetBdrFaceTransformations(i);
      if (!tr) { continue; }
      fes->GetElementVDofs(tr->Elem1No, vd);
      x.GetSubVector(vd, el_x);
      const FiniteElement *fe = fes->GetFE(tr->Elem1No);
      for (int k = 0; k < bfnfi.Size(); ++k)
      {
         if (bfnfi_marker[k] && (*bfnfi_marker[k])[mesh->GetBdrAttribute(i) - 1] == 0) { continue; }
         e += bfnfi[k]->GetFaceEnergy(*fe, *fe, *tr, el_x);
      }
   }
   return e;
}
double ParNonlinearForm::mfemxEnergy(const Vector &x) const
{
   double loc = NonlinearForm::GetGridFunctionEnergy(x), sum;
   MPI_Allreduce(&loc, &sum, 1, MPI_DOUBLE, MPI_SUM, static_cast<ParFiniteElementSpace *>(fes)->GetComm());
   return sum;
}
// takes the place of the library's, which gives up on interior faces; there are
// no faces shared with another process here
Operator &ParNonlinearForm::GetGradient(const Vector &x) const
{
   auto *pfes = ParFESpace();
   pGrad.Clear();
   NonlinearForm::GetGradient(x);
   OperatorHandle dA(pGrad.Type()), Ph(pGrad.Type()), e;
   dA.MakeSquareBlockDiag(pfes->GetComm(), pfes->GlobalVSize(), pfes->GetDofOffsets(), Grad);
   Ph.ConvertFrom(pfes->Dof_TrueDof_Matrix());
   pGrad.MakePtAP(dA, Ph);
   e.EliminateRowsCols(pGrad, ess_tdof_list);
   return *pGrad.Ptr();
}
}  // namespace mfem
