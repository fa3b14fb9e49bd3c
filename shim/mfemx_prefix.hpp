// Included before every source compiled against the mfem overlay.
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mfem.hpp"

#ifdef MFEMX_FUNCS
// Coefficients of positions whose reverse mode MISO's fork of mfem has: their
// definitions stand in for the ones of mfem 4.5.2 of the same names.
#include <functional>
namespace mfem
{
inline void mfemxPointRev(ElementTransformation &T, const IntegrationPoint &ip, const Vector &x_bar, DenseMatrix &P_bar)
{
   const auto *fe = dynamic_cast<IsoparametricTransformation &>(T).GetFE();
   Vector shape(fe->GetDof());
   fe->CalcShape(ip, shape);
   for (int j = 0; j < shape.Size(); ++j)
   {
      for (int d = 0; d < P_bar.Height(); ++d) { P_bar(d, j) += x_bar(d) * shape(j); }
   }
}

class PositionVectorCoefficient : public VectorCoefficient
{
   std::function<void(const Vector &, Vector &)> F;
   std::function<void(const Vector &, const Vector &, Vector &)> R;

public:
   PositionVectorCoefficient(int dim, std::function<void(const Vector &, Vector &)> f,
                             std::function<void(const Vector &, const Vector &, Vector &)> r = {})
    : VectorCoefficient(dim), F(std::move(f)), R(std::move(r))
   { }
   using VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      Vector x(T.GetSpaceDim());
      T.Transform(ip, x);
      V.SetSize(vdim);
      F(x, V);
   }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      Vector x(T.GetSpaceDim()), x_bar(T.GetSpaceDim());
      T.Transform(ip, x);
      x_bar = 0.0;
      R(x, V_bar, x_bar);
      mfemxPointRev(T, ip, x_bar, P_bar);
   }
};

class PositionCoefficient : public Coefficient
{
   std::function<double(const Vector &)> F;
   std::function<void(const Vector &, double, Vector &)> R;

public:
   PositionCoefficient(std::function<double(const Vector &)> f, std::function<void(const Vector &, double, Vector &)> r = {})
    : F(std::move(f)), R(std::move(r))
   { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      Vector x(T.GetSpaceDim());
      T.Transform(ip, x);
      return F(x);
   }
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      Vector x(T.GetSpaceDim()), x_bar(T.GetSpaceDim());
      T.Transform(ip, x);
      x_bar = 0.0;
      R(x, Q_bar, x_bar);
      mfemxPointRev(T, ip, x_bar, P_bar);
   }
};

/// a constant times a function of the position
class ScaledVectorCoefficient : public VectorCoefficient
{
   Coefficient &a;
   VectorCoefficient &b;

public:
   ScaledVectorCoefficient(ConstantCoefficient &A, VectorCoefficient &B) : VectorCoefficient(B.GetVDim()), a(A), b(B) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      b.Eval(V, T, ip);
      V *= a.Eval(T, ip);
   }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      Vector W(V_bar);
      W *= a.Eval(T, ip);
      b.EvalRevDiff(W, T, ip, P_bar);
   }
};

class ScaledCoefficient : public Coefficient
{
   Coefficient &a, &b;

public:
   ScaledCoefficient(ConstantCoefficient &A, Coefficient &B) : a(A), b(B) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return a.Eval(T, ip) * b.Eval(T, ip); }
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P_bar) override
   {
      b.EvalRevDiff(Q_bar * a.Eval(T, ip), T, ip, P_bar);
   }
};
}  // namespace mfem
#define VectorFunctionCoefficient PositionVectorCoefficient
#define FunctionCoefficient PositionCoefficient
#define ScalarVectorProductCoefficient ScaledVectorCoefficient
#define ProductCoefficient ScaledCoefficient
#endif
