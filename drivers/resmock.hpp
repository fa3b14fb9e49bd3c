// A residual A u + c u^3 + t b + p d, optionally spread over ranks, with
// diagonal blocks it owns.
#ifndef VERIF_RESMOCK_HPP
#define VERIF_RESMOCK_HPP
#include "drv.hpp"
#include "miso_residual.hpp"

struct Problem
{
   mfem::DenseMatrix A;
   double c = 0;
   mfem::Vector b, d;
   int n() const { return A.Height(); }
   void R(const mfem::Vector &u, double t, double p, mfem::Vector &r) const
   {
      A.Mult(u, r);
      for (int i = 0; i < n(); ++i) { r(i) += c * u(i) * u(i) * u(i) + t * b(i) + p * d(i); }
   }
   void J(const mfem::Vector &u, mfem::DenseMatrix &M) const
   {
      M = A;
      for (int i = 0; i < n(); ++i) { M(i, i) += 3 * c * u(i) * u(i); }
   }
};
inline Problem problem(const drv::json &j)
{
   Problem P;
   P.A = drv::mat(j["A"]);
   P.c = drv::unhex(j["c"].get<std::string>());
   P.b = drv::vec(j["b"]);
   P.d = drv::vec(j["d"]);
   return P;
}
inline mfem::HypreParMatrix *hypre(const mfem::DenseMatrix &M)
{
   // a full pattern, so that matrices can be added whatever their zeros are
   int h = M.Height(), w = M.Width();
   auto *s = new mfem::SparseMatrix(h, w);
   for (int i = 0; i < h; ++i)
      for (int j = 0; j < w; ++j) { s->Add(i, j, 1.0); }
   s->Finalize(0);
   for (int i = 0; i < h; ++i)
      for (int j = 0; j < w; ++j) { s->Elem(i, j) = M(i, j); }
   static HYPRE_BigInt row[2], col[2];
   row[0] = col[0] = 0;
   row[1] = h;
   col[1] = w;
   mfem::HypreParMatrix tmp(MPI_COMM_SELF, h, w, row, col, s);
   auto *r = new mfem::HypreParMatrix(tmp);  // deep copy owning everything
   delete s;
   return r;
}
inline mfem::DenseMatrix entries(const mfem::Operator &op)
{
   mfem::DenseMatrix M(op.Height(), op.Width());
   mfem::Vector x(op.Width()), y(op.Height());
   for (int j = 0; j < op.Width(); ++j)
   {
      x = 0.0;
      x(j) = 1.0;
      y = 0.0;
      op.Mult(x, y);
      for (int i = 0; i < op.Height(); ++i) { M(i, j) = y(i); }
   }
   return M;
}
// splits n entries over the ranks of comm
struct Split
{
   MPI_Comm comm = MPI_COMM_SELF;
   int n = 0, lo = 0, hi = 0;
   std::vector<int> cnt, dis;
   Split() = default;
   Split(MPI_Comm c, int n_) : comm(c), n(n_)
   {
      int s, r;
      MPI_Comm_size(c, &s);
      MPI_Comm_rank(c, &r);
      for (int k = 0, at = 0; k < s; ++k)
      {
         int m = n / s + (k < n % s);
         dis.push_back(at);
         cnt.push_back(m);
         at += m;
      }
      lo = dis[r];
      hi = lo + cnt[r];
   }
   mfem::Vector local(const mfem::Vector &g) const
   {
      mfem::Vector l(hi - lo);
      for (int i = lo; i < hi; ++i) { l(i - lo) = g(i); }
      return l;
   }
   mfem::Vector gather(const mfem::Vector &l) const
   {
      mfem::Vector g(n), s(l.Size() + 1);
      for (int i = 0; i < l.Size(); ++i) { s(i) = l.GetData()[i]; }
      MPI_Allgatherv(s.GetData(), hi - lo, MPI_DOUBLE, g.GetData(), cnt.data(), dis.data(), MPI_DOUBLE, comm);
      return g;
   }
};
#endif
