// Stand-in for tinyspline (not installed here): exactly the part of its C++
// interface MISO uses, as the textbook definition of a clamped B-spline.
#ifndef TINYSPLINECXX_SHIM
#define TINYSPLINECXX_SHIM
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>
namespace tinyspline
{
using real = double;
struct DeBoorNet
{
   std::vector<real> r;
   std::vector<real> result() const { return r; }
};
class BSpline
{
public:
   BSpline(std::size_t n, std::size_t dim = 2, std::size_t degree = 3) : p(degree), c(n, 0.0), t(n + degree + 1)
   {
      if (dim != 1 || degree >= n) { throw std::runtime_error("tinyspline: unsupported dimension or degree"); }
      for (std::size_t i = 0; i < t.size(); ++i)
      {
         t[i] = i <= p ? 0.0 : i >= n ? 1.0 : double(i - p) / double(n - p);
      }
   }
   void setControlPoints(const std::vector<real> &v)
   {
      if (v.size() != c.size()) { throw std::runtime_error("tinyspline: wrong number of control points"); }
      c = v;
   }
   void setKnots(const std::vector<real> &v)
   {
      if (v.size() != t.size()) { throw std::runtime_error("tinyspline: wrong number of knots"); }
      for (std::size_t i = 1; i < v.size(); ++i)
      {
         if (v[i] < v[i - 1]) { throw std::runtime_error("tinyspline: decreasing knots"); }
      }
      t = v;
   }
   DeBoorNet eval(real u) const
   {
      std::size_t n = c.size(), k = p;
      if (!(u >= t[p] - 1e-4 && u <= t[n] + 1e-4)) { throw std::runtime_error("tinyspline: undefined at u"); }
      u = std::fmin(std::fmax(u, t[p]), t[n]);
      while (k + 1 < n && u >= t[k + 1]) { ++k; }
      std::vector<real> d(c.begin() + (k - p), c.begin() + k + 1);
      for (std::size_t r = 1; r <= p; ++r)
         for (std::size_t j = p; j >= r; --j)
         {
            real a = t[j + k - p], b = t[j + 1 + k - r];
            real al = b > a ? (u - a) / (b - a) : 0.0;
            d[j] = (1 - al) * d[j - 1] + al * d[j];
         }
      return {{d[p]}};
   }
   BSpline derive(std::size_t n = 1) const
   {
      BSpline s = *this;
      for (; n > 0; --n)
      {
         if (s.p == 0)
         {
            s.c.assign(s.c.size(), 0.0);
            break;
         }
         std::vector<real> q(s.c.size() - 1);
         for (std::size_t i = 0; i < q.size(); ++i)
         {
            real h = s.t[i + s.p + 1] - s.t[i + 1];
            q[i] = h > 0 ? double(s.p) * (s.c[i + 1] - s.c[i]) / h : 0.0;
         }
         s.c = q;
         s.t = std::vector<real>(s.t.begin() + 1, s.t.end() - 1);
         --s.p;
      }
      return s;
   }

private:
   std::size_t p;
   std::vector<real> c, t;
};
}  // namespace tinyspline
#endif
