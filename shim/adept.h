// A small stand-in for the Adept-2 automatic-differentiation library, which is not installed
// in this sandbox.  It is a real operator-overloading tape (forward values, recorded local
// derivatives, reverse/forward sweeps) with the part of Adept's interface that MISO uses:
// adouble/Real, Stack::{new_recording,independent,dependent,jacobian,compute_adjoint,...},
// set_values/set_gradients/get_gradients.  Jacobians are column-major, as in Adept.
// It belongs to the checks in /verif; nothing in /repo is compiled against it elsewhere.
#ifndef VERIF_ADEPT_SHIM
#define VERIF_ADEPT_SHIM

#include <algorithm>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <stdexcept>
#include <vector>

namespace adept
{
using Real = double;
using uIndex = std::size_t;

class Stack;
inline Stack *&activeStack()
{
   static thread_local Stack *s = nullptr;
   return s;
}

class adouble;

class Stack
{
public:
   struct Op
   {
      std::size_t idx;
      double mult;
   };
   struct Stmt
   {
      std::size_t lhs;
      std::size_t end;  // one past the last operand of this statement
   };

   explicit Stack(bool activate_now = true)
   {
      if (activate_now)
      {
         activate();
      }
   }
   ~Stack()
   {
      if (activeStack() == this)
      {
         activeStack() = nullptr;
      }
   }
   Stack(const Stack &) = delete;
   Stack &operator=(const Stack &) = delete;

   void activate()
   {
      if (activeStack() == nullptr)
      {
         activeStack() = this;
      }
   }
   void deactivate()
   {
      if (activeStack() == this)
      {
         activeStack() = nullptr;
      }
   }
   bool is_active() const { return activeStack() == this; }

   void new_recording()
   {
      ops.clear();
      stmts.clear();
      indep.clear();
      dep.clear();
      grad.clear();
      n_slots = 0;
      ++generation;
   }
   bool pause_recording() { bool was = recording; recording = false; return was; }
   bool continue_recording() { recording = true; return true; }

   inline void independent(const adouble &a);
   inline void independent(const adouble *a, std::size_t n);
   inline void dependent(const adouble &a);
   inline void dependent(const adouble *a, std::size_t n);

   void clear_independents() { indep.clear(); }
   void clear_dependents() { dep.clear(); }
   std::size_t n_independent() const { return indep.size(); }
   std::size_t n_dependent() const { return dep.size(); }

   void jacobian(double *jac) { jacobian_reverse(jac); }
   void jacobian_forward(double *jac)
   {
      for (std::size_t j = 0; j < indep.size(); ++j)
      {
         std::vector<double> g(n_slots, 0.0);
         g[indep[j]] = 1.0;
         forward(g);
         for (std::size_t i = 0; i < dep.size(); ++i)
         {
            jac[j * dep.size() + i] = g[dep[i]];
         }
      }
   }
   void jacobian_reverse(double *jac)
   {
      for (std::size_t i = 0; i < dep.size(); ++i)
      {
         std::vector<double> g(n_slots, 0.0);
         g[dep[i]] = 1.0;
         reverse(g);
         for (std::size_t j = 0; j < indep.size(); ++j)
         {
            jac[j * dep.size() + i] = g[indep[j]];
         }
      }
   }

   void compute_adjoint()
   {
      grad.resize(n_slots, 0.0);
      reverse(grad);
   }
   void reverse() { compute_adjoint(); }
   void compute_tangent_linear()
   {
      grad.resize(n_slots, 0.0);
      forward(grad);
   }
   void forward() { compute_tangent_linear(); }
   void clear_gradients() { grad.clear(); }

   // ---- used by adouble
   std::size_t newSlot() { return n_slots++; }
   bool isRecording() const { return recording; }
   void record(std::size_t lhs, std::initializer_list<Op> rhs)
   {
      for (const auto &o : rhs)
      {
         ops.push_back(o);
      }
      stmts.push_back({lhs, ops.size()});
   }
   double &gradAt(std::size_t i)
   {
      if (grad.size() < n_slots)
      {
         grad.resize(n_slots, 0.0);
      }
      return grad.at(i);
   }
   unsigned long generation = 1;

private:
   void reverse(std::vector<double> &g) const
   {
      for (std::size_t s = stmts.size(); s-- > 0;)
      {
         const std::size_t b = s == 0 ? 0 : stmts[s - 1].end;
         const double a = g[stmts[s].lhs];
         g[stmts[s].lhs] = 0.0;
         if (a != 0.0)
         {
            for (std::size_t k = b; k < stmts[s].end; ++k)
            {
               g[ops[k].idx] += a * ops[k].mult;
            }
         }
      }
   }
   void forward(std::vector<double> &g) const
   {
      std::size_t b = 0;
      for (const auto &st : stmts)
      {
         double a = 0.0;
         for (std::size_t k = b; k < st.end; ++k)
         {
            a += g[ops[k].idx] * ops[k].mult;
         }
         g[st.lhs] = a;
         b = st.end;
      }
   }

   std::vector<Op> ops;
   std::vector<Stmt> stmts;
   std::vector<std::size_t> indep, dep;
   std::vector<double> grad;
   std::size_t n_slots = 0;
   bool recording = true;
};

// Every assignment gets a fresh slot (static single assignment), so the adjoint of a slot may
// be consumed by its one defining statement.  A variable with no slot in the current recording
// is a constant until it is registered by independent(), set_value or assignment.
class adouble
{
public:
   adouble() : v(0.0) { fresh(); }
   adouble(double x) : v(x) { fresh(); }
   adouble(const adouble &o) : v(o.v) { copyFrom(o); }
   adouble &operator=(const adouble &o)
   {
      if (this != &o)
      {
         v = o.v;
         copyFrom(o);
      }
      return *this;
   }
   adouble &operator=(double x)
   {
      v = x;
      fresh();
      return *this;
   }

   double value() const { return v; }
   void set_value(double x) { v = x; fresh(); }
   void set_gradient(double g) const { if (auto *s = activeStack()) { s->gradAt(index()) = g; } }
   double get_gradient() const { auto *s = activeStack(); return s ? s->gradAt(index()) : 0.0; }
   void get_gradient(double &g) const { g = get_gradient(); }

   adouble &operator+=(const adouble &o) { return *this = *this + o; }
   adouble &operator-=(const adouble &o) { return *this = *this - o; }
   adouble &operator*=(const adouble &o) { return *this = *this * o; }
   adouble &operator/=(const adouble &o) { return *this = *this / o; }

   friend adouble operator+(const adouble &a, const adouble &b) { return bin(a.v + b.v, a, 1.0, b, 1.0); }
   friend adouble operator-(const adouble &a, const adouble &b) { return bin(a.v - b.v, a, 1.0, b, -1.0); }
   friend adouble operator*(const adouble &a, const adouble &b) { return bin(a.v * b.v, a, b.v, b, a.v); }
   friend adouble operator/(const adouble &a, const adouble &b)
   {
      return bin(a.v / b.v, a, 1.0 / b.v, b, -a.v / (b.v * b.v));
   }
   friend adouble operator-(const adouble &a) { return un(-a.v, a, -1.0); }
   friend adouble operator+(const adouble &a) { return un(a.v, a, 1.0); }

   friend bool operator<(const adouble &a, const adouble &b) { return a.v < b.v; }
   friend bool operator>(const adouble &a, const adouble &b) { return a.v > b.v; }
   friend bool operator<=(const adouble &a, const adouble &b) { return a.v <= b.v; }
   friend bool operator>=(const adouble &a, const adouble &b) { return a.v >= b.v; }
   friend bool operator==(const adouble &a, const adouble &b) { return a.v == b.v; }
   friend bool operator!=(const adouble &a, const adouble &b) { return a.v != b.v; }

   static adouble un(double val, const adouble &a, double da)
   {
      adouble r(val);
      auto *s = activeStack();
      if (s != nullptr && s->isRecording())
      {
         s->record(r.index(), {{a.index(), da}});
      }
      return r;
   }
   static adouble bin(double val, const adouble &a, double da, const adouble &b, double db)
   {
      adouble r(val);
      auto *s = activeStack();
      if (s != nullptr && s->isRecording())
      {
         s->record(r.index(), {{a.index(), da}, {b.index(), db}});
      }
      return r;
   }

   std::size_t index() const
   {
      auto *s = activeStack();
      if (s != nullptr && gen != s->generation)
      {
         idx = s->newSlot();
         gen = s->generation;
      }
      return idx;
   }

private:
   void fresh()
   {
      auto *s = activeStack();
      if (s != nullptr)
      {
         idx = s->newSlot();
         gen = s->generation;
      }
   }
   void copyFrom(const adouble &o)
   {
      auto *s = activeStack();
      if (s == nullptr)
      {
         return;
      }
      const std::size_t src = o.index();
      fresh();
      if (s->isRecording())
      {
         s->record(idx, {{src, 1.0}});
      }
   }

   double v;
   mutable std::size_t idx = 0;
   mutable unsigned long gen = 0;
};

using aReal = adouble;

inline void Stack::independent(const adouble &a) { indep.push_back(a.index()); }
inline void Stack::independent(const adouble *a, std::size_t n)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      independent(a[i]);
   }
}
inline void Stack::dependent(const adouble &a) { dep.push_back(a.index()); }
inline void Stack::dependent(const adouble *a, std::size_t n)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      dependent(a[i]);
   }
}

inline void set_values(adouble *a, std::size_t n, const double *x)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      a[i].set_value(x[i]);
   }
}
inline void set_gradients(adouble *a, std::size_t n, const double *g)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      a[i].set_gradient(g[i]);
   }
}
inline void get_gradients(const adouble *a, std::size_t n, double *g)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      g[i] = a[i].get_gradient();
   }
}
inline void get_values(const adouble *a, std::size_t n, double *x)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      x[i] = a[i].value();
   }
}
inline double value(const adouble &a) { return a.value(); }

#define VERIF_ADEPT_UN(name, val, der)                  \
   inline adouble name(const adouble &a)                \
   {                                                    \
      const double x = a.value();                       \
      (void)x;                                          \
      return adouble::un((val), a, (der));              \
   }
VERIF_ADEPT_UN(sqrt, std::sqrt(x), 0.5 / std::sqrt(x))
VERIF_ADEPT_UN(exp, std::exp(x), std::exp(x))
VERIF_ADEPT_UN(log, std::log(x), 1.0 / x)
VERIF_ADEPT_UN(log10, std::log10(x), 1.0 / (x * std::log(10.0)))
VERIF_ADEPT_UN(sin, std::sin(x), std::cos(x))
VERIF_ADEPT_UN(cos, std::cos(x), -std::sin(x))
VERIF_ADEPT_UN(tan, std::tan(x), 1.0 / (std::cos(x) * std::cos(x)))
VERIF_ADEPT_UN(asin, std::asin(x), 1.0 / std::sqrt(1.0 - x * x))
VERIF_ADEPT_UN(acos, std::acos(x), -1.0 / std::sqrt(1.0 - x * x))
VERIF_ADEPT_UN(atan, std::atan(x), 1.0 / (1.0 + x * x))
VERIF_ADEPT_UN(sinh, std::sinh(x), std::cosh(x))
VERIF_ADEPT_UN(cosh, std::cosh(x), std::sinh(x))
VERIF_ADEPT_UN(tanh, std::tanh(x), 1.0 - std::tanh(x) * std::tanh(x))
VERIF_ADEPT_UN(abs, std::fabs(x), (x < 0.0 ? -1.0 : 1.0))
VERIF_ADEPT_UN(fabs, std::fabs(x), (x < 0.0 ? -1.0 : 1.0))
#undef VERIF_ADEPT_UN

inline adouble round(const adouble &x) { return adouble(std::round(x.value())); }
inline adouble atan2(const adouble &y, const adouble &x)
{
   const double r2 = x.value() * x.value() + y.value() * y.value();
   return adouble::bin(std::atan2(y.value(), x.value()), y, x.value() / r2, x, -y.value() / r2);
}
inline adouble pow(const adouble &a, const adouble &b)
{
   const double p = std::pow(a.value(), b.value());
   return adouble::bin(p, a, b.value() * std::pow(a.value(), b.value() - 1.0),
                       b, a.value() > 0.0 ? p * std::log(a.value()) : 0.0);
}
inline adouble pow(const adouble &a, double b)
{
   return adouble::un(std::pow(a.value(), b), a, b * std::pow(a.value(), b - 1.0));
}
inline adouble pow(const adouble &a, int b) { return pow(a, static_cast<double>(b)); }
inline adouble pow(double a, const adouble &b)
{
   const double p = std::pow(a, b.value());
   return adouble::un(p, b, p * std::log(a));
}
inline adouble max(const adouble &a, const adouble &b) { return a.value() < b.value() ? b : a; }
inline adouble min(const adouble &a, const adouble &b) { return b.value() < a.value() ? b : a; }
inline adouble fmax(const adouble &a, const adouble &b) { return max(a, b); }
inline adouble fmin(const adouble &a, const adouble &b) { return min(a, b); }
inline bool isfinite(const adouble &a) { return std::isfinite(a.value()); }
inline bool isnan(const adouble &a) { return std::isnan(a.value()); }
inline std::ostream &operator<<(std::ostream &os, const adouble &a) { return os << a.value(); }
}  // namespace adept

#endif
