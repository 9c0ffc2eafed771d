// A minimal stand-in for the Adept automatic-differentiation library
// (reverse-mode tape, operator overloading), written for /verif: Adept itself
// is not available offline.  It implements the part of the public Adept API
// that MISO uses, with Adept's documented meaning:
//   adouble, Stack::{new_recording, independent, dependent, jacobian,
//   jacobian_forward, jacobian_reverse, compute_adjoint, reverse,
//   compute_tangent_linear, forward}, set_values, set_gradients,
//   get_gradients, max/min, and the usual math functions.
// Jacobians are stored column-major (dependent index varies fastest).
// It is part of the trusted base of the checks (see DESIGN.md) and has a
// self test (tests of the shim live in harness/selftest.cpp).
#ifndef VERIF_SHIM_ADEPT_H
#define VERIF_SHIM_ADEPT_H

#include <cmath>
#include <cstddef>
#include <iostream>
#include <stdexcept>
#include <vector>

namespace adept
{
typedef double Real;
class adouble;

class autodiff_exception : public std::runtime_error
{
public:
   using std::runtime_error::runtime_error;
};
class stack_already_active : public autodiff_exception
{
public:
   stack_already_active()
    : autodiff_exception("adept shim: a stack is already active")
   { }
};
class dependents_or_independents_not_identified : public autodiff_exception
{
public:
   dependents_or_independents_not_identified()
    : autodiff_exception("adept shim: (in)dependents not identified")
   { }
};
class gradients_not_initialized : public autodiff_exception
{
public:
   gradients_not_initialized()
    : autodiff_exception("adept shim: gradients not initialized")
   { }
};

namespace internal
{
struct Registry
{
   std::vector<int> free_list;
   int next = 0;
   int get()
   {
      if (!free_list.empty())
      {
         int i = free_list.back();
         free_list.pop_back();
         return i;
      }
      return next++;
   }
   void put(int i) { free_list.push_back(i); }
};
inline Registry &registry()
{
   // never destroyed: adoubles with static storage may outlive it otherwise
   static thread_local Registry *r = new Registry;
   return *r;
}
}  // namespace internal

class Stack;
inline Stack *&active_stack_ref()
{
   static thread_local Stack *s = nullptr;
   return s;
}
inline Stack *active_stack() { return active_stack_ref(); }

class Stack
{
public:
   explicit Stack(bool activate_immediately = true)
   {
      if (activate_immediately)
      {
         activate();
      }
   }
   ~Stack() { deactivate(); }
   Stack(const Stack &) = delete;
   Stack &operator=(const Stack &) = delete;

   void activate()
   {
      if (active_stack_ref() != nullptr && active_stack_ref() != this)
      {
         throw stack_already_active();
      }
      active_stack_ref() = this;
   }
   void deactivate()
   {
      if (active_stack_ref() == this)
      {
         active_stack_ref() = nullptr;
      }
   }
   bool is_active() const { return active_stack_ref() == this; }

   void new_recording()
   {
      stmts_.clear();
      ops_.clear();
      indep_.clear();
      dep_.clear();
      clear_gradients();
   }
   void clear_gradients()
   {
      grad_.clear();
      gradients_initialized_ = false;
   }
   void clear_independents() { indep_.clear(); }
   void clear_dependents() { dep_.clear(); }
   bool pause_recording()
   {
      recording_ = false;
      return true;
   }
   bool continue_recording()
   {
      recording_ = true;
      return true;
   }
   bool is_recording() const { return recording_; }

   inline void independent(const adouble &x);
   inline void independent(const adouble *x, std::size_t n);
   inline void dependent(const adouble &x);
   inline void dependent(const adouble *x, std::size_t n);
   void independent(const std::vector<adouble> &x);
   void dependent(const std::vector<adouble> &x);
   std::size_t n_independent() const { return indep_.size(); }
   std::size_t n_dependent() const { return dep_.size(); }
   std::size_t n_statements() const { return stmts_.size(); }

   void jacobian(double *jac)
   {
      if (indep_.size() <= dep_.size())
      {
         jacobian_forward(jac);
      }
      else
      {
         jacobian_reverse(jac);
      }
   }
   void jacobian_forward(double *jac)
   {
      check_jac();
      const std::size_t nd = dep_.size();
      std::vector<double> g;
      for (std::size_t j = 0; j < indep_.size(); ++j)
      {
         g.assign(n_gradients(), 0.0);
         g[indep_[j]] = 1.0;
         run_forward(g);
         for (std::size_t i = 0; i < nd; ++i)
         {
            jac[j * nd + i] = g[dep_[i]];
         }
      }
   }
   void jacobian_reverse(double *jac)
   {
      check_jac();
      const std::size_t nd = dep_.size();
      std::vector<double> g;
      for (std::size_t i = 0; i < nd; ++i)
      {
         g.assign(n_gradients(), 0.0);
         g[dep_[i]] = 1.0;
         run_reverse(g);
         for (std::size_t j = 0; j < indep_.size(); ++j)
         {
            jac[j * nd + i] = g[indep_[j]];
         }
      }
   }
   void compute_adjoint()
   {
      if (!gradients_initialized_)
      {
         throw gradients_not_initialized();
      }
      grad_.resize(n_gradients(), 0.0);
      run_reverse(grad_);
   }
   void reverse() { compute_adjoint(); }
   void compute_tangent_linear()
   {
      if (!gradients_initialized_)
      {
         throw gradients_not_initialized();
      }
      grad_.resize(n_gradients(), 0.0);
      run_forward(grad_);
   }
   void forward() { compute_tangent_linear(); }

   // --- used by adouble ---
   void begin_stmt(int lhs)
   {
      if (recording_)
      {
         stmts_.push_back({lhs, ops_.size()});
      }
   }
   void add_op(double mult, int idx)
   {
      if (recording_)
      {
         ops_.push_back({mult, idx});
      }
   }
   void set_grad(int idx, double g)
   {
      if (grad_.size() < n_gradients())
      {
         grad_.resize(n_gradients(), 0.0);
      }
      grad_[idx] = g;
      gradients_initialized_ = true;
   }
   double get_grad(int idx) const
   {
      if (!gradients_initialized_)
      {
         throw gradients_not_initialized();
      }
      return static_cast<std::size_t>(idx) < grad_.size() ? grad_[idx] : 0.0;
   }

private:
   struct Stmt
   {
      int lhs;
      std::size_t first_op;
   };
   struct Op
   {
      double mult;
      int idx;
   };
   std::vector<Stmt> stmts_;
   std::vector<Op> ops_;
   std::vector<int> indep_, dep_;
   std::vector<double> grad_;
   bool recording_ = true;
   bool gradients_initialized_ = false;

   static std::size_t n_gradients()
   {
      return static_cast<std::size_t>(internal::registry().next);
   }
   void check_jac() const
   {
      if (indep_.empty() || dep_.empty())
      {
         throw dependents_or_independents_not_identified();
      }
   }
   std::size_t last_op(std::size_t s) const
   {
      return s + 1 < stmts_.size() ? stmts_[s + 1].first_op : ops_.size();
   }
   void run_forward(std::vector<double> &g) const
   {
      for (std::size_t s = 0; s < stmts_.size(); ++s)
      {
         double a = 0.0;
         for (std::size_t o = stmts_[s].first_op, e = last_op(s); o < e; ++o)
         {
            a += ops_[o].mult * g[ops_[o].idx];
         }
         g[stmts_[s].lhs] = a;
      }
   }
   void run_reverse(std::vector<double> &g) const
   {
      for (std::size_t s = stmts_.size(); s-- > 0;)
      {
         double a = g[stmts_[s].lhs];
         g[stmts_[s].lhs] = 0.0;
         if (a != 0.0)
         {
            for (std::size_t o = stmts_[s].first_op, e = last_op(s); o < e; ++o)
            {
               g[ops_[o].idx] += ops_[o].mult * a;
            }
         }
      }
   }
};

class adouble
{
public:
   adouble() : val_(0.0), idx_(internal::registry().get()) { rec0(); }
   adouble(double v) : val_(v), idx_(internal::registry().get()) { rec0(); }
   adouble(const adouble &o) : val_(o.val_), idx_(internal::registry().get())
   {
      rec1(1.0, o.idx_);
   }
   ~adouble() { internal::registry().put(idx_); }
   // result constructors
   struct Unary { };
   adouble(Unary, double v, double d, const adouble &a)
    : val_(v), idx_(internal::registry().get())
   {
      rec1(d, a.idx_);
   }
   adouble(Unary, double v, double da, const adouble &a, double db, const adouble &b)
    : val_(v), idx_(internal::registry().get())
   {
      rec2(da, a.idx_, db, b.idx_);
   }

   adouble &operator=(const adouble &o)
   {
      val_ = o.val_;
      if (&o != this)
      {
         rec1(1.0, o.idx_);
      }
      return *this;
   }
   adouble &operator=(double v)
   {
      val_ = v;
      rec0();
      return *this;
   }
   inline adouble &operator+=(const adouble &b);
   inline adouble &operator-=(const adouble &b);
   inline adouble &operator*=(const adouble &b);
   inline adouble &operator/=(const adouble &b);

   double value() const { return val_; }
   void set_value(double v) { val_ = v; }
   int gradient_index() const { return idx_; }
   void set_gradient(double g) const
   {
      if (active_stack())
      {
         active_stack()->set_grad(idx_, g);
      }
   }
   double get_gradient() const
   {
      return active_stack() ? active_stack()->get_grad(idx_) : 0.0;
   }
   void get_gradient(double &g) const { g = get_gradient(); }

private:
   double val_;
   int idx_;
   void rec0()
   {
      if (Stack *s = active_stack())
      {
         s->begin_stmt(idx_);
      }
   }
   void rec1(double d, int i)
   {
      if (Stack *s = active_stack())
      {
         s->begin_stmt(idx_);
         s->add_op(d, i);
      }
   }
   void rec2(double da, int ia, double db, int ib)
   {
      if (Stack *s = active_stack())
      {
         s->begin_stmt(idx_);
         s->add_op(da, ia);
         s->add_op(db, ib);
      }
   }
};

inline double value(const adouble &a) { return a.value(); }
inline double value(double a) { return a; }

inline void Stack::independent(const adouble &x)
{
   indep_.push_back(x.gradient_index());
}
inline void Stack::independent(const adouble *x, std::size_t n)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      independent(x[i]);
   }
}
inline void Stack::dependent(const adouble &x)
{
   dep_.push_back(x.gradient_index());
}
inline void Stack::dependent(const adouble *x, std::size_t n)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      dependent(x[i]);
   }
}
inline void Stack::independent(const std::vector<adouble> &x)
{
   independent(x.data(), x.size());
}
inline void Stack::dependent(const std::vector<adouble> &x)
{
   dependent(x.data(), x.size());
}

// ---- arithmetic ----
inline adouble operator+(const adouble &a) { return a; }
inline adouble operator-(const adouble &a)
{
   return adouble(adouble::Unary(), -a.value(), -1.0, a);
}
inline adouble operator+(const adouble &a, const adouble &b)
{
   return adouble(adouble::Unary(), a.value() + b.value(), 1.0, a, 1.0, b);
}
inline adouble operator+(const adouble &a, double b)
{
   return adouble(adouble::Unary(), a.value() + b, 1.0, a);
}
inline adouble operator+(double a, const adouble &b)
{
   return adouble(adouble::Unary(), a + b.value(), 1.0, b);
}
inline adouble operator-(const adouble &a, const adouble &b)
{
   return adouble(adouble::Unary(), a.value() - b.value(), 1.0, a, -1.0, b);
}
inline adouble operator-(const adouble &a, double b)
{
   return adouble(adouble::Unary(), a.value() - b, 1.0, a);
}
inline adouble operator-(double a, const adouble &b)
{
   return adouble(adouble::Unary(), a - b.value(), -1.0, b);
}
inline adouble operator*(const adouble &a, const adouble &b)
{
   return adouble(
       adouble::Unary(), a.value() * b.value(), b.value(), a, a.value(), b);
}
inline adouble operator*(const adouble &a, double b)
{
   return adouble(adouble::Unary(), a.value() * b, b, a);
}
inline adouble operator*(double a, const adouble &b)
{
   return adouble(adouble::Unary(), a * b.value(), a, b);
}
inline adouble operator/(const adouble &a, const adouble &b)
{
   const double ib = 1.0 / b.value();
   const double q = a.value() / b.value();
   return adouble(adouble::Unary(), q, ib, a, -q * ib, b);
}
inline adouble operator/(const adouble &a, double b)
{
   return adouble(adouble::Unary(), a.value() / b, 1.0 / b, a);
}
inline adouble operator/(double a, const adouble &b)
{
   const double q = a / b.value();
   return adouble(adouble::Unary(), q, -q / b.value(), b);
}
inline adouble &adouble::operator+=(const adouble &b) { return *this = *this + b; }
inline adouble &adouble::operator-=(const adouble &b) { return *this = *this - b; }
inline adouble &adouble::operator*=(const adouble &b) { return *this = *this * b; }
inline adouble &adouble::operator/=(const adouble &b) { return *this = *this / b; }

#define VERIF_ADEPT_CMP(op)                                              \
   inline bool operator op(const adouble &a, const adouble &b)           \
   { return a.value() op b.value(); }                                    \
   inline bool operator op(const adouble &a, double b)                   \
   { return a.value() op b; }                                            \
   inline bool operator op(double a, const adouble &b)                   \
   { return a op b.value(); }
VERIF_ADEPT_CMP(<)
VERIF_ADEPT_CMP(>)
VERIF_ADEPT_CMP(<=)
VERIF_ADEPT_CMP(>=)
VERIF_ADEPT_CMP(==)
VERIF_ADEPT_CMP(!=)
#undef VERIF_ADEPT_CMP

// ---- functions ----
#define VERIF_ADEPT_FUN(name, deriv)                                     \
   inline adouble name(const adouble &a)                                 \
   {                                                                     \
      const double x = a.value();                                        \
      const double y = std::name(x);                                     \
      (void)y;                                                           \
      return adouble(adouble::Unary(), y, (deriv), a);                   \
   }
VERIF_ADEPT_FUN(sqrt, 0.5 / y)
VERIF_ADEPT_FUN(exp, y)
VERIF_ADEPT_FUN(log, 1.0 / x)
VERIF_ADEPT_FUN(log10, 1.0 / (x * std::log(10.0)))
VERIF_ADEPT_FUN(sin, std::cos(x))
VERIF_ADEPT_FUN(cos, -std::sin(x))
VERIF_ADEPT_FUN(tan, 1.0 + y * y)
VERIF_ADEPT_FUN(asin, 1.0 / std::sqrt(1.0 - x * x))
VERIF_ADEPT_FUN(acos, -1.0 / std::sqrt(1.0 - x * x))
VERIF_ADEPT_FUN(atan, 1.0 / (1.0 + x * x))
VERIF_ADEPT_FUN(sinh, std::cosh(x))
VERIF_ADEPT_FUN(cosh, std::sinh(x))
VERIF_ADEPT_FUN(tanh, 1.0 - y * y)
VERIF_ADEPT_FUN(cbrt, 1.0 / (3.0 * y * y))
VERIF_ADEPT_FUN(floor, 0.0)
VERIF_ADEPT_FUN(ceil, 0.0)
#undef VERIF_ADEPT_FUN
inline adouble fabs(const adouble &a)
{
   const double x = a.value();
   return adouble(adouble::Unary(), std::fabs(x),
                  x > 0.0 ? 1.0 : (x < 0.0 ? -1.0 : 0.0), a);
}
inline adouble abs(const adouble &a) { return fabs(a); }
/// piecewise constant: derivative zero almost everywhere
inline adouble round(const adouble &a) { return adouble(std::round(a.value())); }
inline adouble pow(const adouble &a, double p)
{
   const double x = a.value();
   return adouble(adouble::Unary(), std::pow(x, p),
                  p == 0.0 ? 0.0 : p * std::pow(x, p - 1.0), a);
}
inline adouble pow(const adouble &a, int p)
{
   return pow(a, static_cast<double>(p));
}
inline adouble pow(double b, const adouble &p)
{
   const double y = std::pow(b, p.value());
   return adouble(adouble::Unary(), y, y * std::log(b), p);
}
inline adouble pow(const adouble &a, const adouble &p)
{
   const double x = a.value(), q = p.value();
   const double y = std::pow(x, q);
   return adouble(adouble::Unary(), y, q * std::pow(x, q - 1.0), a,
                  y * std::log(x), p);
}
inline adouble atan2(const adouble &y, const adouble &x)
{
   const double d = x.value() * x.value() + y.value() * y.value();
   return adouble(adouble::Unary(), std::atan2(y.value(), x.value()),
                  x.value() / d, y, -y.value() / d, x);
}
inline adouble max(const adouble &a, const adouble &b) { return a.value() < b.value() ? b : a; }
inline adouble max(const adouble &a, double b) { return a.value() < b ? adouble(b) : a; }
inline adouble max(double a, const adouble &b) { return a < b.value() ? b : adouble(a); }
inline adouble min(const adouble &a, const adouble &b) { return b.value() < a.value() ? b : a; }
inline adouble min(const adouble &a, double b) { return b < a.value() ? adouble(b) : a; }
inline adouble min(double a, const adouble &b) { return b.value() < a ? b : adouble(a); }
inline adouble fmax(const adouble &a, const adouble &b) { return max(a, b); }
inline adouble fmin(const adouble &a, const adouble &b) { return min(a, b); }
inline bool isfinite(const adouble &a) { return std::isfinite(a.value()); }
inline bool isnan(const adouble &a) { return std::isnan(a.value()); }
inline bool isinf(const adouble &a) { return std::isinf(a.value()); }

inline std::ostream &operator<<(std::ostream &os, const adouble &a)
{
   return os << a.value();
}

// ---- array helpers ----
inline void set_values(adouble *a, std::size_t n, const double *v)
{
   // assigned as fresh (independent) values, as in Adept
   for (std::size_t i = 0; i < n; ++i)
   {
      a[i].set_value(v[i]);
   }
}
inline void get_values(const adouble *a, std::size_t n, double *v)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      v[i] = a[i].value();
   }
}
inline void set_gradients(const adouble *a, std::size_t n, const double *g)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      a[i].set_gradient(g[i]);
   }
}
inline void get_gradients(const adouble *a, std::size_t n, double *g)
{
   for (std::size_t i = 0; i < n; ++i)
   {
      g[i] = a[i].get_gradient();
   }
}
}  // namespace adept

#endif
