// C02: backtracking line search, judged on the trace of its evaluations.
#include "mfem.hpp"
#include "linesearch.hpp"
#include "vh.hpp"
using namespace vh;
typedef long double ld;

static ld quad_min(ld p0, ld d0, ld p, ld a) { return -d0 * a * a / (2 * (p - p0 - d0 * a)); }
/// minimiser of the cubic through phi(0), phi'(0), (a1,p1), (a2,p2); NaN if none
static ld cubic_min(ld p0, ld d0, ld p1, ld a1, ld p2, ld a2, ld *unstable)
{
   ld y1 = (p1 - p0 - d0 * a1) / (a1 * a1), y2 = (p2 - p0 - d0 * a2) / (a2 * a2);
   ld a = (y2 - y1) / (a2 - a1), b = y1 - a * a1;   // phi ~ a x^3 + b x^2 + d0 x + p0
   ld d = b * b - 3 * a * d0;
   // the textbook root formula loses eps*b/a to cancellation; not a defect
   *unstable = std::max(*unstable, 3e-15L * fabsl(b) / (3 * std::max(fabsl(a), 2e-16L)));
   if (d < 0) { return NAN; }
   // stable form of (-b + sqrt(d)) / (3a)
   return b >= 0 ? -d0 / (b + sqrtl(d)) : (-b + sqrtl(d)) / (3 * a);
}

static void trace(Case &c)
{
   auto &g = c.rng;
   miso::BacktrackingLineSearch ls;
   if (g.coin(0.8))
   {
      ls.mu = g.coin() ? 1e-4 : g.logu(1e-6, 0.45);
      ls.rho_hi = g.uni(0.35, 0.95);
      ls.rho_lo = g.uni(0.02, 0.3);
      ls.interp_order = g.irand(2, 3);
      ls.max_iter = g.coin(0.2) ? g.irand(0, 2) : g.irand(3, 25);
   }
   c.in("mu", ls.mu); c.in("hi", ls.rho_hi); c.in("lo", ls.rho_lo);
   c.in("order", ls.interp_order); c.in("maxit", ls.max_iter);
   double alpha = c.in("alpha", g.coin(0.4) ? 1.0 : g.logu(1e-3, 1e3));
   double sc = c.in("scale", g.coin(0.5) ? 1.0 : g.logu(1e-8, 1e8));
   int kind = c.in("phi", g.irand(0, 9));
   double k1 = g.logu(1e-2, 1e3), k2 = g.uni(-3, 3), k3 = g.uni(0.01, 1.0) * alpha, k4 = g.uni(0.2, 40.);
   c.in("k1", k1); c.in("k2", k2); c.in("k3", k3); c.in("k4", k4);
   double d0 = -g.logu(1e-2, 10.0);
   c.in("d0", d0);
   std::function<double(double)> f;
   double base = g.uni(0, 2);
   switch (kind)
   {
   case 0: case 1: f = [=](double a) { return d0 * a + k1 * a * a; }; break;
   case 2: f = [=](double a) { return d0 * a + k1 * a * a + k2 * a * a * a; }; break;
   case 3: f = [=](double a) { return d0 * a + k1 * a * a * a * a; }; break;
   case 4: f = [=](double a) { return d0 * a + k1 * (std::exp(std::min(a * k4 / alpha, 600.)) - 1 - a * k4 / alpha); }; break;
   case 5: f = [=](double a) { return d0 * a + k1 * (1 - std::cos(k4 * a / alpha)); }; break;
   case 6: f = [=](double a) { return std::fabs(d0) * a + k1 * a * a; }; break;   // not a descent direction
   case 7: f = [=](double a) { return a > k3 ? INFINITY : d0 * a + k1 * a * a * 1e-2; }; break;
   case 8: f = [=](double a) { return a > k3 ? NAN : d0 * a + k1 * a * a * 1e-2; }; break;
   default: f = [=](double a) { return a > k3 ? 1e300 : d0 * a + (a > 0.3 * k3 ? 0.01 * k1 : 0.0); }; break;
   }
   const double phi0 = sc * base, dphi0 = sc * d0;
   std::vector<double> al, ph;
   auto phi = [&](double a) { double v = sc * (base + f(a)); al.push_back(a); ph.push_back(v);
                              if (al.size() > 2000) { throw std::runtime_error("more than 2000 evaluations"); } return v; };
   double r = ls.search(phi, phi0, dphi0, alpha);
   c.count("evaluations-of-phi", al.size());
   if (al.empty()) { c.check(false, "evaluates-phi"); return; }
   auto armijo = [&](size_t i) { return ph[i] <= phi0 + ls.mu * al[i] * dphi0; };
   auto armijo_clear = [&](size_t i)   // satisfied beyond rounding
   { double t = phi0 + ls.mu * al[i] * dphi0; return ph[i] < t - 1e-12 * (fabs(t) + fabs(phi0)); };
   auto armijo_ok = [&](size_t i)
   { double t = phi0 + ls.mu * al[i] * dphi0; return ph[i] <= t + 1e-12 * (fabs(t) + fabs(phi0)); };
   c.check(al[0] == alpha, "first-trial-is-the-given-step");
   c.check(std::isfinite(r) && r >= 0 && r <= alpha, "result-in-range", "returned " + std::to_string(r));
   size_t n = al.size();
   c.check(n <= size_t(ls.max_iter) + 1, "iteration-limit", std::to_string(n) + " evaluations");
   for (size_t i = 1; i < n; ++i)
   {
      c.check(al[i] >= al[i - 1] * ls.rho_lo * (1 - 1e-12) && al[i] <= al[i - 1] * ls.rho_hi * (1 + 1e-12),
              "trial-within-reduction-bounds", std::to_string(al[i]) + " after " + std::to_string(al[i - 1]));
   }
   for (size_t i = 0; i + 1 < n; ++i)
   { c.check(!armijo_clear(i), "stops-at-first-acceptable-step", "trial " + std::to_string(i)); }
   if (r == 0.0)
   {
      c.count("failed-searches");
      c.check(n == size_t(ls.max_iter) + 1 && !armijo_clear(n - 1), "zero-only-after-exhausting-the-limit");
   }
   else
   {
      c.count(n > 1 ? "backtracked" : "accepted-at-once");
      c.check(r == al[n - 1], "last-evaluation-is-at-the-result");
      c.check(armijo_ok(n - 1), "sufficient-decrease", "phi " + std::to_string(ph[n - 1]) + " phi0 " + std::to_string(phi0));
   }
   // each trial is the (clamped) minimiser of the interpolating polynomial
   for (size_t i = 1; i < n; ++i)
   {
      auto ok = [](double v) { return std::fabs(v) < 1e100; };   // squares must not overflow
      bool fin = ok(ph[i - 1]) && (i < 2 || ok(ph[i - 2]));
      if (!fin) { c.count("nonfinite-phi"); continue; }
      ld lo = 1e300, hi = -1e300, mid = 0;
      ld unst = 0; bool bad = false;
      vh::Rng pr(17 + i);
      for (int k = 0; k < 12; ++k)
      {
         auto e = [&](double v) { return k ? ld(v) * (1 + ld(pr.uni(-1, 1)) * 4e-15L) : ld(v); };
         ld p0 = e(phi0), dd = e(dphi0), p2 = e(ph[i - 1]), a2 = al[i - 1], m;
         if (i == 1 || ls.interp_order == 2) { m = quad_min(p0, dd, p2, a2); }
         else { m = cubic_min(p0, dd, e(ph[i - 2]), al[i - 2], p2, a2, &unst); }
         if (!(m == m)) { bad = true; break; }
         m = std::max(std::min(m, a2 * ls.rho_hi), a2 * ls.rho_lo);
         if (!k) { mid = m; }
         lo = std::min(lo, m); hi = std::max(hi, m);
      }
      if (bad || hi - lo > 1e-3L * mid || unst > 1e-3L * mid) { c.count("interpolant-without-reliable-minimiser"); continue; }
      c.count(i == 1 || ls.interp_order == 2 ? "quadratic-interpolations" : "cubic-interpolations");
      c.near(al[i], mid, 1e-7 * mid + 50 * (hi - lo) + unst,
             (i == 1 || ls.interp_order == 2) ? "trial-minimises-quadratic" : "trial-minimises-cubic",
             "trial " + std::to_string(i));
   }
}

/// a quadratic with dyadic data: the interpolating cubic degenerates exactly,
/// and its minimiser must still be found
static void dyadic(Case &c)
{
   auto &g = c.rng;
   miso::BacktrackingLineSearch ls;
   ls.interp_order = 3;
   ls.max_iter = 12;
   ls.rho_lo = c.in("lo", std::ldexp(1.0, -g.irand(2, 3)));
   ls.rho_hi = c.in("hi", 0.875);
   double alpha = c.in("alpha", std::ldexp(1.0, g.irand(-3, 3)));
   double d0 = -c.in("-d0", double(g.irand(1, 8)));
   double k = c.in("k", g.irand(1, 64) * 2.0 / alpha);
   std::vector<double> al;
   double r = ls.search([&](double a) { al.push_back(a); return d0 * a + k * a * a; }, 0.0, d0, alpha);
   double m = -d0 / (2 * k);
   for (size_t i = 1; i < al.size(); ++i)
   {
      double e = std::max(std::min(m, al[i - 1] * ls.rho_hi), al[i - 1] * ls.rho_lo);
      // the test of exactness needs the earlier trials to be dyadic too
      if (i > 2) { break; }
      c.near(al[i], e, 1e-12 * e, i == 1 ? "second-trial" : "third-trial");
      if (i == 2) { c.count("degenerate-cubics"); }
   }
   c.check(r > 0, "quadratic-search-succeeds");
}

/// the merit function: norm of the residual along the step, and its slope
struct Lin : mfem::Operator
{
   mfem::DenseMatrix J;
   Lin(int n) : Operator(n), J(n) { }
   void Mult(const mfem::Vector &x, mfem::Vector &y) const override { J.Mult(x, y); }
};

static void merit(Case &c)
{
   auto &g = c.rng;
   int n = c.in("n", g.irand(1, 8));
   mfem::DenseMatrix A(n), B(n); mfem::Vector b(n), x(n), dir(n);
   for (int i = 0; i < n; ++i)
   {
      b(i) = g.uni(-1, 1); x(i) = g.uni(-1, 1); dir(i) = g.uni(-1, 1);
      for (int j = 0; j < n; ++j) { A(i, j) = g.uni(-1, 1); B(i, j) = g.uni(-.5, .5); }
   }
   c.invec("x", x, n); c.invec("dir", dir, n);
   auto F = [&](const mfem::Vector &u, mfem::Vector &r)
   { for (int i = 0; i < n; ++i) { double s = -b(i); for (int j = 0; j < n; ++j) { s += A(i, j) * u(j) + B(i, j) * sin(u(j) * u(i)); } r(i) = s; } };
   Lin J(n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { J.J(i, j) = A(i, j); } }
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { double t = B(i, j) * cos(x(j) * x(i)); J.J(i, j) += t * x(i); J.J(i, i) += t * x(j); } }
   mfem::Vector r(n), r2(n), y(n);
   F(x, r);
   if (r.Norml2() < 0.05) { c.trivial = true; return; }
   auto norm_at = [&](double a) { y = x; y.Add(-a, dir); F(y, r2); return r2.Norml2(); };
   mfem::Vector work(r);
   miso::Phi phi(F, x, dir, work, J);
   c.rel(phi.phi0, r.Norml2(), 1e-13, 0, "value-at-zero");
   double h = 1e-4;
   double fd = (8 * (norm_at(h) - norm_at(-h)) - (norm_at(2 * h) - norm_at(-2 * h))) / (12 * h);
   c.rel(phi.dphi0, fd, 1e-7, 1e-7, "slope-at-zero");
   for (int k = 0; k < 4; ++k)
   {
      double a = g.uni(-0.5, 2);
      double v = phi(a);
      c.rel(v, norm_at(a), 1e-12, 1e-14, "value-along-step");
      double e = 0;
      for (int i = 0; i < n; ++i) { e = std::max(e, fabs(work(i) - r2(i))); }
      c.near(e, 0, 1e-12 * (1 + r2.Normlinf()), "residual-left-at-evaluated-point");
      c.count("merit-evaluations");
   }
}

int main(int argc, char **argv)
{
   init(argc, argv);
   run("trace", 6000, trace);
   run("dyadic", 400, dyadic);
   run("merit", 800, merit);
   return finish();
}
