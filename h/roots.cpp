// C03: scalar root finding and quadratic interpolation, judged on the recorded
// evaluations of the function.
#include "mfem.hpp"
#include "utils.hpp"
#include "vh.hpp"
using namespace vh;
typedef long double ld;

struct Quiet { std::streambuf *b; Quiet() : b(std::cerr.rdbuf(nullptr)) { } ~Quiet() { std::cerr.rdbuf(b); } };

static std::function<double(double)> fam(Case &c, double r, double w)
{
   auto &g = c.rng;
   int kind = c.in("f", g.irand(0, 6));
   double k = c.in("k", g.logu(1e-3, 1e3)) * (g.coin() ? 1 : -1), p = c.in("p", g.uni(0.1, 5)) / w;
   switch (kind)
   {
   case 0: return [=](double x) { return k * (x - r); };
   case 1: return [=](double x) { return k * (x - r) * (x - r) * (x - r); };
   case 2: return [=](double x) { return k * std::expm1(p * (x - r)); };
   case 3: return [=](double x) { return k * std::atan(40 * p * (x - r)); };
   case 4: return [=](double x) { return x < r ? -k : 2 * k; };
   case 5: return [=](double x) { return k * ((x - r) + 0.2 / p * std::sin(9 * p * (x - r))); };
   default: return [=](double x) { return k * std::sinh(3 * p * (x - r)); };
   }
}

static void bisect(Case &c)
{
   auto &g = c.rng;
   double w = c.in("w", g.logu(1e-4, 1e4)), xl = c.in("xl", g.uni(-2, 2) * w), xr = xl + w;
   int where = c.in("where", g.irand(0, 7));
   double r = where == 0 ? xl : where == 1 ? xr : where == 2 ? xl + 0.5 * w : where == 3 ? xl - 0.3 * w : g.uni(xl, xr);
   c.in("root", r);
   auto f0 = fam(c, r, w);
   double ftol = c.in("ftol", g.coin(0.3) ? 0.0 : g.logu(1e-14, 1e-1)), xtol = c.in("xtol", g.coin(0.3) ? 1e-300 : w * g.logu(1e-13, 0.3));
   int maxit = c.in("maxit", g.coin(0.3) ? g.irand(1, 20) : g.irand(60, 200));
   bool swap = c.in("swap", g.coin(0.2));
   std::vector<std::pair<double, double>> ev;
   auto f = [&](double x) { double v = f0(x); ev.push_back({x, v}); if (ev.size() > 5000) { throw std::runtime_error("more than 5000 evaluations"); } return v; };
   double fa = f0(xl), fb = f0(xr), x = 0;
   bool threw = false;
   try { Quiet q; x = swap ? miso::bisection(f, xr, xl, ftol, xtol, maxit) : miso::bisection(f, xl, xr, ftol, xtol, maxit); }
   catch (int) { threw = true; }
   catch (const miso::MISOException &) { threw = true; }
   c.count("function-evaluations", ev.size());
   for (auto &e : ev) { c.check(e.first >= xl && e.first <= xr, "stays-inside-bracket"); }
   c.check(ev.size() <= size_t(maxit) + 3, "iteration-limit", std::to_string(ev.size()));
   bool bracket = !((fa > 0 && fb > 0) || (fa < 0 && fb < 0));
   // enough iterations to reach xtol (and doubles to do it)?
   double xt = std::max(xtol, 4e-16 * std::max(fabs(xl), fabs(xr)));
   bool enough = std::log2(w / xt) + 2 < maxit && xtol > 4e-16 * std::max(fabs(xl), fabs(xr));
   if (!bracket) { c.check(threw, "refuses-without-sign-change"); c.count("no-sign-change"); return; }
   if (threw)
   {
      c.check(!enough && ev.size() >= size_t(maxit), "fails-only-at-the-limit");
      c.count("limit-reached");
      return;
   }
   double fx = f0(x);
   bool okf = fabs(fx) <= ftol;
   // a recorded sign change no wider than xtol around the result
   double lo = -1e300, hi = 1e300, flo = 0, fhi = 0;
   for (auto &e : ev)
   {
      if (e.first == x) { continue; }
      if (e.first < x && e.first > lo) { lo = e.first; flo = e.second; }
      if (e.first > x && e.first < hi) { hi = e.first; fhi = e.second; }
   }
   bool okx = lo > -1e300 && hi < 1e300 && (flo > 0) != (fhi > 0) && hi - lo <= xtol * (1 + 1e-12) + 1e-15 * std::max(fabs(xl), fabs(xr));
   c.check(okf || okx, "result-meets-a-tolerance", "x " + std::to_string(x) + " f " + std::to_string(fx));
   c.count(okf ? "met-ftol" : "met-xtol");
   c.count(where < 2 ? "root-at-an-end" : "root-inside");
}

static void secant(Case &c)
{
   auto &g = c.rng;
   double r = c.in("root", g.uni(-5, 5)), k = c.in("k", g.logu(0.1, 10) * (g.coin() ? 1 : -1));
   int kind = c.in("kind", g.irand(0, 3));
   double p = c.in("p", g.uni(-0.3, 0.3));
   // |f'| in k*[0.4,1.6] on |x-r|<=1: the secant iteration converges
   auto f0 = [=](double x)
   {
      double d = x - r;
      switch (kind)
      {
      case 0: return k * d;
      case 1: return k * (d + p * d * d);
      case 2: return k * (std::exp(p * d) - 1) / (fabs(p) > 1e-3 ? p : (p < 0 ? -1e-3 : 1e-3));
      default: return k * (d + 0.3 * p * std::sin(2 * d));
      }
   };
   double x1 = c.in("x1", r + g.uni(-0.9, 0.9)), x2 = c.in("x2", r + g.uni(-0.9, 0.9));
   if (fabs(x1 - x2) < 1e-3 || (kind == 2 && fabs(p) < 1e-3)) { c.trivial = true; return; }
   if (g.coin(0.1)) { x2 = r; }
   double ftol = c.in("ftol", g.logu(1e-13, 1e-3)), xtol = c.in("xtol", g.logu(1e-13, 1e-3));
   std::vector<std::pair<double, double>> ev;
   auto f = [&](double x) { double v = f0(x); ev.push_back({x, v}); return v; };
   double x = miso::secant(f, x1, x2, ftol, xtol, 100);
   c.count("function-evaluations", ev.size());
   c.check(ev.size() <= 30, "converges-superlinearly", std::to_string(ev.size()) + " evaluations");
   bool okf = fabs(f0(x)) <= ftol;
   double last = 1e300;
   for (size_t i = 0; i + 1 < ev.size(); ++i) { if (ev[i].first != x) { last = std::min(last, fabs(ev[i].first - x)); } }
   c.check(okf || last < xtol * (1 + 1e-9) + 1e-15 * fabs(x), "result-meets-a-tolerance");
   c.near(x, r, std::max(ftol / (0.3 * fabs(k)), 2 * xtol) + 1e-13, "near-the-root");
   // the two starting points are interchangeable
   double y = miso::secant(f0, x2, x1, ftol, xtol, 100);
   c.near(x, y, 2 * (std::max(ftol / (0.3 * fabs(k)), 2 * xtol) + 1e-13), "order-of-starting-points-irrelevant");
}

/// a search that cannot meet either tolerance within its limit must not
/// return as if it had
static void secant_limit(Case &c)
{
   int maxit = c.in("maxit", int(c.idx % 3) + 1);
   auto f = [](double x) { return std::exp(x) - 1000.; };
   double x = 0; bool threw = false;
   try { Quiet q; x = miso::secant(f, 0.1, 0.2, 1e-12, 1e-12, maxit); } catch (...) { threw = true; }
   c.check(threw || fabs(f(x)) <= 1e-12, "reports-exceeding-the-limit", "returned " + std::to_string(x));
}

static void quad(Case &c)
{
   auto &g = c.rng;
   double x0 = c.in("x0", g.uni(-3, 3)), x1 = c.in("x1", x0 + (g.coin() ? 1 : -1) * g.logu(1e-2, 10)), v = c.in("vertex", g.uni(-5, 5));
   double a = c.in("a", g.logu(1e-2, 1e2) * (g.coin() ? 1 : -1)), k = c.in("k", g.uni(-10, 10));
   auto y = [&](double x) { return a * (x - v) * (x - v) + k; };
   double y0 = y(x0), y1 = y(x1), d = 2 * a * (x0 - v);
   double got = miso::quadInterp(x0, y0, d, x1, y1);
   // sensitivity of the vertex to rounding of the data
   ld lo = v, hi = v;
   Rng pr(3);
   for (int i = 0; i < 20; ++i)
   {
      auto e = [&](double q) { return ld(q) * (1 + 1e-14L * pr.uni(-1, 1)); };
      ld X0 = e(x0), X1 = e(x1), D = e(d), h = X1 - X0;
      ld A = ((e(y1) - e(y0)) - D * h) / (h * h);
      ld m = X0 - D / (2 * A);
      lo = std::min(lo, m); hi = std::max(hi, m);
   }
   double amp = (x0 * x0 + x1 * x1 + 1) / ((x1 - x0) * (x1 - x0));
   double tol = 30 * (hi - lo) * (1 + amp) + 1e-11 * (1 + amp) * (1 + fabs(v));
   if (tol > 1e-2) { c.trivial = true; return; }
   c.near(got, v, tol, "vertex-of-the-parabola");
   c.count("parabolas");
}

int main(int argc, char **argv)
{
   init(argc, argv);
   run("bisection", 20000, bisect);
   run("secant", 20000, secant);
   enumerate("secant-limit", 3, secant_limit);
   run("quadratic", 20000, quad);
   return finish();
}
