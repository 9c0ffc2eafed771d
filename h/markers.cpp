// C04: attribute selection and elementwise vector helpers.
#include <set>
#include "mfem.hpp"
#include "utils.hpp"
#include "vh.hpp"
using namespace vh;

static void markers(Case &c)
{
   auto &g = c.rng;
   int n = c.in("n", g.irand(1, 40));
   int form = c.in("form", g.irand(0, 5));
   mfem::Array<int> m(n);
   for (int i = 0; i < n; ++i) { m[i] = g.irand(-5, 5); }   // stale content
   std::set<int> want;
   nlohmann::json j;
   bool bad = false;
   std::vector<int> v;
   if (form <= 2)
   {
      int k = g.irand(0, 2 * n);
      for (int i = 0; i < k; ++i) { v.push_back(g.irand(1, n)); want.insert(v.back()); }
      if (form == 2) { v.push_back(g.pick(std::vector<int>{0, -1, n + 1, n + 1000, -1000000, 2147483647})); std::swap(v.back(), v[g.irand(0, v.size() - 1)]); bad = true; }
      j = v; if (v.empty()) { j = nlohmann::json::array(); }
      c.invec("v", v, v.size());
   }
   else if (form == 3) { j = "all"; for (int i = 1; i <= n; ++i) { want.insert(i); } }
   else if (form == 4) { j = "none"; }
   else
   {
      bad = true;
      int k = g.irand(0, 4);
      if (k == 0) { j = "al"; } else if (k == 1) { j = 3; } else if (k == 2) { j = {{"a", 1}}; } else if (k == 3) { j = nullptr; } else { j = "ALL"; }
   }
   c.in("json", j.dump());
   bool direct = form <= 2 && g.coin();
   bool threw = false;
   try { if (direct) { miso::attrVecToArray(v, m); } else { miso::getMFEMBoundaryArray(j, m); } }
   catch (const std::exception &) { threw = true; }
   c.check(threw == bad, bad ? "invalid-selection-refused" : "valid-selection-accepted");
   c.check(m.Size() == n, "array-keeps-its-size");
   if (!bad)
   { for (int i = 1; i <= n; ++i) { c.check(m[i - 1] == int(want.count(i)), "marks-exactly-the-selected", "attribute " + std::to_string(i)); } }
   c.count(bad ? "invalid-selections" : "valid-selections");
}

static void elementwise(Case &c)
{
   auto &g = c.rng;
   int n = c.in("n", g.irand(0, 30));
   mfem::Vector a(n), b(n), y(n);
   for (int i = 0; i < n; ++i) { a(i) = g.uni(-3, 3); b(i) = (g.coin() ? 1 : -1) * g.uni(0.1, 3); y(i) = 99; }
   mfem::Vector a0(a), b0(b);
   c.invec("a", a, std::min(n, 4));
   int op = c.in("op", g.irand(0, 6));
   auto cmp = [&](const mfem::Vector &r, auto fn, const char *nm)
   { for (int i = 0; i < n; ++i) { double e = fn(a0(i), b0(i)); c.near(r(i), e, 4e-16 * fabs(e), nm); } };
   switch (op)
   {
   case 0: miso::multiplyElementwise(a, b, y); cmp(y, [](double p, double q) { return p * q; }, "product"); break;
   case 1: miso::multiplyElementwise(a, b, a); cmp(a, [](double p, double q) { return p * q; }, "product-in-place"); break;
   case 2: miso::multiplyElementwise(b, a); cmp(a, [](double p, double q) { return p * q; }, "scale-in-place"); break;
   case 3: miso::divideElementwise(a, b, y); cmp(y, [](double p, double q) { return p / q; }, "quotient"); break;
   case 4: miso::divideElementwise(a, b, b); cmp(b, [](double p, double q) { return p / q; }, "quotient-in-place"); break;
   case 5: miso::invertElementwise(b, y); cmp(y, [](double, double q) { return 1 / q; }, "reciprocal"); break;
   default: miso::invertElementwise(b, b); cmp(b, [](double, double q) { return 1 / q; }, "reciprocal-in-place"); break;
   }
   if (op != 1 && op != 2) { for (int i = 0; i < n; ++i) { c.check(a(i) == a0(i), "inputs-untouched"); } }
   if (op < 4) { for (int i = 0; i < n; ++i) { c.check(b(i) == b0(i), "inputs-untouched"); } }
   c.check(true, "ran");
}

template <int D> static void dots(Case &c)
{
   double a[D], b[D]; long double s = 0, m = 0;
   for (int i = 0; i < D; ++i) { a[i] = c.rng.uni(-5, 5); b[i] = c.rng.uni(-5, 5); s += (long double)a[i] * b[i]; m += fabs(a[i] * b[i]); }
   c.invec("a", a, D);
   c.near(miso::dot<double, D>(a, b), s, 1e-14 * m, "dot-product");
}

static void rbf(Case &c)
{
   auto &g = c.rng;
   int n = c.in("n", g.irand(1, 3));
   mfem::Vector x(n), y(n);
   double len = c.in("len", g.logu(0.1, 10));
   long double s = 0; double m = 0;
   for (int i = 0; i < n; ++i) { x(i) = g.uni(-2, 2); y(i) = g.coin(0.1) ? x(i) : g.uni(-2, 2); s += ((long double)x(i) - y(i)) * (x(i) - y(i)); m += x(i) * x(i) + y(i) * y(i); }
   c.invec("x", x, n); c.invec("xc", y, n);
   double e = expl(-s / (len * (long double)len));
   c.near(miso::squaredExponential(len, y, x), e, e * (1e-13 + 1e-14 * m / (len * len)), "gaussian-of-distance");
}

int main(int argc, char **argv)
{
   init(argc, argv);
   run("markers", 20000, markers);
   run("elementwise", 4000, elementwise);
   run("dot1", 200, dots<1>); run("dot2", 200, dots<2>); run("dot3", 200, dots<3>); run("dot5", 200, dots<5>);
   run("gaussian", 4000, rbf);
   return finish();
}
