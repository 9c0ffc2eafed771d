// C06: Lobatto quadrature, Jacobi polynomials and the orthonormal simplex bases.
#include "mfem.hpp"
#include "orthopoly.hpp"
#include "vh.hpp"
using namespace vh;
typedef long double ld;

static ld legendre(int n, ld x, ld *d = nullptr)
{
   ld p0 = 1, p1 = x;
   if (n == 0) { if (d) { *d = 0; } return 1; }
   for (int k = 1; k < n; ++k) { ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; }
   if (d) { *d = fabsl(x) == 1 ? (x > 0 ? 1 : (n % 2 ? 1 : -1)) * n * (n + 1) / 2.0L : n * (x * p1 - p0) / (x * x - 1); }
   return p1;
}

/// explicit finite sum for P_n^{(a,b)}(x), unnormalised
static ld jacobi(int n, ld a, ld b, ld x)
{
   ld s = 0;
   for (int k = 0; k <= n; ++k)
   {
      auto binom = [](ld z, int j) { ld r = 1; for (int i = 1; i <= j; ++i) { r *= (z - j + i) / i; } return r; };
      s += binom(n + a, n - k) * binom(n + b, k) * powl((x - 1) / 2, k) * powl((x + 1) / 2, n - k);
   }
   return s;
}
static ld jnorm2(int n, ld a, ld b)
{
   if (n == 0) { return powl(2, a + b + 1) * tgammal(a + 1) * tgammal(b + 1) / tgammal(a + b + 2); }
   return powl(2, a + b + 1) / (2 * n + a + b + 1) * expl(lgammal(n + a + 1) + lgammal(n + b + 1) - lgammal(n + a + b + 1) - lgammal(n + 1));
}

static void lobatto(Case &c)
{
   int n = c.in("nodes", 2 + int(c.idx));
   mfem::Vector x(n), w(n);
   x = 1e30; w = 1e30;
   miso::getLobattoQuadrature(n, x, w);
   c.check(x(0) == -1 && x(n - 1) == 1, "includes-both-ends");
   ld sum = 0;
   for (int i = 0; i < n; ++i)
   {
      if (i) { c.check(x(i) > x(i - 1), "nodes-increase"); }
      c.check(w(i) > 0, "weights-positive");
      c.near(x(i), -x(n - 1 - i), 1e-15, "nodes-symmetric");
      c.near(w(i), w(n - 1 - i), 1e-13, "weights-symmetric");
      sum += w(i);
      if (i && i < n - 1) { ld d; legendre(n - 1, x(i), &d); c.near(d, 0, 2e-15L * n * n * n * n / 8 + 1e-13, "interior-nodes-are-extrema-of-legendre"); }
   }
   c.near(sum, 2, 1e-13, "weights-sum-to-length");
   for (int k = 0; k <= 2 * n - 3; ++k)   // exactness through degree 2n-3
   {
      ld s = 0;
      for (int i = 0; i < n; ++i) { s += (ld)w(i) * legendre(k, x(i)); }
      c.near(s, k == 0 ? 2 : 0, 2e-13, "exact-through-2n-3", "degree " + std::to_string(k));
   }
   c.count("rules");
}

static void jac(Case &c)
{
   auto &g = c.rng;
   int deg = c.in("degree", g.irand(0, 12));
   bool in = g.coin();
   double a = c.in("alpha", in ? double(g.irand(0, 8)) : g.uni(-0.6, 5)), b = c.in("beta", g.coin() ? 0.0 : in ? double(g.irand(0, 8)) : g.uni(-0.6, 5));
   if (fabs(a + b + 1) < 1e-2) { c.trivial = true; return; }
   int n = g.irand(1, 9);
   mfem::Vector x(n), p(n);
   for (int i = 0; i < n; ++i) { x(i) = g.coin(0.1) ? 1 : g.coin(0.1) ? -1 : g.uni(-1, 1); }
   c.invec("x", x, n);
   p = 1e30;
   miso::jacobiPoly(x, a, b, deg, p);
   c.check(p.Size() == n, "size");
   ld nr = sqrtl(jnorm2(deg, a, b)), scale = std::max(fabsl(jacobi(deg, a, b, 1)), fabsl(jacobi(deg, a, b, -1))) / nr + 1;
   for (int i = 0; i < n; ++i)
   { c.near(p(i), jacobi(deg, a, b, x(i)) / nr, 2e-12 * scale, "equals-normalised-jacobi-polynomial", "x " + std::to_string(x(i))); }
   c.count("jacobi-values", n);
}

/// Gauss-Legendre on [-1,1]
static void gauss(int n, std::vector<ld> &x, std::vector<ld> &w)
{
   x.resize(n); w.resize(n);
   for (int i = 0; i < n; ++i)
   {
      ld t = -cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), d;
      for (int k = 0; k < 100; ++k) { ld p = legendre(n, t, &d); ld dt = p / d; t -= dt; if (fabsl(dt) < 1e-19L) { break; } }
      legendre(n, t, &d);
      x[i] = t; w[i] = 2 / ((1 - t * t) * d * d);
   }
}

template <int D> static void simplex(Case &c)
{
   int deg = c.in("degree", int(c.idx));
   int q = deg + 2 + D;
   std::vector<ld> gx, gw; gauss(q, gx, gw);
   int np = D == 1 ? q : D == 2 ? q * q : q * q * q;
   mfem::Vector X(np), Y(np), Z(np); std::vector<ld> W(np);
   for (int i = 0; i < np; ++i)
   {
      ld r = gx[i % q], s = D > 1 ? gx[(i / q) % q] : -1, t = D > 2 ? gx[i / q / q] : -1;
      ld w = gw[i % q] * (D > 1 ? gw[(i / q) % q] : 1) * (D > 2 ? gw[i / q / q] : 1);
      if (D == 1) { X(i) = r; W[i] = w; }
      if (D == 2) { Y(i) = s; X(i) = (1 + r) * (1 - s) / 2 - 1; W[i] = w * (1 - s) / 2; }
      if (D == 3) { Z(i) = t; ld y = (1 + s) * (1 - t) / 2 - 1; Y(i) = y; X(i) = (1 + r) * (-y - t) / 2 - 1; W[i] = w * (-y - t) / 2 * (1 - t) / 2; }
   }
   mfem::DenseMatrix V;
   if (D == 1) { miso::getVandermondeForSeg(X, deg, V); }
   if (D == 2) { miso::getVandermondeForTri(X, Y, deg, V); }
   if (D == 3) { miso::getVandermondeForTet(X, Y, Z, deg, V); }
   int N = D == 1 ? deg + 1 : D == 2 ? (deg + 1) * (deg + 2) / 2 : (deg + 1) * (deg + 2) * (deg + 3) / 6;
   c.check(V.Width() == N && V.Height() == np, "number-of-basis-functions");
   if (V.Width() != N) { return; }
   // orthonormal in L2 of the reference element
   for (int a = 0; a < N; ++a)
   {
      for (int b = 0; b <= a; ++b)
      {
         ld s = 0;
         for (int i = 0; i < np; ++i) { s += W[i] * (ld)V(i, a) * V(i, b); }
         c.near(s, a == b, 1e-11, "orthonormal", std::to_string(a) + "," + std::to_string(b));
      }
   }
   // spans every polynomial of that degree, and (hierarchically) every lower one
   for (int trial = 0; trial < 4; ++trial)
   {
      int d = trial < 2 ? deg : c.rng.irand(0, deg);
      double al[3], p0 = c.rng.uni(0.2, 1);
      for (double &v : al) { v = c.rng.uni(-0.4, 0.4); }
      auto f = [&](int i) { return powl(p0 + al[0] * X(i) + (D > 1 ? al[1] * Y(i) : 0) + (D > 2 ? al[2] * Z(i) : 0), d); };
      int Nd = D == 1 ? d + 1 : D == 2 ? (d + 1) * (d + 2) / 2 : (d + 1) * (d + 2) * (d + 3) / 6;
      std::vector<ld> co(N, 0);
      for (int a = 0; a < N; ++a) { for (int i = 0; i < np; ++i) { co[a] += W[i] * (ld)V(i, a) * f(i); } }
      ld e = 0, m = 0;
      for (int i = 0; i < np; ++i) { ld s = 0; for (int a = 0; a < N; ++a) { s += co[a] * V(i, a); } e = std::max(e, fabsl(s - f(i))); m = std::max(m, fabsl(f(i))); }
      c.near(e, 0, 1e-10 * (1 + m), "spans-polynomials", "degree " + std::to_string(d));
      if (D > 0) { for (int a = Nd; a < N; ++a) { c.near(co[a], 0, 1e-10 * (1 + m), "hierarchical", "function " + std::to_string(a) + " degree " + std::to_string(d)); } }
   }
   c.count("bases");
}

/// singular points of the collapsed coordinates
template <int D> static void corners(Case &c)
{
   int deg = c.in("degree", int(c.idx));
   // along a segment into each vertex the basis is continuous
   double vx[4][3] = {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}};
   int nv = D + 1;
   for (int v = 0; v < nv; ++v)
   {
      mfem::Vector X(2), Y(2), Z(2);
      double h = 1e-7;
      double cen = D == 2 ? -1. / 3 : -0.5;
      X(0) = vx[v][0]; Y(0) = vx[v][1]; Z(0) = vx[v][2];
      X(1) = X(0) + h * (cen - X(0)); Y(1) = Y(0) + h * (cen - Y(0)); Z(1) = Z(0) + h * (cen - Z(0));
      mfem::DenseMatrix V;
      if (D == 2) { miso::getVandermondeForTri(X, Y, deg, V); } else { miso::getVandermondeForTet(X, Y, Z, deg, V); }
      for (int a = 0; a < V.Width(); ++a)
      { c.near(V(0, a), V(1, a), 1e-7 * 40 * std::pow(deg + 1., 4) + 1e-9, "finite-and-continuous-at-vertices", "function " + std::to_string(a)); }
   }
}

int main(int argc, char **argv)
{
   init(argc, argv);
   enumerate("lobatto", G().tier == "thorough" ? 119 : 59, lobatto);
   run("jacobi", 20000, jac);
   enumerate("segment", 13, simplex<1>);
   enumerate("triangle", 11, simplex<2>);
   enumerate("tetrahedron", 7, simplex<3>);
   enumerate("triangle-corners", 9, corners<2>);
   enumerate("tetrahedron-corners", 7, corners<3>);
   return finish();
}
