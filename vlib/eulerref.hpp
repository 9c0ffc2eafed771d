// Independent long-double gas dynamics used by several harnesses.
#ifndef EULERREF_HPP
#define EULERREF_HPP
#include <cmath>
#include "vh.hpp"
namespace ref
{
typedef long double L;
const L G = 1.4L, Gm = 0.4L;
template <int D> struct Q { L v[D + 2]; };
template <int D> L dotm(const L *a, const L *b) { L r = 0; for (int i = 0; i < D; ++i) { r += a[i] * b[i]; } return r; }
template <int D> L p(const L *q) { return Gm * (q[D + 1] - 0.5L * dotm<D>(q + 1, q + 1) / q[0]); }
template <int D> L s(const L *q) { return std::log(p<D>(q)) - G * std::log(q[0]); }
template <int D> L S(const L *q) { return -q[0] * s<D>(q) / Gm; }
template <int D> void W(const L *q, L *w)
{
   L P = p<D>(q);
   w[0] = (G - s<D>(q)) / Gm - 0.5L * dotm<D>(q + 1, q + 1) / q[0] / P;
   for (int i = 0; i < D; ++i) { w[i + 1] = q[i + 1] / P; }
   w[D + 1] = -q[0] / P;
}
template <int D> void F(const L *n, const L *q, L *f)
{
   L U = dotm<D>(q + 1, n) / q[0], P = p<D>(q);
   f[0] = q[0] * U;
   for (int i = 0; i < D; ++i) { f[i + 1] = q[i + 1] * U + P * n[i]; }
   f[D + 1] = (q[D + 1] + P) * U;
}
/// A(u,H) v, the Euler Jacobian in direction n
template <int D> void Amul(const L *n, const L *u, L H, const L *v, L *r)
{
   L phi = 0.5L * dotm<D>(u, u), U = dotm<D>(u, n), nv = dotm<D>(n, v + 1), uv = dotm<D>(u, v + 1);
   r[0] = nv;
   for (int i = 0; i < D; ++i) { r[i + 1] = (Gm * phi * n[i] - u[i] * U) * v[0] + u[i] * nv - Gm * n[i] * uv + U * v[i + 1] + Gm * n[i] * v[D + 1]; }
   r[D + 1] = (Gm * phi - H) * U * v[0] + H * nv - Gm * U * uv + G * U * v[D + 1];
}
/// f(A) v for a function given at the three distinct eigenvalues U+c|n|, U-c|n|, U
template <int D> void fA(const L *n, const L *u, L H, const L *fl, const L *v, L *r)
{
   L dA = std::sqrt(dotm<D>(n, n)), c = std::sqrt(Gm * (H - 0.5L * dotm<D>(u, u))), U = dotm<D>(u, n);
   L l[3] = {U + c * dA, U - c * dA, U};
   for (int k = 0; k < D + 2; ++k) { r[k] = 0; }
   for (int i = 0; i < 3; ++i)
   {
      L x[D + 2], y[D + 2];
      for (int k = 0; k < D + 2; ++k) { x[k] = v[k]; }
      for (int j = 0; j < 3; ++j)
      {
         if (j == i) { continue; }
         Amul<D>(n, u, H, x, y);
         for (int k = 0; k < D + 2; ++k) { x[k] = (y[k] - l[j] * x[k]) / (l[i] - l[j]); }
      }
      for (int k = 0; k < D + 2; ++k) { r[k] += fl[i] * x[k]; }
   }
}
}
using ref::L;

template <int D> struct State
{
   double q[D + 2]; L ql[D + 2]; L w[D + 2];
   void sync() { for (int i = 0; i < D + 2; ++i) { ql[i] = q[i]; } ref::W<D>(ql, w); }
};
template <int D> State<D> rstate(vh::Rng &g, double umax = 3)
{
   State<D> s; s.q[0] = g.logu(0.1, 10); double p = g.logu(0.1, 10), k = 0;
   for (int i = 0; i < D; ++i) { double u = g.uni(-umax, umax); s.q[i + 1] = s.q[0] * u; k += u * u; }
   s.q[D + 1] = p / 0.4 + 0.5 * s.q[0] * k; s.sync(); return s;
}
#endif
