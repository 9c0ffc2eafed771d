// C14/C15: pointwise flux functions of the flow solver, judged by the physical
// identities they stand for, evaluated independently in extended precision.
#include "mfem.hpp"
#include "euler_fluxes.hpp"
#include "navier_stokes_fluxes.hpp"
#include "vh.hpp"
#include "eulerref.hpp"
using namespace miso;
using vh::Case;

template <int D> State<D> nearby(vh::Rng &g, const State<D> &a, double eps)
{
   State<D> s = a; double p = double(ref::p<D>(a.ql)) * (1 + eps * g.uni(-1, 1)), k = 0, r0 = a.q[0];
   s.q[0] *= 1 + eps * g.uni(-1, 1);
   for (int i = 0; i < D; ++i) { double u = a.q[i + 1] / r0 + eps * g.uni(-1, 1); s.q[i + 1] = s.q[0] * u; k += u * u; }
   s.q[D + 1] = p / 0.4 + 0.5 * s.q[0] * k; s.sync(); return s;
}
template <int D> void rdir(vh::Rng &g, double *n)
{
   double m = g.logu(0.1, 10);
   do { for (int i = 0; i < D; ++i) { n[i] = m * g.uni(-1, 1); } } while (std::fabs(n[0]) + (D > 1 ? std::fabs(n[D - 1]) : 0) < 1e-2 * m);
   if (g.coin(0.15)) { int k = g.irand(0, D - 1); for (int i = 0; i < D; ++i) { n[i] = i == k ? (g.coin() ? m : -m) : 0; } }
}
template <int D> L amax(const L *a) { L r = 0; for (int i = 0; i < D + 2; ++i) { r = std::max(r, std::fabs(a[i])); } return r; }
/// magnitude of a flux built from these states: sum of the positive parts
template <int D> L fscale(const double *n, const State<D> &a)
{
   L dA = 0, k = 0; for (int i = 0; i < D; ++i) { dA += std::fabs(L(n[i])); k = std::max(k, std::fabs(a.ql[i + 1] / a.ql[0])); }
   L P = ref::p<D>(a.ql), c = std::sqrt(1.4L * P / a.ql[0]);
   return dA * (k + c) * (a.ql[0] * (1 + k * D) + a.ql[D + 1] + P);
}

template <int D> void vars_case(Case &c)
{
   auto &g = c.rng; auto s = rstate<D>(g, g.coin(0.2) ? 0 : 4);
   c.invec("q", s.q, D + 2);
   // reference is itself sane: dS/dq = w
   double w[D + 2], q2[D + 2];
   calcEntropyVars<double, D, false>(s.q, w);
   for (int i = 0; i < D + 2; ++i) { c.rel(w[i], double(s.w[i]), 1e-12, 1e-13 + 1e-12 * std::fabs(double(s.w[D + 1] * s.ql[D + 1] / s.ql[0])), "entropy-variables"); }
   calcConservativeVars<double, D, true>(w, q2);
   double cond = 1 + std::fabs(w[0]);
   for (int i = 0; i < D + 2; ++i) { c.near(q2[i], s.q[i], 1e-12 * cond * (std::fabs(s.q[i]) + std::fabs(s.q[0])), "entropy-variables-round-trip"); }
   calcEntropyVars<double, D, true>(w, q2); for (int i = 0; i < D + 2; ++i) { c.check(q2[i] == w[i], "identity-on-entropy-variables"); }
   calcConservativeVars<double, D, false>(s.q, q2); for (int i = 0; i < D + 2; ++i) { c.check(q2[i] == s.q[i], "identity-on-conservative-variables"); }
   c.rel(pressure<double, D>(s.q), double(ref::p<D>(s.ql)), 1e-13, 1e-13 * std::fabs(s.q[D + 1]), "pressure");
   double Sv = double(ref::S<D>(s.ql));
   c.near(entropy<double, D, false>(s.q), Sv, 1e-12 * s.q[0] * (10 + std::fabs(Sv / s.q[0]) + std::fabs(s.q[D + 1] / double(ref::p<D>(s.ql)))), "entropy");
   c.near(entropy<double, D, true>(w), Sv, 1e-11 * s.q[0] * cond * (1 + std::fabs(w[0])), "entropy-from-entropy-variables");
   // w is the gradient of the entropy
   for (int i = 0; i < D + 2; ++i)
   {
      L h = 1e-4L * std::max(std::fabs(s.ql[i]), s.ql[0] * 0.1L), d = 0; const L cf[4] = {1.L / 12, -8.L / 12, 8.L / 12, -1.L / 12}; const int o[4] = {-2, -1, 1, 2};
      // keep the perturbed pressure positive
      L P = ref::p<D>(s.ql); h = std::min(h, 1e-3L * P / (1 + std::fabs(s.ql[1] / s.ql[0]) + std::fabs(s.ql[D] / s.ql[0]) + s.ql[D + 1] / s.ql[0]));
      for (int k = 0; k < 4; ++k) { L x[D + 2]; for (int j = 0; j < D + 2; ++j) { x[j] = s.ql[j]; } x[i] += o[k] * h; d += cf[k] * ref::S<D>(x) / h; }
      c.near(w[i], double(d), 1e-8 * (1 + std::fabs(double(d))), "w-is-the-entropy-gradient");
   }
   // dQ/dW: inverse of dW/dQ, symmetric, positive
   double H[D + 2][D + 2];
   for (int j = 0; j < D + 2; ++j)
   {
      double e[D + 2] = {0}, r[D + 2]; e[j] = 1;
      calcdQdWProduct<double, D>(s.q, e, r);
      for (int i = 0; i < D + 2; ++i) { H[i][j] = r[i]; }
   }
   for (int i = 0; i < D + 2; ++i) { for (int j = 0; j < i; ++j) { c.rel(H[i][j], H[j][i], 1e-12, 1e-13 * std::sqrt(H[i][i] * H[j][j]), "dQdW-symmetric"); } }
   double v[D + 2], Hv[D + 2], e2 = g.logu(1e-3, 1);
   for (int i = 0; i < D + 2; ++i) { v[i] = g.uni(-1, 1); }
   calcdQdWProduct<double, D>(s.q, v, Hv);
   double quad = 0, mag = 0; for (int i = 0; i < D + 2; ++i) { quad += v[i] * Hv[i]; mag += std::fabs(v[i] * Hv[i]); }
   c.check(quad > -1e-13 * mag, "dQdW-positive");
   // product against a directional difference of q(w)
   {
      double nv = 0; for (int i = 0; i < D + 2; ++i) { nv += std::fabs(v[i]); }
      double h = 1e-4 * std::fabs(w[D + 1]) / nv; double d[D + 2] = {0}; const double cf[4] = {1. / 12, -8. / 12, 8. / 12, -1. / 12}; const int o[4] = {-2, -1, 1, 2};
      double ww[D + 2], qq[D + 2], sc = 0;
      for (int k = 0; k < 4; ++k)
      {
         for (int i = 0; i < D + 2; ++i) { ww[i] = w[i] + o[k] * h * v[i]; }
         // independent inverse map
         L u[D], V = 0; for (int i = 0; i < D; ++i) { u[i] = -L(ww[i + 1]) / ww[D + 1]; V += u[i] * u[i]; }
         L ss = ref::G + ref::Gm * (0.5L * V * ww[D + 1] - ww[0]);
         L rho = std::pow(-std::exp(-ss) / L(ww[D + 1]), 1 / ref::Gm), P = -rho / ww[D + 1];
         qq[0] = rho; for (int i = 0; i < D; ++i) { qq[i + 1] = rho * u[i]; } qq[D + 1] = P / ref::Gm + 0.5L * rho * V;
         for (int i = 0; i < D + 2; ++i) { d[i] += cf[k] * qq[i] / h; }
      }
      for (int i = 0; i < D + 2; ++i) { sc = std::max(sc, std::fabs(Hv[i])); sc = std::max(sc, std::fabs(s.q[i]) * nv); }
      for (int i = 0; i < D + 2; ++i) { c.near(Hv[i], d[i], 1e-7 * (sc + nv * H[i][i]), "dQdW-product"); }
   }
   // the Jacobian of the change of variables
   {
      adept::Stack stack; mfem::Vector qv(s.q, D + 2); mfem::DenseMatrix J(D + 2);
      convertVarsJac<D>(qv, stack, J);
      double x[D + 2]; mfem::Vector hv(Hv, D + 2), b(D + 2); J.Mult(hv, b);
      double sc = 0; for (int i = 0; i < D + 2; ++i) { double r = 0; for (int j = 0; j < D + 2; ++j) { r += std::fabs(J(i, j) * Hv[j]); } sc = std::max(sc, r); }
      for (int i = 0; i < D + 2; ++i) { c.near(b(i), v[i], 1e-10 * (1 + sc), "convert-Jacobian-inverts-dQdW"); }
      (void)x;
   }
   // spectral radius and its scaled product
   double n[D]; rdir<D>(g, n);
   L nl[D], U = 0, dA = 0; for (int i = 0; i < D; ++i) { nl[i] = n[i]; U += nl[i] * s.ql[i + 1] / s.ql[0]; dA += nl[i] * nl[i]; }
   L lam = std::fabs(U) + std::sqrt(dA) * std::sqrt(1.4L * ref::p<D>(s.ql) / s.ql[0]);
   c.rel(calcSpectralRadius<double, D>(n, s.q), double(lam), 1e-12, 1e-12 * double(std::sqrt(dA)) * (1 + std::sqrt(s.q[D + 1] / s.q[0])), "spectral-radius");
   c.rel(calcSpectralRadius<double, D, true>(n, w), double(lam), 1e-11 * cond, 1e-12 * double(std::sqrt(dA)) * (1 + std::sqrt(s.q[D + 1] / s.q[0])), "spectral-radius-from-entropy-variables");
   double adj[D * D]; L avg = 0;
   for (int r = 0; r < D; ++r)
   {
      L Ur = 0, d2 = 0; for (int i = 0; i < D; ++i) { adj[r * D + i] = g.uni(-2, 2); Ur += L(adj[r * D + i]) * s.ql[i + 1] / s.ql[0]; d2 += L(adj[r * D + i]) * adj[r * D + i]; }
      avg += (std::fabs(Ur) + std::sqrt(d2 * 1.4L * ref::p<D>(s.ql) / s.ql[0])) / D;
   }
   double mv[D + 2], mv2[D + 2]; applyLPSScaling<double, D>(adj, s.q, v, mv); applyLPSScalingUsingEntVars<double, D>(adj, w, v, mv2);
   double hm = 0; for (int i = 0; i < D + 2; ++i) { hm = std::max(hm, std::fabs(Hv[i])); for (int j = 0; j < D + 2; ++j) { hm = std::max(hm, std::fabs(H[i][j] * v[j])); } }
   for (int i = 0; i < D + 2; ++i)
   {
      c.near(mv[i], double(avg) * Hv[i], 1e-12 * double(avg) * hm, "stabilisation-scaling");
      c.near(mv2[i], double(avg) * Hv[i], 1e-10 * cond * double(avg) * hm, "stabilisation-scaling-from-entropy-variables");
   }
   // free stream
   double M = g.uni(0.01, 3), al = g.uni(-1, 1), fs[D + 2]; int ir = g.irand(0, D - 1), ip = D == 1 ? 0 : (ir + g.irand(1, D - 1)) % D;
   getFreeStreamQ<double, D>(M, al, ir, ip, fs);
   L fl[D + 2]; for (int i = 0; i < D + 2; ++i) { fl[i] = fs[i]; }
   c.near(fs[0], 1, 0, "free-stream-density"); c.near(double(1.4L * ref::p<D>(fl)), 1, 1e-12 * (1 + M * M), "free-stream-sound-speed");
   for (int i = 0; i < D; ++i) { c.near(fs[i + 1], D == 1 ? M : i == ir ? M * std::cos(al) : i == ip ? M * std::sin(al) : 0, 1e-14 * M, "free-stream-direction"); }
   c.count("states");
}

template <int D> void flux_case(Case &c)
{
   auto &g = c.rng; int kind = g.irand(0, 5);
   auto a = rstate<D>(g); auto b = kind == 0 ? a : kind <= 2 ? nearby<D>(g, a, std::pow(10., -g.uni(0.7, 13))) : rstate<D>(g);
   if (kind == 3) { b = nearby<D>(g, a, 0.3); }
   double n[D], nm[D]; rdir<D>(g, n); for (int i = 0; i < D; ++i) { nm[i] = -n[i]; }
   c.invec("qL", a.q, D + 2); c.invec("qR", b.q, D + 2); c.invec("n", n, D);
   L nl[D], dA = 0; for (int i = 0; i < D; ++i) { nl[i] = n[i]; dA += nl[i] * nl[i]; } dA = std::sqrt(dA);
   double f[D + 2], f2[D + 2]; L fa[D + 2], fb[D + 2]; double sc = double(std::max(fscale<D>(n, a), fscale<D>(n, b)));
   ref::F<D>(nl, a.ql, fa); ref::F<D>(nl, b.ql, fb);
   calcEulerFlux<double, D>(n, a.q, f);
   for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(fa[i]), 1e-13 * sc, "euler-flux"); }
   // Roe property of the reference, then the upwind flux
   {
      L rl = std::sqrt(a.ql[0]), rr = std::sqrt(b.ql[0]), u[D], HL = (a.ql[D + 1] + ref::p<D>(a.ql)) / a.ql[0], HR = (b.ql[D + 1] + ref::p<D>(b.ql)) / b.ql[0];
      for (int i = 0; i < D; ++i) { u[i] = (rl * a.ql[i + 1] / a.ql[0] + rr * b.ql[i + 1] / b.ql[0]) / (rl + rr); }
      L H = (rl * HL + rr * HR) / (rl + rr), U = ref::dotm<D>(u, nl), cs = std::sqrt(ref::Gm * (H - 0.5L * ref::dotm<D>(u, u)));
      L dq[D + 2], Ad[D + 2]; for (int i = 0; i < D + 2; ++i) { dq[i] = a.ql[i] - b.ql[i]; }
      L l[3] = {U + cs * dA, U - cs * dA, U}, rho = std::fabs(U) + cs * dA, fl[3];
      for (int k = 0; k < 3; ++k) { fl[k] = std::max(std::fabs(l[k]), 0.025L * rho); if (std::fabs(l[k]) < 0.025L * rho) { c.count("entropy-fixed-waves"); } }
      ref::fA<D>(nl, u, H, fl, dq, Ad);
      double cond = double((1 + std::sqrt(ref::dotm<D>(u, u)) / cs)); cond *= cond;
      calcRoeFaceFlux<double, D>(n, a.q, b.q, f);
      for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(0.5L * (fa[i] + fb[i]) + 0.5L * Ad[i]), 2e-12 * sc * cond, "roe-flux"); }
      calcRoeFaceFlux<double, D>(nm, b.q, a.q, f2);
      for (int i = 0; i < D + 2; ++i) { c.near(f[i], -f2[i], 2e-12 * sc * cond, "roe-flux-conservative"); }
      if (std::min({std::fabs(l[0]), std::fabs(l[1]), std::fabs(l[2])}) > 0.03L * rho && (l[1] > 0 || l[0] < 0))
      { for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(l[1] > 0 ? fa[i] : fb[i]), 2e-12 * sc * cond, "roe-flux-upwinds-supersonic-flow"); } c.count("supersonic"); }
   }
   // entropy-conservative fluxes
   double wa[D + 2], wb[D + 2]; for (int i = 0; i < D + 2; ++i) { wa[i] = double(a.w[i]); wb[i] = double(b.w[i]); }
   double cw = 1 + std::max(std::fabs(wa[0]), std::fabs(wb[0]));
   L psi = ref::dotm<D>(a.ql + 1, nl) - ref::dotm<D>(b.ql + 1, nl);
   auto tadmor = [&](const double *ff, const char *name, double tolf, bool eq)
   {
      L r = -psi, m = std::fabs(ref::dotm<D>(a.ql + 1, nl)) + std::fabs(ref::dotm<D>(b.ql + 1, nl)), md = 0;
      for (int i = 0; i < D + 2; ++i) { L d = a.w[i] - b.w[i]; r += d * ff[i]; md += std::fabs(d) * sc; m += std::fabs(d * ff[i]); }
      double tol = tolf * double(m + 1e-2 * md) + 1e-15 * sc;
      if (eq) { c.near(double(r), 0, tol, name); } else { c.check(double(r) >= -tol, name, "entropy production " + std::to_string(double(r))); }
   };
   double fsum[D + 2] = {0};
   for (int d = 0; d < D; ++d)
   {
      calcIsmailRoeFlux<double, D>(d, a.q, b.q, f); calcIsmailRoeFluxUsingEntVars<double, D>(d, wa, wb, f2);
      for (int i = 0; i < D + 2; ++i) { fsum[i] += n[d] * f[i]; }
      double e[D] = {0}; e[d] = 1; double s1 = double(std::max(fscale<D>(e, a), fscale<D>(e, b)));
      for (int i = 0; i < D + 2; ++i) { c.near(f2[i], f[i], 2e-12 * cw * s1, "ec-flux-from-entropy-variables"); }
      calcIsmailRoeFlux<double, D>(d, b.q, a.q, f2);
      for (int i = 0; i < D + 2; ++i) { c.near(f2[i], f[i], 1e-13 * s1, "ec-flux-symmetric"); }
      calcIsmailRoeFlux<double, D>(d, a.q, a.q, f2); L el[D], fe[D + 2]; for (int i = 0; i < D; ++i) { el[i] = e[i]; } ref::F<D>(el, a.ql, fe);
      for (int i = 0; i < D + 2; ++i) { c.near(f2[i], double(fe[i]), 1e-12 * s1, "ec-flux-consistent"); }
   }
   calcIsmailRoeFaceFlux<double, D>(n, a.q, b.q, f);
   for (int i = 0; i < D + 2; ++i) { c.near(f[i], fsum[i], 1e-12 * sc, "ec-face-flux-is-the-directional-sum"); }
   tadmor(f, "entropy-conservation", 5e-12, true);
   tadmor(fsum, "entropy-conservation-by-direction", 5e-12, true);
   calcIsmailRoeFaceFluxUsingEntVars<double, D>(n, wa, wb, f2);
   for (int i = 0; i < D + 2; ++i) { c.near(f2[i], f[i], 4e-12 * cw * sc, "ec-face-flux-from-entropy-variables"); }
   if (kind == 0) { for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(fa[i]), 1e-12 * sc, "ec-face-flux-consistent"); } c.count("equal-states"); }
   // with dissipation
   double cd = g.coin(0.2) ? 0.0 : g.uni(0.01, 2), fd[D + 2];
   calcIsmailRoeFaceFluxWithDiss<double, D>(n, cd, a.q, b.q, fd);
   {
      L qa[D + 2], lam; for (int i = 0; i < D + 2; ++i) { qa[i] = 0.5L * (a.ql[i] + b.ql[i]); }
      lam = std::fabs(ref::dotm<D>(qa + 1, nl) / qa[0]) + dA * std::sqrt(1.4L * ref::p<D>(qa) / qa[0]);
      double qd[D + 2], dw[D + 2], hd[D + 2], hm = 0; for (int i = 0; i < D + 2; ++i) { qd[i] = double(qa[i]); dw[i] = double(a.w[i] - b.w[i]); }
      calcdQdWProduct<double, D>(qd, dw, hd);
      for (int j = 0; j < D + 2; ++j) { double e[D + 2] = {0}, r[D + 2]; e[j] = std::fabs(dw[j]) + 1e-16 * cw; calcdQdWProduct<double, D>(qd, e, r); for (int i = 0; i < D + 2; ++i) { hm = std::max(hm, std::fabs(r[i])); } }
      for (int i = 0; i < D + 2; ++i) { c.near(fd[i] - f[i], cd * double(lam) * hd[i], 1e-12 * sc + 1e-12 * cd * double(lam) * hm * cw, "dissipation-term"); }
      double tot = 0; for (int i = 0; i < D + 2; ++i) { tot += dw[i] * (fd[i] - f[i]); }
      c.check(tot >= -1e-11 * cd * double(lam) * hm * cw - 1e-13 * sc * cw * (amax<D>(a.w) + amax<D>(b.w)), "dissipation-never-creates-entropy");
      calcIsmailRoeFaceFluxWithDissUsingEntVars<double, D>(n, cd, wa, wb, f2);
      for (int i = 0; i < D + 2; ++i) { c.near(f2[i], fd[i], 1e-11 * cw * (sc + cd * double(lam) * hm), "dissipative-flux-from-entropy-variables"); }
      calcIsmailRoeFaceFluxWithDiss<double, D>(nm, cd, b.q, a.q, f2);
      for (int i = 0; i < D + 2; ++i) { c.near(f2[i], -fd[i], 1e-12 * sc + 1e-12 * cw * cd * double(lam) * hm, "dissipative-flux-conservative"); }
   }
   c.count("flux-pairs");
}

template <int D> void bdr_case(Case &c)
{
   auto &g = c.rng; auto q = rstate<D>(g); auto qb = g.coin(0.2) ? q : g.coin() ? nearby<D>(g, q, 0.2) : rstate<D>(g);
   double n[D]; rdir<D>(g, n); c.invec("q", q.q, D + 2); c.invec("qbnd", qb.q, D + 2); c.invec("n", n, D);
   L nl[D], dA = 0; for (int i = 0; i < D; ++i) { nl[i] = n[i]; dA += nl[i] * nl[i]; } dA = std::sqrt(dA);
   double sc = double(std::max(fscale<D>(n, q), fscale<D>(n, qb))), f[D + 2], f2[D + 2], work[D + 2], w[D + 2];
   L F[D + 2], u[D], dq[D + 2], Ad[D + 2]; ref::F<D>(nl, q.ql, F);
   for (int i = 0; i < D; ++i) { u[i] = qb.ql[i + 1] / qb.ql[0]; } for (int i = 0; i < D + 2; ++i) { dq[i] = q.ql[i] - qb.ql[i]; w[i] = double(q.w[i]); }
   L H = (qb.ql[D + 1] + ref::p<D>(qb.ql)) / qb.ql[0], U = ref::dotm<D>(u, nl), cs = std::sqrt(1.4L * ref::p<D>(qb.ql) / qb.ql[0]);
   L l[3] = {U + cs * dA, U - cs * dA, U}, fl[3]; for (int k = 0; k < 3; ++k) { fl[k] = 0.5L * (std::fabs(l[k]) - l[k]); }
   ref::fA<D>(nl, u, H, fl, dq, Ad);
   double cond = double(1 + std::sqrt(ref::dotm<D>(u, u)) / cs); cond *= cond; double cw = 1 + std::fabs(w[0]);
   calcBoundaryFlux<double, D>(n, qb.q, q.q, work, f);
   for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(F[i] + Ad[i]), 2e-12 * sc * cond, "characteristic-boundary-flux"); }
   if (l[1] > 0) { for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(F[i]), 2e-12 * sc * cond, "supersonic-outflow-takes-the-interior"); } c.count("supersonic-outflow"); }
   calcFarFieldFlux<double, D, false>(n, qb.q, q.q, work, f2);
   for (int i = 0; i < D + 2; ++i) { c.near(f2[i], f[i], 2e-12 * sc * cond, "far-field-flux"); }
   calcFarFieldFlux<double, D, true>(n, qb.q, w, work, f2);
   for (int i = 0; i < D + 2; ++i) { c.near(f2[i], f[i], 1e-11 * cw * sc * cond, "far-field-flux-from-entropy-variables"); }
   calcBoundaryFlux<double, D>(n, q.q, q.q, work, f2);
   for (int i = 0; i < D + 2; ++i) { c.near(f2[i], double(F[i]), 1e-12 * sc, "boundary-flux-consistent"); }
   // prescribed entropy flux
   L psi = ref::dotm<D>(q.ql + 1, nl); double ef = g.uni(-2, 2);
   calcBoundaryFluxEC<double, D>(n, qb.q, q.q, ef, f2);
   { L r = -psi, m = std::fabs(psi) + std::fabs(ef); for (int i = 0; i < D + 2; ++i) { r += q.w[i] * f2[i]; m += std::fabs(q.w[i]) * (std::fabs(f2[i]) + sc); } c.near(double(r), ef, 1e-10 * double(m) * cond, "prescribed-entropy-flux"); }
   // the correction has the direction of dQ/dW w
   { double Hw[D + 2]; calcdQdWProduct<double, D>(q.q, w, Hw); double al = (f[0] - f2[0]) / Hw[0], hm = 0; for (double h : Hw) { hm = std::max(hm, std::fabs(h)); }
     if (std::fabs(Hw[0]) > 1e-3 * hm) { for (int i = 0; i < D + 2; ++i) { c.near(f[i] - f2[i], al * Hw[i], 1e-9 * cw * cond * (sc + std::fabs(al) * hm), "entropy-flux-correction-direction"); } } }
   // slip wall: pressure only, hence no mass, energy or entropy through the wall
   calcSlipWallFlux<double, D, false>(n, n, q.q, f); double P = double(ref::p<D>(q.ql));
   c.near(f[0], 0, 0, "slip-wall-mass"); c.near(f[D + 1], 0, 0, "slip-wall-energy");
   for (int i = 0; i < D; ++i) { c.near(f[i + 1], P * n[i], 1e-12 * q.q[D + 1] * std::fabs(n[i]), "slip-wall-momentum"); }
   { L r = -psi, m = std::fabs(psi); for (int i = 0; i < D + 2; ++i) { r += q.w[i] * f[i]; m += std::fabs(q.w[i] * f[i]); } c.near(double(r), 0, 1e-11 * double(m) * (1 + q.q[D + 1] / P), "slip-wall-entropy-flux"); }
   calcSlipWallFlux<double, D, true>(n, n, w, f2); for (int i = 0; i < D + 2; ++i) { c.near(f2[i], f[i], 1e-11 * cw * P * double(dA), "slip-wall-from-entropy-variables"); }
   projectStateOntoWall<double, D>(n, q.q, f2);
   { L un = 0, m = 0; for (int i = 0; i < D; ++i) { un += nl[i] * f2[i + 1]; m += std::fabs(nl[i] * q.ql[i + 1]); } c.near(double(un), 0, 1e-13 * double(m), "wall-state-is-tangential");
     c.check(f2[0] == q.q[0] && f2[D + 1] == q.q[D + 1], "wall-state-keeps-density-and-energy");
     for (int i = 0; i < D; ++i) { double t = double(q.ql[i + 1] - nl[i] / dA * (psi / dA)); c.near(f2[i + 1], t, 1e-12 * double(m / dA) + 1e-13 * std::fabs(q.q[i + 1]), "wall-state-keeps-the-tangential-momentum"); } }
   // blowing and suction: convects the state at the control velocity (into the domain), carries entropy -S*Uc
   double vc = g.uni(-1, 1); calcControlFlux<double, D>(n, q.q, vc, f); double Uc = -vc * double(dA);
   for (int i = 0; i < D + 2; ++i) { double e = q.q[i] * Uc + (i >= 1 && i <= D ? n[i - 1] * P : i == D + 1 ? P * Uc : 0); c.near(f[i], e, 1e-12 * sc * (1 + q.q[D + 1] / P), "control-flux"); }
   { L r = -psi, m = std::fabs(psi); for (int i = 0; i < D + 2; ++i) { r += q.w[i] * f[i]; m += std::fabs(q.w[i] * f[i]); } c.near(double(r), Uc * double(ref::S<D>(q.ql)), 1e-11 * double(m) * (1 + q.q[D + 1] / P), "control-entropy-flux"); }
   calcFarFieldFlux2<double, D>(n, q.q, q.q, work, f2); for (int i = 0; i < D + 2; ++i) { c.near(f2[i], double(F[i]), 1e-12 * sc * (1 + q.q[D + 1] / P), "far-field-flux-2-consistent"); }
   calcFarFieldFlux2<double, D>(n, qb.q, q.q, work, f2);
   { double Ub = double(U), Pb = double(ref::p<D>(qb.ql)); const auto &up = Ub > 0 ? q : qb; double Pu = Ub > 0 ? P : Pb;
     for (int i = 0; i < D + 2; ++i) { double e = Ub * up.q[i] + (i >= 1 && i <= D ? n[i - 1] * P : i == D + 1 ? Ub * Pu : 0); c.near(f2[i], e, 1e-12 * sc * (1 + q.q[D + 1] / P + qb.q[D + 1] / Pb), "far-field-flux-2-upwinds"); } }
   // Jacobian of the boundary flux (reverse-mode tape)
   {
      mfem::Vector x(n, D), dir(n, D), qv(q.q, D + 2), qr(qb.q, D + 2), wk(D + 2); wk = 0.0; mfem::DenseMatrix Dw(D + 2, D), J(D + 2); Dw = 0.0; adept::Stack st;
      calcFluxJacState<D>(x, dir, 1.0, qv, Dw, qr, wk, st, J);
      // A(q) + A^-(qbnd): exact because the dissipation is linear in q
      L ui[D]; for (int i = 0; i < D; ++i) { ui[i] = q.ql[i + 1] / q.ql[0]; } L Hi = (q.ql[D + 1] + ref::p<D>(q.ql)) / q.ql[0];
      double cj = 1 + double(std::sqrt(ref::dotm<D>(ui, ui)));
      for (int j = 0; j < D + 2; ++j)
      {
         L e[D + 2] = {0}, a1[D + 2], a2[D + 2]; e[j] = 1; ref::Amul<D>(nl, ui, Hi, e, a1); ref::fA<D>(nl, u, H, fl, e, a2);
         double s2 = double(dA * (1 + cs) * (1 + std::fabs(U) / dA) * (1 + Hi + H)) * cond * cj * cj;
         for (int i = 0; i < D + 2; ++i) { c.near(J(i, j), double(a1[i] + a2[i]), 1e-11 * s2, "boundary-flux-Jacobian"); }
      }
   }
   c.count("boundary-states");
}

// ---- viscous ---------------------------------------------------------------
template <int D> void visc_case(Case &c)
{
   auto &g = c.rng; auto q = rstate<D>(g); double mu = g.logu(1e-3, 10), Pr = g.uni(0.5, 2), n[D]; rdir<D>(g, n);
   c.invec("q", q.q, D + 2); c.in("mu", mu); c.in("Pr", Pr); c.invec("n", n, D);
   // gradients of density, velocity, temperature; entropy-variable gradient by the chain rule
   L T = ref::p<D>(q.ql) / q.ql[0], gr[D], gu[D][D], gT[D], u[D]; for (int i = 0; i < D; ++i) { u[i] = q.ql[i + 1] / q.ql[0]; }
   for (int d = 0; d < D; ++d) { gr[d] = g.uni(-1, 1); gT[d] = g.uni(-1, 1); for (int i = 0; i < D; ++i) { gu[i][d] = g.uni(-1, 1); } }
   double Dw[(D + 2) * D];
   for (int d = 0; d < D; ++d)
   {  // w0 = (G-s)/Gm - u^2/(2T), s = ln T - Gm ln rho; w_i = u_i/T; w_E = -1/T
      L ds = gT[d] / T - ref::Gm * gr[d] / q.ql[0], uu = ref::dotm<D>(u, u), udu = 0; for (int i = 0; i < D; ++i) { udu += u[i] * gu[i][d]; }
      Dw[d * (D + 2)] = double(-ds / ref::Gm - udu / T + 0.5L * uu * gT[d] / (T * T));
      for (int i = 0; i < D; ++i) { Dw[d * (D + 2) + i + 1] = double(gu[i][d] / T - u[i] * gT[d] / (T * T)); }
      Dw[d * (D + 2) + D + 1] = double(gT[d] / (T * T));
   }
   L div = 0; for (int i = 0; i < D; ++i) { div += gu[i][i]; }
   L k = mu * ref::G / (Pr * ref::Gm), um = std::sqrt(ref::dotm<D>(u, u));
   auto visc = [&](int d, const L *gTT, L *f)
   {
      f[0] = 0; f[D + 1] = k * gTT[d];
      for (int i = 0; i < D; ++i) { L tau = mu * (gu[i][d] + gu[d][i] - (i == d ? 2.L / 3 * div : 0)); f[i + 1] = tau; f[D + 1] += u[i] * tau; }
   };
   double mom = mu * (8 + 8 * double(um / T)) , en = mu * (1 + double(um)) * (10 + 10 * double(um / T)) + double(k) * 4 + mu * double(um * um / T) * 8;
   auto tol = [&](int i) { return 1e-12 * (i == D + 1 ? en : mom) * (1 + double(um)); };
   L quad = 0, qmag = 0;
   for (int d = 0; d < D; ++d)
   {
      double f[D + 2]; L r[D + 2]; applyViscousScaling<double, D>(d, mu, Pr, q.q, Dw, f); visc(d, gT, r);
      for (int i = 0; i < D + 2; ++i) { c.near(f[i], double(r[i]), tol(i), "viscous-flux"); quad += L(Dw[d * (D + 2) + i]) * f[i]; qmag += std::fabs(L(Dw[d * (D + 2) + i]) * f[i]); }
   }
   c.check(quad >= -1e-12 * qmag, "viscous-terms-never-create-entropy");
   { L e = k * 0; for (int d = 0; d < D; ++d) { e += k * gT[d] * gT[d] / (T * T); for (int i = 0; i < D; ++i) { e += gu[i][d] * mu * (gu[i][d] + gu[d][i] - (i == d ? 2.L / 3 * div : 0)) / T; } } c.near(double(quad), double(e), 1e-11 * double(qmag + e), "entropy-production-rate"); }
   // C_ij = C_ji^T, and it accumulates
   {
      double v[D + 2], w[D + 2]; for (int i = 0; i < D + 2; ++i) { v[i] = g.uni(-1, 1); w[i] = g.uni(-1, 1); }
      int i = g.irand(0, D - 1), j = g.irand(0, D - 1); double a[D + 2], b[D + 2], x = 0, y = 0, m = 0; double base = g.uni(-1, 1);
      for (int s = 0; s < D + 2; ++s) { a[s] = base; b[s] = base; }
      applyCijMatrix<double, D>(i, j, mu, Pr, q.q, v, a); applyCijMatrix<double, D>(j, i, mu, Pr, q.q, w, b);
      for (int s = 0; s < D + 2; ++s) { x += w[s] * (a[s] - base); y += v[s] * (b[s] - base); m += std::fabs(a[s]) + std::fabs(b[s]) + std::fabs(base); }
      c.near(x, y, 1e-12 * m * (1 + double(um)) * (1 + double(um)), "viscous-matrices-symmetric");
      c.check(a[0] == base && b[0] == base, "viscous-matrices-leave-mass-alone");
   }
   // normal derivative removed
   L dA = 0, nl[D]; for (int d = 0; d < D; ++d) { nl[d] = n[d]; dA += nl[d] * nl[d]; } dA = std::sqrt(dA);
   {
      double Dt[(D + 2) * D], Dt2[(D + 2) * D]; setZeroNormalDeriv<double, D>(n, Dw, Dt); setZeroNormalDeriv<double, D>(n, Dt, Dt2);
      for (int s = 0; s < D + 2; ++s)
      {
         L x = 0, m = 0, x0 = 0; for (int d = 0; d < D; ++d) { x += nl[d] * Dt[d * (D + 2) + s]; x0 += nl[d] * Dw[d * (D + 2) + s]; m += std::fabs(nl[d] * Dw[d * (D + 2) + s]); }
         c.near(double(x), 0, 1e-13 * double(m) + 1e-300, "normal-derivative-removed");
         for (int d = 0; d < D; ++d) { c.near(Dt[d * (D + 2) + s], double(Dw[d * (D + 2) + s] - nl[d] * x0 / (dA * dA)), 1e-13 * double(m / dA) + 1e-13 * std::fabs(Dw[d * (D + 2) + s]), "tangential-derivative-kept"); }
      }
   }
   // adiabatic wall: the viscous flux without normal heat conduction
   double fw[D + 2];
   {
      calcAdiabaticWallFlux<double, D>(n, mu, Pr, q.q, Dw, fw);
      L gTn = 0, gTt[D], e[D + 2] = {0}; for (int d = 0; d < D; ++d) { gTn += gT[d] * nl[d] / dA; }
      for (int d = 0; d < D; ++d) { gTt[d] = gT[d] - gTn * nl[d] / dA; }
      // removing the normal part of the last entropy variable's gradient also changes the momentum part u_i grad(w_E)
      double Db[(D + 2) * D]; for (int d = 0; d < D; ++d) { for (int s = 0; s < D + 2; ++s) { Db[d * (D + 2) + s] = Dw[d * (D + 2) + s]; } Db[d * (D + 2) + D + 1] = double(gTt[d] / (T * T)); }
      double m = 0;
      for (int d = 0; d < D; ++d) { double f[D + 2]; applyViscousScaling<double, D>(d, mu, Pr, q.q, Db, f); for (int i = 0; i < D + 2; ++i) { e[i] += nl[d] * f[i]; m += std::fabs(n[d] * f[i]); } }
      for (int i = 0; i < D + 2; ++i) { c.near(fw[i], double(e[i]), 1e-11 * (m + tol(i) * 1e12 * double(dA)) , "adiabatic-wall-flux"); }
      // at rest nothing but the tangential stress remains: no energy flux
      double q0[D + 2]; for (int i = 0; i < D + 2; ++i) { q0[i] = i >= 1 && i <= D ? 0 : q.q[i]; } double f0[D + 2]; calcAdiabaticWallFlux<double, D>(n, mu, Pr, q0, Dw, f0);
      L T0 = 0.4L * q0[D + 1] / q0[0], mh = 0; for (int d = 0; d < D; ++d) { mh += std::fabs(nl[d] * Dw[d * (D + 2) + D + 1]); } c.near(f0[D + 1], 0, 1e-12 * double(T0 * T0 * mh * k), "adiabatic-wall-conducts-no-heat");
   }
   // no-slip and control penalties
   {
      auto qf = rstate<D>(g); double J = g.logu(0.01, 10), uc = g.uni(-2, 2), f[D + 2], fc[D + 2];
      calcNoSlipPenaltyFlux<double, D>(n, J, mu, Pr, qf.q, q.q, f);
      L P = ref::p<D>(q.ql), Tf = ref::p<D>(qf.ql) / qf.ql[0], x = 0, m = 0;
      for (int i = 0; i < D; ++i) { L e = mu * Tf * (D + 1.L / 3) * q.ql[i + 1] / P * dA / J; c.near(f[i + 1], double(e), 1e-11 * std::fabs(double(e)) * (1 + q.q[D + 1] / double(P)) * (1 + qf.q[D + 1] / double(ref::p<D>(qf.ql))), "no-slip-penalty"); x += q.w[i + 1] * f[i + 1]; m += std::fabs(q.w[i + 1] * f[i + 1]); }
      c.check(f[0] == 0 && f[D + 1] == 0, "no-slip-penalty-mass-energy"); c.check(x >= -1e-12L * m, "no-slip-penalty-dissipates");
      calcControlPenaltyFlux<double, D>(n, J, mu, Pr, uc, qf.q, q.q, fc); c.check(fc[0] == 0 && fc[D + 1] == 0, "control-penalty-mass-energy");
      for (int i = 0; i < D; ++i) { L e = mu * Tf * (D + 1.L / 3) * (q.ql[i + 1] - q.ql[0] * uc * nl[i] / dA) / P * dA / J, em = mu * Tf * (D + 1.L / 3) * (std::fabs(q.ql[i + 1]) + q.ql[0] * std::fabs(uc)) / P * dA / J; c.near(fc[i + 1], double(e), 1e-11 * double(em) * (1 + q.q[D + 1] / double(P)) * (1 + qf.q[D + 1] / double(ref::p<D>(qf.ql))), "control-penalty"); }
      calcControlPenaltyFlux<double, D>(n, J, mu, Pr, 0.0, qf.q, q.q, fc); for (int i = 0; i < D + 2; ++i) { c.rel(fc[i], f[i], 1e-13, 0, "control-penalty-without-control-is-no-slip"); }
   }
   // dual-consistent term: the adjoint of the adiabatic wall flux
   {
      double fl[(D + 2) * D]; calcNoSlipDualFlux<double, D>(n, mu, Pr, q.q, fl);
      L x = 0, y = 0, m = 0; L P = ref::p<D>(q.ql);
      for (int i = 0; i < (D + 2) * D; ++i) { x += L(Dw[i]) * fl[i]; m += std::fabs(L(Dw[i]) * fl[i]); }
      for (int i = 0; i < D; ++i) { y -= q.ql[i + 1] / P * fw[i + 1]; m += std::fabs(q.ql[i + 1] / P * fw[i + 1]); }
      c.near(double(x), double(y), 1e-11 * double(m) * (1 + double(um)) + 1e-12 * en * double(dA), "dual-wall-term-is-the-adjoint");
   }
   // Sutherland
   { L a2 = 1.4L * T, ST = 198.60L / 460.0L, e = std::pow(a2, 1.5L) * (1 + ST) / (a2 + ST); c.rel(calcSutherlandViscosity<double, D>(q.q), double(e), 1e-12 * (1 + q.q[D + 1] / double(ref::p<D>(q.ql))), 0, "sutherland"); }
   c.count("viscous-states");
}

// ---- manufactured solutions -------------------------------------------------
template <int D, class Ex> void mms(Ex ex, const double *x, double mu, double Pr, double *d)
{
   const double h = 2e-3; const int n = D + 2; const int o[6] = {-3, -2, -1, 1, 2, 3}; const double cf[6] = {-1. / 60, 9. / 60, -45. / 60, 45. / 60, -9. / 60, 1. / 60};
   auto flux = [&](const double *y, int k, double *f)
   {
      double q[5]; L ql[5], el[3] = {0, 0, 0}, fl[5]; el[k] = 1; ex(y, q); for (int i = 0; i < n; ++i) { ql[i] = q[i]; }
      ref::F<D>(el, ql, fl); for (int i = 0; i < n; ++i) { f[i] = double(fl[i]); }
      if (mu > 0)
      {  // tau and heat flux from primitive gradients
         double gu[3][3] = {}, gT[3] = {}, dv = 0;
         for (int j = 0; j < D; ++j) { for (int a = 0; a < 6; ++a) { double yp[3] = {y[0], y[1], D > 2 ? y[2] : 0}, r[5]; yp[j] += o[a] * h; ex(yp, r); double p = 0.4 * r[n - 1]; for (int i = 0; i < D; ++i) { gu[i][j] += cf[a] * r[i + 1] / r[0] / h; p -= 0.2 * r[i + 1] * r[i + 1] / r[0]; } gT[j] += cf[a] * p / r[0] / h; } }
         for (int i = 0; i < D; ++i) { dv += gu[i][i]; }
         f[n - 1] -= mu * 1.4 / (Pr * 0.4) * gT[k];
         for (int i = 0; i < D; ++i) { double tau = mu * (gu[i][k] + gu[k][i] - (i == k ? 2. / 3 * dv : 0)); f[i + 1] -= tau; f[n - 1] -= q[i + 1] / q[0] * tau; }
      }
   };
   for (int i = 0; i < n; ++i) { d[i] = 0; }
   for (int k = 0; k < D; ++k) { for (int a = 0; a < 6; ++a) { double y[3] = {x[0], x[1], D > 2 ? x[2] : 0}, f[5]; y[k] += o[a] * h; flux(y, k, f); for (int i = 0; i < n; ++i) { d[i] += cf[a] * f[i] / h; } } }
}
static void exact_case(Case &c)
{
   auto &g = c.rng; double x[3] = {g.uni(0.05, 0.95), g.uni(0.05, 0.95), g.uni(0.05, 0.95)}, mu = g.coin(0.2) ? 0 : g.logu(1e-3, 1), Pr = g.uni(0.5, 1.5), d[5], s[5];
   c.invec("x", x, 3); c.in("mu", mu); c.in("Pr", Pr);
   // the exact size of the coordinate array: reads past it are seen by the sanitizer
   auto exact = [](auto f, int dim, const double *y, double *q) { std::vector<double> z(y, y + dim), r(dim + 2); f(dim, z.data(), r.data()); std::copy(r.begin(), r.end(), q); };
   auto e3 = [&](const double *y, double *q) { exact([](int dim, const double *a, double *b) { InviscidMMSExact<double>(dim, a, b); }, 3, y, q); };
   mms<3>(e3, x, 0, 1, d); calcInviscidMMS<double>(3, x, s); for (int i = 0; i < 5; ++i) { c.near(s[i], d[i], 1e-8 * (1 + std::fabs(d[i])), "inviscid-source-3D"); }
   auto v2 = [&](const double *y, double *q) { exact([](int dim, const double *a, double *b) { viscousMMSExact<double>(dim, a, b); }, 2, y, q); };
   mms<2>(v2, x, mu, Pr, d); calcViscousMMS<double>(2, mu, Pr, x, s); for (int i = 0; i < 4; ++i) { c.near(s[i], d[i], 1e-7 * (1 + mu) * (1 + std::fabs(d[i])), "viscous-source-2D"); }
   auto v3 = [&](const double *y, double *q) { exact([](int dim, const double *a, double *b) { viscousMMSExact<double>(dim, a, b); }, 3, y, q); };
   mms<3>(v3, x, mu, Pr, d); calcViscousMMS<double>(3, mu, Pr, x, s); for (int i = 0; i < 5; ++i) { c.near(s[i], d[i], 1e-7 * (1 + mu) * (1 + std::fabs(d[i])), "viscous-source-3D"); }
   // isentropic vortex: steady and isentropic
   double r = g.uni(1, 3), th = g.uni(0.02, 1.55), y[2] = {r * std::cos(th), r * std::sin(th)}; c.invec("xv", y, 2);
   auto iv = [&](const double *z, double *q) { double zz[2] = {z[0], z[1]}; calcIsentropicVortexState<double>(zz, q); };
   mms<2>(iv, y, 0, 1, d); for (int i = 0; i < 4; ++i) { c.near(d[i], 0, 1e-8, "vortex-is-steady"); }
   double q[4]; iv(y, q); L ql[4], q1[4]; double y1[2] = {1, 0}, qq[4]; iv(y1, qq); for (int i = 0; i < 4; ++i) { ql[i] = q[i]; q1[i] = qq[i]; }
   c.near(double(ref::s<2>(ql)), double(ref::s<2>(q1)), 1e-12, "vortex-is-isentropic"); c.near(q[1] * y[0] + q[2] * y[1], 0, 1e-12, "vortex-is-tangential");
   double yw[2] = {0, r}, yn[2] = {1e-9, r}, qa[4], qb[4]; iv(yw, qa); iv(yn, qb); for (int i = 0; i < 4; ++i) { c.near(qa[i], qb[i], 1e-7, "vortex-on-the-axis"); }
   { double n[2], f[4], f2[4], wk[4], w[4]; rdir<2>(g, n); auto s2 = rstate<2>(g); calcIsentropicVortexFlux<double>(y, n, s2.q, f); calcBoundaryFlux<double, 2>(n, q, s2.q, wk, f2); for (int i = 0; i < 4; ++i) { c.near(f[i], f2[i], 1e-10 * double(fscale<2>(n, s2) + 10 * (std::fabs(n[0]) + std::fabs(n[1]))), "vortex-boundary-flux"); w[i] = double(s2.w[i]); }
     calcIsentropicVortexFlux<double, true>(y, n, w, f); for (int i = 0; i < 4; ++i) { c.near(f[i], f2[i], 1e-10 * (1 + std::fabs(w[0])) * double(fscale<2>(n, s2) + 10 * (std::fabs(n[0]) + std::fabs(n[1]))), "vortex-boundary-flux-from-entropy-variables"); } }
   c.count("manufactured-points");
}
// logarithmic mean
static void logavg_case(Case &c)
{
   auto &g = c.rng; double a = g.logu(1e-3, 1e3), e = g.coin() ? g.uni(-0.2, 0.2) : std::pow(10., -g.uni(0, 15)) * (g.coin() ? 1 : -0.5), b = g.coin(0.2) ? g.logu(1e-3, 1e3) : a * (1 + e);
   if (g.coin(0.05)) { b = a; } if (g.coin(0.3)) { double u = 1e-3 * (1 + g.uni(-1e-3, 1e-3)), f = std::sqrt(u); b = a * (1 - f) / (1 + f); c.count("at-the-switch"); }
   c.in("a", a); c.in("b", b);
   L z = (L(a) - b) / (L(a) + b), F = 1, z2 = z * z, t = 1; if (std::fabs(z) > 0.1L) { F = std::log(L(a) / b) / (2 * z); } else { for (int k = 1; k < 20; ++k) { t *= z2; F += t / (2 * k + 1); } }
   c.rel(logavg<double>(a, b), double((L(a) + b) / (2 * F)), 3e-15, 0, "logarithmic-mean"); c.rel(logavg<double>(b, a), logavg<double>(a, b), 3e-15, 0, "logarithmic-mean-symmetric");
   double lo = std::min(a, b), hi = std::max(a, b), v = logavg<double>(a, b); c.check(v >= lo * (1 - 1e-14) && v <= hi * (1 + 1e-14), "logarithmic-mean-between"); c.count("means");
}

int main(int argc, char **argv)
{
   vh::init(argc, argv);
   if (vh::G().prop == "C14")
   {
      vh::run("logavg", 4000, logavg_case);
      vh::run("variables", 3000, [](Case &c) { int d = c.in("dim", c.rng.irand(1, 3)); d == 1 ? vars_case<1>(c) : d == 2 ? vars_case<2>(c) : vars_case<3>(c); });
      vh::run("interior", 6000, [](Case &c) { int d = c.in("dim", c.rng.irand(1, 3)); d == 1 ? flux_case<1>(c) : d == 2 ? flux_case<2>(c) : flux_case<3>(c); });
      vh::run("boundary", 4000, [](Case &c) { int d = c.in("dim", c.rng.irand(1, 3)); d == 1 ? bdr_case<1>(c) : d == 2 ? bdr_case<2>(c) : bdr_case<3>(c); });
   }
   else
   {
      vh::run("viscous", 4000, [](Case &c) { int d = c.in("dim", c.rng.irand(1, 3)); d == 1 ? visc_case<1>(c) : d == 2 ? visc_case<2>(c) : visc_case<3>(c); });
      vh::run("exact", 600, exact_case);
   }
   return vh::finish();
}
