// C16: element, face and boundary integrators of the flow solver: values against
// independently assembled weak forms, exact Jacobians, conservation, entropy.
#include "mfem.hpp"
#include "adept.h"
#include "sbp_fe.hpp"
#include "euler_integ.hpp"
#include "euler_integ_mms.hpp"
#include "navier_stokes_integ.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
#include "eulerref.hpp"
using namespace vh;
using namespace mfem;
using namespace miso;
using NFI = NonlinearFormIntegrator;
using Make = std::function<std::unique_ptr<NFI>(double)>;

template <class T> static std::unique_ptr<NFI> own(T *p) { odl::RegisterFaceEnergy(p); return std::unique_ptr<NFI>(p); }
static adept::Stack &stack() { static adept::Stack s; return s; }

enum Kind { VOL, BDR, FACE };
struct Elem
{
   Kind kind = VOL;
   const FiniteElement *e1 = nullptr, *e2 = nullptr;
   ElementTransformation *tr = nullptr; FaceElementTransformations *ftr = nullptr;
   int ndof() const { return e1->GetDof() + (kind == FACE ? e2->GetDof() : 0); }
   void vec(NFI &I, const Vector &u, Vector &r) const
   { if (kind == VOL) { I.AssembleElementVector(*e1, *tr, u, r); } else { I.AssembleFaceVector(*e1, kind == FACE ? *e2 : *e1, *ftr, u, r); } }
   void grad(NFI &I, const Vector &u, DenseMatrix &J) const
   { if (kind == VOL) { I.AssembleElementGrad(*e1, *tr, u, J); } else { I.AssembleFaceGrad(*e1, kind == FACE ? *e2 : *e1, *ftr, u, J); } }
   template <class T> double energy(T &I, const Vector &u) const
   {
      if (kind == VOL) { return I.GetElementEnergy(*e1, *tr, u); }
      const FiniteElement &b = kind == FACE ? *e2 : *e1;
      if constexpr (odl::has_face_energy<T>::value) { return I.GetFaceEnergy(*e1, b, *ftr, u); }
      else { return (*odl::FindFaceEnergy(&I))(*e1, b, *ftr, u); }
   }
};

/// directional derivative of the residual by Richardson-extrapolated differences;
/// returns an error estimate
template <class F> static double diffdir(F &&f, const Vector &u, const Vector &v, double h, Vector &d)
{
   Vector up(u), a, b, d1, d2; int n = u.Size();
   auto cd = [&](double s, Vector &o) {
      for (int i = 0; i < n; ++i) { up(i) = u(i) + s * v(i); } f(up, a);
      for (int i = 0; i < n; ++i) { up(i) = u(i) - s * v(i); } f(up, b);
      o = a; o -= b; o /= 2 * s; };
   Vector d3, e1, e2; cd(h, d1); cd(h / 2, d2); cd(h / 4, d3);
   e1.SetSize(d1.Size()); e2.SetSize(d1.Size()); d.SetSize(d1.Size());
   for (int i = 0; i < d1.Size(); ++i)
   { e1(i) = (4 * d2(i) - d1(i)) / 3; e2(i) = (4 * d3(i) - d2(i)) / 3; d(i) = (16 * e2(i) - e1(i)) / 15; }
   double e = 0; for (int i = 0; i < d.Size(); ++i) { e = std::max(e, fabs(d(i) - e2(i))); }
   cd(h / 64, d1); for (int i = 0; i < d.Size(); ++i) { e = std::max(e, fabs(d(i) - d1(i))); } return e; // a kink nearer than h/4
}
static Vector rvec(Rng &g, const Vector &u, double s = 1)
{ Vector v(u.Size()); for (int i = 0; i < v.Size(); ++i) { v(i) = g.uni(-1, 1) * s * std::max(0.1, fabs(u(i))); } return v; }

/// everything every integrator must satisfy
static bool judge(Case &c, const std::string &nm, const Make &mk, const Elem &E, const Vector &u, Vector &R,
                  bool jac = true, double fdscale = 1, bool alpha = true)
{
   auto I = mk(1.0); Vector u0(u), R2(3); R.SetSize(2); R = NAN; R2 = 7.0;
   E.vec(*I, u, R);
   int n = u.Size();
   if (!c.check(R.Size() == n, nm + "-size")) { return false; }
   double s = R.Normlinf(); if (!c.check(std::isfinite(s), nm + "-finite")) { return false; }
   for (int i = 0; i < n; ++i) { if (!c.check(u(i) == u0(i), nm + "-input-untouched")) { return false; } }
   // no memory of earlier calls
   Vector w(u); for (int i = 0; i < n; ++i) { w(i) *= 1.01; } E.vec(*I, w, R2); E.vec(*I, u, R2);
   for (int i = 0; i < n; ++i) { if (!c.near(R2(i), R(i), 1e-12 * (1 + s), nm + "-repeatable")) { break; } }
   double a = c.rng.uni(-2, 2); if (fabs(a) < 0.1) { a = 0.7; }
   auto Ia = mk(a);
   if (alpha)
   {
      E.vec(*Ia, u, R2);
      for (int i = 0; i < n; ++i) { if (!c.near(R2(i), a * R(i), 1e-12 * (1 + fabs(a) * s), nm + "-scaled-by-its-coefficient")) { break; } }
   }
   if (!jac) { return true; }
   DenseMatrix J(2); J = 3.0; E.grad(*I, u, J);
   if (!c.check(J.Height() == n && J.Width() == n, nm + "-jacobian-size")) { return false; }
   if (alpha)
   {
      DenseMatrix Ja; E.grad(*Ia, u, Ja); double m = J.MaxMaxNorm(), er = 0;
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { er = std::max(er, fabs(Ja(i, j) - a * J(i, j))); } }
      c.near(er, 0, 1e-12 * (1 + fabs(a) * m), nm + "-jacobian-scaled-by-its-coefficient");
   }
   for (int k = 0; k < 2; ++k)
   {
      Vector v = rvec(c.rng, u); if (k == 1) { int j = c.rng.irand(0, n - 1); double t = v(j); v = 0.0; v(j) = t; }
      Vector d, Jv(n); J.Mult(v, Jv);
      double e = diffdir([&](const Vector &x, Vector &r) { E.vec(*I, x, r); }, u, v, 4e-3 * fdscale, d);
      double sc = std::max(d.Normlinf(), 1e-3 * (s + J.MaxMaxNorm()) * v.Normlinf()) + 1e-12;
      if (!(e < 2e-6 * sc)) { c.count("kinks-or-rough-differences"); continue; }
      double er = 0; for (int i = 0; i < n; ++i) { er = std::max(er, fabs(d(i) - Jv(i))); }
      c.near(er, 0, 2e-5 * sc, nm + "-jacobian-is-the-derivative"); c.count("jacobian-directions");
   }
   return true;
}
/// gradient of a functional: AssembleXVector must be its derivative
template <class T> static void functional(Case &c, const std::string &nm, T &I, const Elem &E, const Vector &u)
{
   Vector g(2), d; g = NAN; E.vec(I, u, g); Vector v = rvec(c.rng, u);
   if (!c.check(g.Size() == u.Size(), nm + "-gradient-size")) { return; }
   double e = diffdir([&](const Vector &x, Vector &r) { r.SetSize(1); r(0) = E.energy(I, x); }, u, v, 4e-3, d);
   double sc = fabs(E.energy(I, u)) + fabs(d(0)) + 1e-10;
   if (!(e < 1e-6 * sc)) { c.count("kinks-or-rough-differences"); return; }
   c.near(g * v, d(0), 1e-5 * sc, nm + "-gradient-is-the-derivative"); c.count("functional-gradients");
}

template <int D> struct Problem
{
   std::unique_ptr<Mesh> mesh; std::unique_ptr<FiniteElementCollection> fec; std::unique_ptr<FiniteElementSpace> fes;
   int p; double spread; bool dsbp;
   Problem(Case &c, bool disc, int nmax = 2)
   {
      auto &g = c.rng; dsbp = disc;
      p = c.in("degree", D == 3 ? g.irand(0, 1) : D == 2 ? (g.coin(0.7) ? g.irand(0, 2) : g.irand(3, 4)) : g.irand(0, 4));
      mesh = vmesh::random_mesh(c, D, nmax);
      if (D != 2) { disc = dsbp = false; }
      if (disc) { fec.reset(new DSBPCollection(p, D)); } else { fec.reset(new SBPCollection(p, D)); }
      fes.reset(new FiniteElementSpace(mesh.get(), fec.get(), D + 2, Ordering::byVDIM));
      spread = g.coin(0.3) ? 0.5 : 0.1;
   }
   /// conservative states at n nodes, byNODES
   Vector states(Case &c, int n)
   {
      auto &g = c.rng; State<D> b = rstate<D>(g, 1.0); Vector u(n * (D + 2));
      double p0 = double(ref::p<D>(b.ql));
      for (int i = 0; i < n; ++i)
      {
         double r = b.q[0] * (1 + spread * g.uni(-1, 1)), k = 0; u(i) = r;
         for (int d = 0; d < D; ++d) { double v = b.q[d + 1] / b.q[0] + spread * g.uni(-1, 1); u((d + 1) * n + i) = r * v; k += v * v; }
         u((D + 1) * n + i) = p0 * (1 + spread * g.uni(-1, 1)) / 0.4 + 0.5 * r * k;
      }
      c.invec("q0", b.q, D + 2); return u;
   }
};
template <int D> Vector entvars(const Vector &u, int n)
{
   Vector w(u); for (int i = 0; i < n; ++i) { L q[D + 2], x[D + 2]; for (int s = 0; s < D + 2; ++s) { q[s] = u(s * n + i); } ref::W<D>(q, x); for (int s = 0; s < D + 2; ++s) { w(s * n + i) = double(x[s]); } }
   return w;
}
/// sum over states and nodes of w^T R
template <int D> double contract(const Vector &w, const Vector &R) { return w * R; }

static void sums(Case &c, const std::string &nm, const Vector &R, int n, int ns, double tol)
{ for (int s = 0; s < ns; ++s) { double t = 0; for (int i = 0; i < n; ++i) { t += R(s * n + i); } c.near(t, 0, tol, nm + "-conserves"); } }

static DenseMatrix adjug(ElementTransformation &T, const IntegrationPoint &ip)
{ T.SetIntPoint(&ip); DenseMatrix J(T.Jacobian()); int d = J.Height(); DenseMatrix A(d); if (d == 1) { A(0, 0) = 1; return A; } A = J; double det = J.Det(); A.Invert(); A *= det; return A; }

template <int D> static void volume(Case &c)
{
   Problem<D> P(c, c.rng.coin(0.3)); auto &g = c.rng; auto &st = stack();
   int e = g.irand(0, P.mesh->GetNE() - 1); IsoparametricTransformation T; P.mesh->GetElementTransformation(e, &T);
   auto &fe = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(e)); int n = fe.GetDof(); const int ns = D + 2;
   Elem E; E.e1 = &fe; E.tr = &T;
   Vector u = P.states(c, n), w = entvars<D>(u, n), R, Rw;
   std::vector<DenseMatrix> A; std::vector<double> HJ(n);
   for (int i = 0; i < n; ++i) { A.push_back(adjug(T, fe.GetNodes().IntPoint(i))); T.SetIntPoint(&fe.GetNodes().IntPoint(i)); HJ[i] = fe.getDiagNormEntry(i) * T.Jacobian().Det(); }
   std::vector<DenseMatrix> Q(D, DenseMatrix(n)); for (int d = 0; d < D; ++d) { for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { Q[d](i, j) = fe.getQ(d, i, j); } } }
   auto state = [&](int i, L *q) { for (int s = 0; s < ns; ++s) { q[s] = u(s * n + i); } };
   // Euler
   if (judge(c, "euler", [&](double a) { return own(new EulerIntegrator<D>(st, a)); }, E, u, R))
   {
      Vector ex(n * ns), mag(n * ns); ex = 0.0; mag = 0.0;
      for (int d = 0; d < D; ++d) { for (int i = 0; i < n; ++i)
      { L q[ns], f[ns], nn[D]; state(i, q); for (int k = 0; k < D; ++k) { nn[k] = A[i](d, k); } ref::F<D>(nn, q, f);
        for (int j = 0; j < n; ++j) { for (int s = 0; s < ns; ++s) { ex(s * n + j) -= Q[d](i, j) * double(f[s]); mag(s * n + j) += fabs(Q[d](i, j) * double(f[s])); } } } }
      for (int i = 0; i < n * ns; ++i) { c.near(R(i), ex(i), 1e-12 * (1e-3 + mag.Normlinf()), "euler-weak-form"); }
      sums(c, "euler", R, n, ns, 1e-11 * (1e-3 + mag.Normlinf()));
   }
   // Ismail-Roe, in conservative and entropy variables
   if (judge(c, "ismail-roe", [&](double a) { return own(new IsmailRoeIntegrator<D, false>(st, a)); }, E, u, R))
   {
      double m = 0; // scale
      Vector ex(n * ns); ex = 0.0; double psi = 0;
      for (int i = 0; i < n; ++i)
      {
         L qi[ns]; state(i, qi); double a[ns]; for (int s = 0; s < ns; ++s) { a[s] = double(qi[s]); }
         for (int d = 0; d < D; ++d)
         {
            double Erow = 0; 
            for (int j = 0; j < n; ++j)
            {
               // physical-space skew part: Q_ij^d averaged over both metrics
               double S = 0; for (int k = 0; k < D; ++k) { S += A[i](k, d) * Q[k](i, j) - A[j](k, d) * Q[k](j, i); }
               L qj[ns]; state(j, qj); double b[ns], f[ns]; for (int s = 0; s < ns; ++s) { b[s] = double(qj[s]); }
               if (j != i)
               {
                  calcIsmailRoeFlux<double, D>(d, a, b, f);
                  for (int s = 0; s < ns; ++s) { ex(s * n + i) += S * f[s]; m = std::max(m, fabs(S * f[s])); }
                  Erow += S;
               }
            }
            psi += Erow * a[1 + d];    // entropy potential in direction d is rho*u_d
         }
      }
      for (int i = 0; i < n * ns; ++i) { c.near(R(i), ex(i), 1e-11 * (1e-3 + m), "ismail-roe-dyadic-form"); }
      sums(c, "ismail-roe", R, n, ns, 1e-11 * (1e-3 + m) * n);
      double ent = w * R, ws = 0; for (int i = 0; i < n * ns; ++i) { ws += fabs(w(i) * R(i)) + fabs(w(i)) * m; }
      c.near(ent, psi, 1e-10 * (1e-3 + ws), "ismail-roe-entropy-change-is-the-boundary-potential");
      IsmailRoeIntegrator<D, false> I(st); c.near(E.energy(I, u), ent, 1e-12 * (1e-3 + ws), "ismail-roe-entropy-functional");
      if (judge(c, "ismail-roe-ev", [&](double a) { return own(new IsmailRoeIntegrator<D, true>(st, a)); }, E, w, Rw, true, 0.2))
      {
         for (int i = 0; i < n * ns; ++i) { c.near(Rw(i), R(i), 1e-9 * (1e-3 + m), "ismail-roe-same-in-entropy-variables"); }
         IsmailRoeIntegrator<D, true> Iw(st); c.near(E.energy(Iw, w), ent, 1e-9 * (1e-3 + ws), "ismail-roe-entropy-functional-ev");
      }
   }
   // LPS
   double coef = g.uni(0.2, 3);
   auto lps = [&](double a) { return own(new EntStableLPSIntegrator<D, false>(st, a, coef)); };
   if (judge(c, "lps", lps, E, u, R))
   {
      // reference: coef * P^T H Lambda dq/dw P w, P = I - V (V^T H V)^-1 V^T H projected on physical polynomials up to degree p
      Vector ex(n * ns), Pw(n * ns); DenseMatrix Pm(n); fe.getProjOperator(Pm);
      double m = 0;
      for (int s = 0; s < ns; ++s) { Vector x(w.GetData() + s * n, n), y(Pw.GetData() + s * n, n); Pm.Mult(x, y); }
      Vector z(n * ns);
      for (int i = 0; i < n; ++i)
      {
         double q[ns], v[ns], o[ns]; for (int s = 0; s < ns; ++s) { q[s] = u(s * n + i); v[s] = Pw(s * n + i); }
         calcdQdWProduct<double, D>(q, v, o);
         L ql[ns]; state(i, ql); L pr = ref::p<D>(ql), cs = std::sqrt(1.4L * pr / ql[0]); double sp = 0;
         for (int r = 0; r < D; ++r) { L U = 0, nn = 0; for (int k = 0; k < D; ++k) { U += A[i](k, r) * ql[1 + k] / ql[0]; nn += L(A[i](k, r)) * A[i](k, r); } sp += double((std::fabs(U) + cs * std::sqrt(nn)) / D); }
         for (int s = 0; s < ns; ++s) { z(s * n + i) = coef * sp * fe.getDiagNormEntry(i) * o[s]; m = std::max(m, fabs(z(s * n + i))); }
      }
      (void)m;
      for (int s = 0; s < ns; ++s) { Vector x(z.GetData() + s * n, n), y(ex.GetData() + s * n, n); Pm.MultTranspose(x, y); }
      auto scale = [&](const Vector &uu, const Vector &ww) {
         double m = 0, wm = ww.Normlinf();
         for (int i = 0; i < n; ++i) { double q[ns], v[ns], o[ns]; for (int s = 0; s < ns; ++s) { q[s] = uu(s * n + i); }
            for (int t = 0; t < ns; ++t) { for (int s = 0; s < ns; ++s) { v[s] = s == t ? wm : 0; } calcdQdWProduct<double, D>(q, v, o); for (int s = 0; s < ns; ++s) { m = std::max(m, fabs(o[s])); } } }
         return 1e-3 + m * coef; };
      double big = scale(u, w);
      { for (int i = 0; i < n * ns; ++i) { c.near(R(i), ex(i), 1e-11 * big, "lps-form"); } }
      sums(c, "lps", R, n, ns, 1e-10 * big);
      c.check(w * R >= -1e-10 * big, "lps-dissipates-entropy");
      EntStableLPSIntegrator<D, false> I(st, 1.0, coef); c.near(E.energy(I, u), w * R, 1e-9 * big, "lps-entropy-functional");
      if (judge(c, "lps-ev", [&](double a) { return own(new EntStableLPSIntegrator<D, true>(st, a, coef)); }, E, w, Rw, true, 0.2))
      { for (int i = 0; i < n * ns; ++i) { c.near(Rw(i), R(i), 1e-9 * big, "lps-same-in-entropy-variables"); } }
      // polynomial entropy variables of degree <= p are left alone
      Vector wl(w); std::vector<double> sl(ns); for (int s = 0; s < ns; ++s) { sl[s] = P.p > 0 ? 0.05 * std::min(1.0, fabs(w((ns - 1) * n))) * g.uni(-1, 1) : 0; }
      for (int i = 0; i < n; ++i) { Vector x(D); T.Transform(fe.GetNodes().IntPoint(i), x); for (int s = 0; s < ns; ++s) { wl(s * n + i) = w(s * n) + sl[s] * (x.Sum()); } }
      EntStableLPSIntegrator<D, true> Il(st, 1.0, coef); Vector Rl, ul(u); E.vec(Il, wl, Rl);
      for (int i = 0; i < n; ++i) { double a[ns], b[ns]; for (int s = 0; s < ns; ++s) { a[s] = wl(s * n + i); } calcConservativeVars<double, D, true>(a, b); for (int s = 0; s < ns; ++s) { ul(s * n + i) = b[s]; } }
      big = scale(ul, wl);
      for (int i = 0; i < n * ns; ++i) { c.near(Rl(i), 0, 1e-9 * big, "lps-leaves-polynomials-alone"); }
   }
   // mass
   judge(c, "mass", [&](double a) { return own(new miso::MassIntegrator<D, false>(st, a)); }, E, u, R);
   for (int i = 0; i < n; ++i) { for (int s = 0; s < ns; ++s) { c.near(R(s * n + i), HJ[i] * u(s * n + i), 1e-12 * fabs(HJ[i]) * u.Normlinf(), "mass-form"); } }
   if (judge(c, "mass-ev", [&](double a) { return own(new miso::MassIntegrator<D, true>(st, a)); }, E, w, Rw, true, 0.2))
   { for (int i = 0; i < n * ns; ++i) { c.near(Rw(i), R(i), 1e-10 * (u.Normlinf() * HJ[i % n]), "mass-same-in-entropy-variables"); } }
   // total entropy
   {
      EntropyIntegrator<D, false> I(st); EntropyIntegrator<D, true> Iw(st); double ex = 0, mg = 0;
      for (int i = 0; i < n; ++i) { L q[ns]; state(i, q); ex += HJ[i] * double(ref::S<D>(q)); mg += HJ[i] * fabs(double(ref::S<D>(q))) + HJ[i]; }
      c.near(E.energy(I, u), ex, 1e-12 * mg, "entropy-integral"); c.near(E.energy(Iw, w), ex, 1e-9 * mg, "entropy-integral-ev");
   }
   // viscous
   double Re = g.logu(0.5, 500), Pr = g.uni(0.5, 1), mu = g.coin() ? -1.0 : g.uni(0.5, 2);
   if (judge(c, "viscous", [&](double a) { return own(new ESViscousIntegrator<D>(st, Re, Pr, mu, a)); }, E, u, R))
   {
      double big = 0;
      Vector ex(n * ns); ex = 0.0;
      std::vector<DenseMatrix> Dx(D, DenseMatrix(n));
      for (int d = 0; d < D; ++d) { for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j)
      { double q = 0; for (int k = 0; k < D; ++k) { q += i == j ? A[i](k, d) * Q[k](i, i) : 0.5 * (A[i](k, d) * Q[k](i, j) - A[j](k, d) * Q[k](j, i)); } Dx[d](i, j) = q; } } }
      for (int i = 0; i < n; ++i)
      {
         double q[ns]; for (int s = 0; s < ns; ++s) { q[s] = u(s * n + i); }
         DenseMatrix Dw(ns, D); Dw = 0.0;
         for (int d = 0; d < D; ++d) { for (int j = 0; j < n; ++j) { double qe = Dx[d](i, j); for (int s = 0; s < ns; ++s) { Dw(s, d) += qe * w(s * n + j) / HJ[i]; } } }
         double m = (mu < 0 ? calcSutherlandViscosity<double, D>(q) : mu) / Re;
         for (int d = 0; d < D; ++d)
         {
            double f[ns]; for (double &x : f) { x = 0; } applyViscousScaling<double, D>(d, m, Pr, q, Dw.GetData(), f);
            for (int k = 0; k < n; ++k) { double qe = Dx[d](i, k); for (int s = 0; s < ns; ++s) { ex(s * n + k) += qe * f[s]; big = std::max(big, fabs(qe * f[s])); } }
         }
      }
      big += 1e-6;
      c.check(w * R >= -1e-9 * big * w.Normlinf(), "viscous-dissipates-entropy");
      ESViscousIntegrator<D> I(st, Re, Pr, mu); c.near(E.energy(I, u), w * R, 1e-9 * big * w.Normlinf(), "viscous-entropy-functional");
      for (int i = 0; i < n * ns; ++i) { if (!c.near(R(i), ex(i), 1e-10 * big, "viscous-form")) { break; } }
      if (!(D == 2 && P.p == 0))
      {
         sums(c, "viscous", R, n, ns, 1e-10 * big * n);
         // a uniform state produces nothing
         Vector uc(u); for (int i = 0; i < n; ++i) { for (int s = 0; s < ns; ++s) { uc(s * n + i) = u(s * n); } }
         Vector Rc; E.vec(I, uc, Rc); for (int i = 0; i < n * ns; ++i) { c.near(Rc(i), 0, 1e-9 * big, "viscous-uniform-state"); }
         // entropy variables linear in space: exact derivative, constant per direction; test with linear functions
         if (P.p > 0)
         {
            DenseMatrix G(ns, D); for (int s = 0; s < ns; ++s) { for (int d = 0; d < D; ++d) { G(s, d) = 0.03 * std::min(1.0, fabs(w((ns - 1) * n))) * g.uni(-1, 1); } }
            Vector wl(w), ul(u); std::vector<Vector> X(n, Vector(D));
            for (int i = 0; i < n; ++i) { T.Transform(fe.GetNodes().IntPoint(i), X[i]); for (int s = 0; s < ns; ++s) { double x = w(s * n); for (int d = 0; d < D; ++d) { x += G(s, d) * X[i](d); } wl(s * n + i) = x; } }
            for (int i = 0; i < n; ++i) { double a[ns], b[ns]; for (int s = 0; s < ns; ++s) { a[s] = wl(s * n + i); } calcConservativeVars<double, D, true>(a, b); for (int s = 0; s < ns; ++s) { ul(s * n + i) = b[s]; } }
            Vector Rl; E.vec(I, ul, Rl);
            // sum_i x_d(i) R(i,s) = integral of the flux in direction d
            DenseMatrix fx(ns, D); fx = 0.0; double fm = 1e-9;
            for (int i = 0; i < n; ++i)
            {
               double q[ns]; for (int s = 0; s < ns; ++s) { q[s] = ul(s * n + i); } double m = (mu < 0 ? calcSutherlandViscosity<double, D>(q) : mu) / Re;
               for (int d = 0; d < D; ++d) { double f[ns]; for (double &x : f) { x = 0; } applyViscousScaling<double, D>(d, m, Pr, q, G.GetData(), f); for (int s = 0; s < ns; ++s) { fx(s, d) += HJ[i] * f[s]; fm += fabs(HJ[i] * f[s]); } }
            }
            for (int s = 0; s < ns; ++s) { for (int d = 0; d < D; ++d) { double t = 0; for (int i = 0; i < n; ++i) { t += X[i](d) * Rl(s * n + i); } c.near(t, fx(s, d), 1e-8 * fm, "viscous-moment-of-a-linear-field"); } }
            c.count("linear-fields");
         }
      }
   }
   // manufactured sources
   if (D >= 2)
   {
      auto src = [&](const std::string &nm, const Make &mk, const std::function<void(const double *, double *)> &f) {
         if (!judge(c, nm, mk, E, u, R)) { return; }
         for (int i = 0; i < n; ++i) { Vector x(D); T.Transform(fe.GetNodes().IntPoint(i), x); double o[ns]; f(x.GetData(), o);
            for (int s = 0; s < ns; ++s) { c.near(R(s * n + i), HJ[i] * o[s], 1e-12 * (fabs(HJ[i] * o[s]) + 1e-9), nm + "-form"); } } };
      src("viscous-mms", [&](double a) { return own(new NavierStokesMMSIntegrator(Re, Pr, a, D)); }, [&](const double *x, double *o) { calcViscousMMS<double>(D, 1 / Re, Pr, x, o); });
      src("inviscid-mms", [&](double a) { return own(new InviscidMMSIntegrator(a, D)); }, [&](const double *x, double *o) { calcInviscidMMS<double>(D, x, o); });
   }
   c.count("elements"); c.count(D == 1 ? "elements-1d" : D == 2 ? "elements-2d" : "elements-3d");
}

/// nodes of element fe at the face's nodes, found from physical coordinates
template <int D> static std::vector<int> facenodes(Case &c, const FiniteElement &fe, ElementTransformation &T, const FiniteElement &ff, FaceElementTransformations &F)
{
   std::vector<int> r;
   for (int k = 0; k < ff.GetDof(); ++k)
   {
      Vector y(D), x(D); F.Face->SetIntPoint(&ff.GetNodes().IntPoint(k)); F.Face->Transform(ff.GetNodes().IntPoint(k), y);
      int best = -1; double bd = 1e300; for (int i = 0; i < fe.GetDof(); ++i) { T.Transform(fe.GetNodes().IntPoint(i), x); double d = x.DistanceTo(y.GetData()); if (d < bd) { bd = d; best = i; } }
      c.check(bd < 1e-9, "face-nodes-are-element-nodes"); r.push_back(best);
   }
   return r;
}
template <int D> static void normal(FaceElementTransformations &F, const IntegrationPoint &ip, double *n)
{
   F.Face->SetIntPoint(&ip); const DenseMatrix &J = F.Face->Jacobian();
   if (D == 2) { n[0] = J(1, 0); n[1] = -J(0, 0); }
   else { n[0] = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1); n[1] = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1); n[2] = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1); }
}

template <int D> static void boundary(Case &c)
{
   Problem<D> P(c, c.rng.coin(0.3)); auto &g = c.rng; auto &st = stack(); const int ns = D + 2;
   if (g.coin(0.5)) { for (int i = 0; i < P.mesh->GetNV(); ++i) { for (int d = 0; d < D; ++d) { P.mesh->GetVertex(i)[d] += 1; } } }
   int be = g.irand(0, P.mesh->GetNBE() - 1); auto *F = P.mesh->GetBdrFaceTransformations(be);
   if (!F) { return; }
   auto &fe = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(F->Elem1No)); int n = fe.GetDof();
   const FiniteElement &ff = *P.fec->FiniteElementForGeometry(D == 2 ? Geometry::SEGMENT : Geometry::TRIANGLE);
   Elem E; E.kind = BDR; E.e1 = &fe; E.ftr = F;
   Vector u = P.states(c, n), w = entvars<D>(u, n), R, Rw;
   State<D> far = rstate<D>(g, 1.0); c.invec("far", far.q, ns); Vector qf(far.q, ns);
   auto fn = facenodes<D>(c, fe, *F->Elem1, ff, *F);
   auto node = [&](const Vector &x, int i) { std::vector<double> q(ns); for (int s = 0; s < ns; ++s) { q[s] = x(s * n + i); } return q; };
   using FluxFn = std::function<void(const double *, double *, const std::vector<double> &, double *)>;
   auto ref = [&](const FluxFn &f, Vector &ex, double &m) {
      ex.SetSize(n * ns); ex = 0.0; m = 1e-6;
      for (int k = 0; k < ff.GetDof(); ++k)
      {
         double nn[D], fl[ns]; const auto &ip = ff.GetNodes().IntPoint(k); normal<D>(*F, ip, nn); Vector x(D); F->Face->Transform(ip, x);
         auto q = node(u, fn[k]); f(x.GetData(), nn, q, fl);
         for (int s = 0; s < ns; ++s) { ex(s * n + fn[k]) += ip.weight * fl[s]; m = std::max(m, fabs(ip.weight * fl[s])); }
      } };
   auto cmp = [&](const std::string &nm, const Vector &A, const FluxFn &f, double tol = 1e-12) {
      Vector ex; double m; ref(f, ex, m); for (int i = 0; i < n * ns; ++i) { if (!c.near(A(i), ex(i), tol * m, nm + "-form")) { break; } } };
   auto same = [&](const std::string &nm, const Vector &A, const Vector &B) { double m = A.Normlinf() + 1e-6; for (int i = 0; i < n * ns; ++i) { if (!c.near(B(i), A(i), 1e-9 * m, nm + "-same-in-entropy-variables")) { break; } } };
   auto both = [&](const std::string &nm, const Make &mk, const Make &mkw, const FluxFn &f, bool smooth = true) {
      if (!judge(c, nm, mk, E, u, R)) { return; }
      cmp(nm, R, f);
      auto I = mk(1.0); double sc = 1e-6; for (int i = 0; i < n * ns; ++i) { sc += fabs(w(i) * R(i)); }
      c.near(E.energy(*I, u), w * R, 1e-11 * sc, nm + "-entropy-functional");
      auto Ia = mk(-0.6); c.near(E.energy(*Ia, u), -0.6 * (w * R), 1e-11 * sc, nm + "-functional-scaled-by-its-coefficient");
      if (mkw && judge(c, nm + "-ev", mkw, E, w, Rw, true, 0.2)) { same(nm, R, Rw); auto Iw = mkw(1.0); c.near(E.energy(*Iw, w), w * R, 1e-9 * sc, nm + "-entropy-functional-ev"); } (void)smooth; };
   both("slip-wall", [&](double a) { return own(new SlipWallBC<D, false>(st, P.fec.get(), a)); }, [&](double a) { return own(new SlipWallBC<D, true>(st, P.fec.get(), a)); },
        [&](const double *x, double *nn, const std::vector<double> &q, double *f) { calcSlipWallFlux<double, D>(x, nn, q.data(), f); });
   both("far-field", [&](double a) { return own(new FarFieldBC<D, false>(st, P.fec.get(), qf, a)); }, [&](double a) { return own(new FarFieldBC<D, true>(st, P.fec.get(), qf, a)); },
        [&](const double *, double *nn, const std::vector<double> &q, double *f) { double wk[ns]; calcFarFieldFlux<double, D, false>(nn, far.q, q.data(), wk, f); });
   bool invortex = true;
   for (int i : fn) { Vector x(D); F->Elem1->Transform(fe.GetNodes().IntPoint(i), x); double q[ns]; if constexpr (D == 2) { calcIsentropicVortexState<double>(x.GetData(), q); } else { q[0] = 1; } invortex = invortex && std::isfinite(q[0]) && std::isfinite(q[ns - 1]); }
   if constexpr (D == 2) if (invortex)
   {
      c.count("vortex-faces");
      both("vortex", [&](double a) { return own(new IsentropicVortexBC<D, false>(st, P.fec.get(), a)); }, [&](double a) { return own(new IsentropicVortexBC<D, true>(st, P.fec.get(), a)); },
           [&](const double *x, double *nn, const std::vector<double> &q, double *f) { calcIsentropicVortexFlux<double, false>(x, nn, q.data(), f); });
   }
   // entropy-conserving forced boundary: state depends on time and place
   double tm = g.uni(0, 3);
   auto bc = [&](double t, const Vector &x, Vector &q) { q.SetSize(ns); double r = 1 + 0.2 * sin(t + x(0)); q(0) = r; double k = 0; for (int d = 0; d < D; ++d) { double v = 0.3 * cos(t + d + x(d)); q(d + 1) = r * v; k += v * v; } q(D + 1) = 1.5 + 0.5 * r * k; };
   MISOInputs tin{{"time", tm}};
   both("forced", [&](double a) { auto *I = new EntropyConserveBC<D, false>(st, P.fec.get(), bc, a); setInputs(*I, tin); return own(I); },
        [&](double a) { auto *I = new EntropyConserveBC<D, true>(st, P.fec.get(), bc, a); setInputs(*I, tin); return own(I); },
        [&](const double *x, double *nn, const std::vector<double> &q, double *f) { Vector qb, xx(const_cast<double *>(x), D); bc(tm, xx, qb); double U = 0; for (int d = 0; d < D; ++d) { U += qb(d + 1) / qb(0) * nn[d]; } L ql[ns]; for (int s = 0; s < ns; ++s) { ql[s] = qb(s); }
           calcBoundaryFluxEC<double, D>(nn, qb.GetData(), q.data(), U * double(ref::S<D>(ql)), f); });
   // actuator
   Vector xc(D), xc2(D); for (int d = 0; d < D; ++d) { xc(d) = g.uni(0, 1); xc2(d) = g.uni(0, 1); } double ctrl = g.uni(-0.3, 0.3), len = g.uni(0.3, 1);
   auto gauss = [](double l, const Vector &a, const Vector &b) { double r = 0; for (int i = 0; i < a.Size(); ++i) { r += (a(i) - b(i)) * (a(i) - b(i)); } return exp(-r / (l * l)); };
   MISOInputs cin{{"control", ctrl}, {"x-actuator", xc2}};
   both("actuator", [&](double a) { auto *I = new ControlBC<D, false>(st, P.fec.get(), gauss, xc, len, a); setInputs(*I, cin); return own(I); },
        [&](double a) { auto *I = new ControlBC<D, true>(st, P.fec.get(), gauss, xc, len, a); setInputs(*I, cin); return own(I); },
        [&](const double *x, double *nn, const std::vector<double> &q, double *f) { Vector xx(const_cast<double *>(x), D); calcControlFlux<double, D>(nn, q.data(), ctrl * gauss(len, xc2, xx), f); });
   // functionals of the boundary state
   {
      Vector fd(D); for (int d = 0; d < D; ++d) { fd(d) = g.uni(-1, 1); }
      PressureForce<D, false> I(st, P.fec.get(), fd); PressureForce<D, true> Iw(st, P.fec.get(), fd);
      Vector ex; double m; ref([&](const double *x, double *nn, const std::vector<double> &q, double *f) { calcSlipWallFlux<double, D>(x, nn, q.data(), f); }, ex, m);
      double t = 0; for (int i = 0; i < n; ++i) { for (int d = 0; d < D; ++d) { t += fd(d) * ex((d + 1) * n + i); } }
      c.near(E.energy(I, u), t, 1e-11 * m * ff.GetDof(), "pressure-force-value"); c.near(E.energy(Iw, w), t, 1e-9 * m * ff.GetDof(), "pressure-force-value-ev");
      functional(c, "pressure-force", I, E, u); functional(c, "pressure-force-ev", Iw, E, w);
      BoundaryEntropy<D, false> B(st, P.fec.get(), gauss, xc, len); BoundaryEntropy<D, true> Bw(st, P.fec.get(), gauss, xc, len); setInputs(B, cin); setInputs(Bw, cin);
      SupplyRate<D, false> S(st, P.fec.get(), qf);
      double b = 0, bm = 1e-6, sr = 0, sm = 1e-6;
      for (int k = 0; k < ff.GetDof(); ++k)
      {
         double nn[D], fl[ns], wk[ns]; const auto &ip = ff.GetNodes().IntPoint(k); normal<D>(*F, ip, nn); Vector x(D); F->Face->Transform(ip, x); auto q = node(u, fn[k]); auto wv = node(w, fn[k]);
         L ql[ns]; for (int s = 0; s < ns; ++s) { ql[s] = q[s]; } double dA = 0, un = 0; for (int d = 0; d < D; ++d) { dA += nn[d] * nn[d]; un += nn[d] * q[d + 1]; } dA = sqrt(dA);
         double pr = double(ref::p<D>(ql)), v = ip.weight * gauss(len, xc2, x) * dA * (double(ref::S<D>(ql)) + euler::rho_ref * (pr - euler::press_ref) / euler::press_ref); b += v; bm += fabs(v) + ip.weight * dA;
         calcFarFieldFlux2<double, D, false>(nn, far.q, q.data(), wk, fl); double wf = 0; for (int s = 0; s < ns; ++s) { wf += wv[s] * fl[s]; sm += fabs(wv[s] * fl[s]); } sr += ip.weight * (un - wf);
      }
      c.near(E.energy(B, u), b, 1e-11 * bm, "boundary-entropy-value"); c.near(E.energy(Bw, w), b, 1e-9 * bm, "boundary-entropy-value-ev");
      c.near(E.energy(S, u), sr, 1e-11 * sm, "supply-rate-value");   // entropy variables: declared unsupported (calcFarFieldFlux2 throws)
   }
   // viscous boundary conditions
   double Re = g.logu(0.5, 500), Pr = g.uni(0.5, 1), mu = g.coin() ? -1.0 : g.uni(0.5, 2);
   std::vector<DenseMatrix> A; for (int i = 0; i < n; ++i) { A.push_back(adjug(*F->Elem1, fe.GetNodes().IntPoint(i))); }
   auto Dw = [&](int i, DenseMatrix &G, double &jac) {
      F->Elem1->SetIntPoint(&fe.GetNodes().IntPoint(i)); jac = F->Elem1->Jacobian().Det(); G.SetSize(ns, D); G = 0.0;
      for (int d = 0; d < D; ++d) { for (int j = 0; j < n; ++j) { double q = fe.getQEntry(d, i, j, A[i], A[j]) / (fe.getDiagNormEntry(i) * jac); for (int s = 0; s < ns; ++s) { G(s, d) += q * w(s * n + j); } } } };
   auto visc = [&](const std::vector<double> &q) { return (mu < 0 ? calcSutherlandViscosity<double, D>(q.data()) : mu) / Re; };
   using VFlux = std::function<void(const double *, double *, double, const std::vector<double> &, const DenseMatrix &, double *)>;
   auto vref = [&](const VFlux &f, Vector &ex, double &m) {
      ex.SetSize(n * ns); ex = 0.0; m = 1e-6;
      for (int k = 0; k < ff.GetDof(); ++k)
      {
         double nn[D], fl[ns], jac; const auto &ip = ff.GetNodes().IntPoint(k); normal<D>(*F, ip, nn); Vector x(D); F->Face->Transform(ip, x);
         auto q = node(u, fn[k]); DenseMatrix G; Dw(fn[k], G, jac); f(x.GetData(), nn, jac, q, G, fl);
         for (int s = 0; s < ns; ++s) { ex(s * n + fn[k]) += ip.weight * fl[s]; m = std::max(m, fabs(ip.weight * fl[s])); }
      } };
   auto vis = [&](const std::string &nm, const Make &mk, const VFlux &f) {
      if (!judge(c, nm, mk, E, u, R)) { return; }
      Vector ex; double m; vref(f, ex, m); for (int i = 0; i < n * ns; ++i) { if (!c.near(R(i), ex(i), 1e-10 * m, nm + "-form")) { break; } }
      auto I = mk(1.0); double sc = 1e-6; for (int i = 0; i < n * ns; ++i) { sc += fabs(w(i)) * m; } c.near(E.energy(*I, u), w * R, 1e-10 * sc, nm + "-entropy-functional");
      auto Ia = mk(1.3); c.near(E.energy(*Ia, u), 1.3 * (w * R), 1e-10 * sc, nm + "-functional-scaled-by-its-coefficient"); };
   auto wall = [&](const double *x, double *nn, double jac, const std::vector<double> &q, const DenseMatrix &G, double *f) {
      double m = visc(q), a[ns], b[ns]; calcSlipWallFlux<double, D>(x, nn, q.data(), f);
      calcAdiabaticWallFlux<double, D>(nn, m, Pr, q.data(), G.GetData(), a); calcNoSlipPenaltyFlux<double, D>(nn, jac, m, Pr, far.q, q.data(), b);
      for (int s = 0; s < ns; ++s) { f[s] += b[s] - a[s]; } };
   auto neumann = [&](double *nn, const std::vector<double> &q, const DenseMatrix &G, double *f) {
      DenseMatrix Z(ns, D); setZeroNormalDeriv<double, D>(nn, G.GetData(), Z.GetData()); double m = visc(q);
      for (int d = 0; d < D; ++d) { double a[ns]; for (double &y : a) { y = 0; } applyViscousScaling<double, D>(d, m, Pr, q.data(), Z.GetData(), a); for (int s = 0; s < ns; ++s) { f[s] -= nn[d] * a[s]; } } };
   vis("no-slip", [&](double a) { return own(new NoSlipAdiabaticWallBC<D>(st, P.fec.get(), Re, Pr, qf, mu, a)); }, wall);
   vis("viscous-slip", [&](double a) { return own(new ViscousSlipWallBC<D>(st, P.fec.get(), Re, Pr, mu, a)); },
       [&](const double *x, double *nn, double, const std::vector<double> &q, const DenseMatrix &G, double *f) { calcSlipWallFlux<double, D>(x, nn, q.data(), f); neumann(nn, q, G, f); });
   auto chr = [&](const double *, double *nn, double, const std::vector<double> &q, const DenseMatrix &, double *f) { double wk[ns]; calcBoundaryFlux<double, D>(nn, far.q, q.data(), wk, f); };
   vis("inflow", [&](double a) { return own(new ViscousInflowBC<D>(st, P.fec.get(), Re, Pr, qf, mu, a)); }, chr);
   vis("outflow", [&](double a) { return own(new ViscousOutflowBC<D>(st, P.fec.get(), Re, Pr, qf, mu, a)); }, chr);
   vis("viscous-far-field", [&](double a) { return own(new ViscousFarFieldBC<D>(st, P.fec.get(), Re, Pr, qf, mu, a)); }, chr);
   auto exact = [&](const Vector &x, Vector &q) { bc(0.5, x, q); };
   vis("exact", [&](double a) { return own(new ViscousExactBC<D>(st, P.fec.get(), Re, Pr, exact, mu, a)); },
       [&](const double *x, double *nn, double, const std::vector<double> &q, const DenseMatrix &G, double *f) { Vector qe, xx(const_cast<double *>(x), D); exact(xx, qe); double wk[ns]; calcBoundaryFlux<double, D>(nn, qe.GetData(), q.data(), wk, f); neumann(nn, q, G, f); });
   double len2 = g.coin() ? 0.05 : len;   // short: most of the boundary is a no-slip wall
   vis("viscous-actuator", [&](double a) { auto *I = new ViscousControlBC<D>(st, P.fec.get(), Re, Pr, qf, gauss, xc, len2, mu, a); setInputs(*I, cin); return own(I); },
       [&](const double *x, double *nn, double jac, const std::vector<double> &q, const DenseMatrix &G, double *f) {
          Vector xx(const_cast<double *>(x), D); double s = gauss(len2, xc2, xx); calcControlFlux<double, D>(nn, q.data(), ctrl * s, f);
          if (s < 1e-4) { double m = visc(q), a[ns], b[ns]; calcAdiabaticWallFlux<double, D>(nn, m, Pr, q.data(), G.GetData(), a); calcNoSlipPenaltyFlux<double, D>(nn, jac, m, Pr, far.q, q.data(), b); for (int k = 0; k < ns; ++k) { f[k] += b[k] - a[k]; } c.count("actuator-no-slip-part"); } });
   {
      Vector fd(D); for (int d = 0; d < D; ++d) { fd(d) = g.uni(-1, 1); }
      SurfaceForce<D> I(st, P.fec.get(), ns, Re, Pr, qf, fd, mu); Vector ex; double m; vref(wall, ex, m);
      double t = 0; for (int i = 0; i < n; ++i) { for (int d = 0; d < D; ++d) { t += fd(d) * ex((d + 1) * n + i); } }
      c.near(E.energy(I, u), t, 1e-10 * m * ff.GetDof(), "surface-force-value"); functional(c, "surface-force", I, E, u);
   }
   c.count("boundary-faces");
}

template <int D> static void face(Case &c)
{
   Problem<D> P(c, true); auto &g = c.rng; auto &st = stack(); const int ns = D + 2;
   int nf = P.mesh->GetNumFaces(), f0 = g.irand(0, nf - 1), f = -1; for (int k = 0; k < nf; ++k) { if (P.mesh->FaceIsInterior((f0 + k) % nf)) { f = (f0 + k) % nf; break; } }
   if (f < 0) { return; }
   auto *F = P.mesh->GetInteriorFaceTransformations(f);
   auto &e1 = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(F->Elem1No)); auto &e2 = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(F->Elem2No)); int n = e1.GetDof();
   const FiniteElement &ff = *P.fec->FiniteElementForGeometry(D == 2 ? Geometry::SEGMENT : Geometry::TRIANGLE);
   Elem E; E.kind = FACE; E.e1 = &e1; E.e2 = &e2; E.ftr = F;
   Vector a = P.states(c, 2 * n), u(2 * n * ns), w(2 * n * ns), R, Rw;    // element blocks, each byNODES
   for (int i = 0; i < 2 * n; ++i) { for (int s = 0; s < ns; ++s) { u((i / n) * n * ns + s * n + i % n) = a(s * 2 * n + i); } }
   for (int b = 0; b < 2; ++b) { Vector ub(u.GetData() + b * n * ns, n * ns), wb = entvars<D>(ub, n); for (int i = 0; i < n * ns; ++i) { w(b * n * ns + i) = wb(i); } }
   double coef = g.coin(0.3) ? 0.0 : g.uni(0.1, 2); c.in("dissipation", coef);
   auto mk = [&](double al) { return own(new InterfaceIntegrator<D, false>(st, coef, P.fec.get(), al)); };
   auto mkw = [&](double al) { return own(new InterfaceIntegrator<D, true>(st, coef, P.fec.get(), al)); };
   if (!judge(c, "interface", mk, E, u, R)) { return; }
   auto n1 = facenodes<D>(c, e1, *F->Elem1, ff, *F), n2 = facenodes<D>(c, e2, *F->Elem2, ff, *F);
   Vector ex(2 * n * ns); ex = 0.0; double m = 1e-6, pot = 0;
   for (int k = 0; k < ff.GetDof(); ++k)
   {
      const auto &ip = ff.GetNodes().IntPoint(k); double nn[D], qL[ns], qR[ns], fl[ns]; normal<D>(*F, ip, nn);
      for (double &x : nn) { x *= ip.weight; }
      for (int s = 0; s < ns; ++s) { qL[s] = u(s * n + n1[k]); qR[s] = u(n * ns + s * n + n2[k]); }
      calcIsmailRoeFaceFluxWithDiss<double, D>(nn, coef, qL, qR, fl);
      for (int s = 0; s < ns; ++s) { ex(s * n + n1[k]) += fl[s]; ex(n * ns + s * n + n2[k]) -= fl[s]; m = std::max(m, fabs(fl[s])); }
      for (int d = 0; d < D; ++d) { pot += nn[d] * (qL[d + 1] - qR[d + 1]); }
   }
   for (int i = 0; i < 2 * n * ns; ++i) { if (!c.near(R(i), ex(i), 1e-11 * m, "interface-form")) { break; } }
   for (int s = 0; s < ns; ++s) { double t = 0; for (int i = 0; i < n; ++i) { t += R(s * n + i) + R(n * ns + s * n + i); } c.near(t, 0, 1e-11 * m * n, "interface-conserves"); }
   double ent = w * R, sc = m * w.Normlinf() * n;
   if (coef == 0) { c.near(ent, pot, 1e-9 * sc, "interface-conserves-entropy"); c.count("conservative-faces"); } else { c.check(ent >= pot - 1e-9 * sc, "interface-dissipates-entropy"); }
   auto I = mk(1.0), Ia = mk(-0.6); c.near(E.energy(*I, u), ent, 1e-10 * sc, "interface-entropy-functional"); c.near(E.energy(*Ia, u), -0.6 * ent, 1e-10 * sc, "interface-functional-scaled-by-its-coefficient");
   if (judge(c, "interface-ev", mkw, E, w, Rw, true, 0.2))
   { for (int i = 0; i < 2 * n * ns; ++i) { if (!c.near(Rw(i), R(i), 1e-8 * m, "interface-same-in-entropy-variables")) { break; } } auto Iw = mkw(1.0); c.near(E.energy(*Iw, w), ent, 1e-8 * sc, "interface-entropy-functional-ev"); }
   c.count("interior-faces");
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv); stack();
   run("volume", 160, [](Case &c) { int d = c.in("dim", c.rng.irand(1, 3)); if (d == 1) { volume<1>(c); } else if (d == 2) { volume<2>(c); } else { volume<3>(c); } });
   run("boundary", 120, [](Case &c) { if (c.in("dim", c.rng.irand(2, 3)) == 2) { boundary<2>(c); } else { boundary<3>(c); } });
   run("face", 200, [](Case &c) { if (c.in("dim", c.rng.irand(2, 3)) == 2) { face<2>(c); } else { face<3>(c); } });
   int rc = finish(); MPI_Finalize(); return rc;
}
