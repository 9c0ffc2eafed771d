// C20: coefficients: attribute dispatch, construction from options, material
// and source models against independent formulas and differences.
#include "mfem.hpp"
#include "coefficient.hpp"
#include "reluctivity_coefficient.hpp"
#include "conductivity_coefficient.hpp"
#include "remnant_flux_coefficient.hpp"
#include "demag_flux_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include "cal2_kh_coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "current_source_functions.hpp"
#include "magnetic_source_functions.hpp"
#include "integcheck.hpp"
using namespace ic;
namespace { struct Fatal : std::runtime_error { using std::runtime_error::runtime_error; }; }
namespace mfem { void mfem_error(const char *msg) { throw Fatal(msg ? msg : ""); } }
using T_ = ElementTransformation; using IP = IntegrationPoint;

/// one possibly curved element somewhere in space, with an attribute, at a point
struct El
{
   Case &c; Rng &g; int dim; std::unique_ptr<Mesh> m; IsoparametricTransformation T; IP ip;
   El(Case &c_, int d = 0) : c(c_), g(c_.rng), dim(d ? d : g.irand(2, 3))
   {
      bool tensor = g.coin();
      m.reset(new Mesh(dim == 2 ? Mesh::MakeCartesian2D(1, 1, tensor ? Element::QUADRILATERAL : Element::TRIANGLE, true, 1, 1, false) : Mesh::MakeCartesian3D(1, 1, 1, tensor ? Element::HEXAHEDRON : Element::TETRAHEDRON, 1, 1, 1, false)));
      m->SetCurvature(g.irand(1, 2)); auto &n = *m->GetNodes(); Vector o(dim); for (int k = 0; k < dim; ++k) { o(k) = g.uni(-2, 2); } double s = g.uni(0.2, 1);
      auto *f = n.FESpace(); for (int i = 0; i < f->GetNDofs(); ++i) { for (int k = 0; k < dim; ++k) { n(f->DofToVDof(i, k)) = o(k) + s * (n(f->DofToVDof(i, k)) + g.uni(-0.03, 0.03)); } }
      next();
   }
   void next() { m->GetElementTransformation(g.irand(0, m->GetNE() - 1), &T); auto &ir = IntRules.Get(T.GetGeometryType(), 5); ip = ir.IntPoint(g.irand(0, ir.GetNPoints() - 1)); T.Attribute = 1; T.SetIntPoint(&ip); }
   void attr(int a) { T.Attribute = a; }
   Vector x() { Vector p; T.Transform(ip, p); return p; }
   /// reverse derivative: Q f's reverse map against differences over the nodes
   template <class F, class R> void rev(F &&f, R &&r, const std::string &o, double floor = 1)
   {
      auto &P = T.GetPointMat(); DenseMatrix P0(P), bar(P.Height(), P.Width()), b0(P.Height(), P.Width()), D(P.Height(), P.Width());
      for (int i = 0; i < P.Height(); ++i) { for (int j = 0; j < P.Width(); ++j) { bar(i, j) = b0(i, j) = g.uni(-1, 1); D(i, j) = g.uni(-1, 1); } }
      r(bar); bar -= b0; double a = bar * D;
      derivative(c, a, [&](double s) { for (int i = 0; i < P.Height(); ++i) { for (int j = 0; j < P.Width(); ++j) { P(i, j) = P0(i, j) + s * D(i, j); } } T.SetIntPoint(&ip); double v = f(); P = P0; T.SetIntPoint(&ip); return v; }, o, floor);
   }
};
static double num(int k, double s1 = 0, double s2 = 0, double s3 = 0, double id = 0) { return id * 1000 + k * 50 + s1 + 2 * s2 + 3 * s3; }
struct Rec1 : miso::StateCoefficient
{
   double id; std::string key; Rec1(double i, std::string k = "") : id(i), key(k) { }
   double Eval(T_ &, const IP &, double s) override { return num(1, s, 0, 0, id); }
   double EvalStateDeriv(T_ &, const IP &, double s) override { return num(2, s, 0, 0, id); }
   double EvalState2ndDeriv(T_ &, const IP &, const double s) override { return num(3, s, 0, 0, id); }
   void EvalRevDiff(double q, T_ &, const IP &, double s, DenseMatrix &P) override { P(0, 0) += q * num(4, s, 0, 0, id); }
   void setInputs(const MISOInputs &in) override { miso::setValueFromInputs(in, key, id); }
};
struct Plain : Coefficient
{
   double id; Plain(double i) : id(i) { }
   double Eval(T_ &, const IP &) override { return num(1, 0, 0, 0, id); }
   void EvalRevDiff(double q, T_ &, const IP &, DenseMatrix &P) override { P(0, 0) += q * num(4, 0, 0, 0, id); }
};
struct Rec2 : miso::TwoStateCoefficient
{
   double id; Rec2(double i) : id(i) { }
   double Eval(T_ &, const IP &, double a, double b) override { return num(1, a, b, 0, id); }
   double EvalDerivS1(T_ &, const IP &, double a, double b) override { return num(2, a, b, 0, id); }
   double EvalDerivS2(T_ &, const IP &, double a, double b) override { return num(3, a, b, 0, id); }
   double Eval2ndDerivS1(T_ &, const IP &, double a, double b) override { return num(4, a, b, 0, id); }
   double Eval2ndDerivS2(T_ &, const IP &, double a, double b) override { return num(5, a, b, 0, id); }
   double Eval2ndDerivS1S2(T_ &, const IP &, double a, double b) override { return num(6, a, b, 0, id); }
   double Eval2ndDerivS2S1(T_ &, const IP &, double a, double b) override { return num(7, a, b, 0, id); }
   void EvalRevDiff(double q, T_ &, const IP &, DenseMatrix &P) override { P(0, 0) += q * num(8, 0, 0, 0, id); }
};
struct Rec3 : miso::ThreeStateCoefficient
{
   double id; Rec3(double i) : id(i) { }
#define M3(name, k) double name(T_ &, const IP &, double a, double b, double d) override { return num(k, a, b, d, id); }
   M3(Eval, 1) M3(EvalDerivS1, 2) M3(EvalDerivS2, 3) M3(EvalDerivS3, 4) M3(Eval2ndDerivS1, 5) M3(Eval2ndDerivS2, 6) M3(Eval2ndDerivS3, 7) M3(Eval2ndDerivS1S2, 8) M3(Eval2ndDerivS1S3, 9) M3(Eval2ndDerivS2S3, 10) M3(Eval2ndDerivS2S1, 11) M3(Eval2ndDerivS3S1, 12) M3(Eval2ndDerivS3S2, 13)
   void EvalRevDiff(double q, T_ &, const IP &, DenseMatrix &P) override { P(0, 0) += q * num(14, 0, 0, 0, id); }
};
struct VRec : miso::VectorStateCoefficient
{
   double id; VRec(int d, double i) : VectorStateCoefficient(d), id(i) { }
   void Eval(Vector &v, T_ &, const IP &, double s) override { v.SetSize(vdim); for (int i = 0; i < vdim; ++i) { v(i) = num(1, s, i, 0, id); } }
   void EvalStateDeriv(Vector &v, T_ &, const IP &, double s) override { v.SetSize(vdim); for (int i = 0; i < vdim; ++i) { v(i) = num(2, s, i, 0, id); } }
   void EvalRevDiff(const Vector &b, T_ &, const IP &, double s, DenseMatrix &P) override { for (int i = 0; i < vdim; ++i) { P(0, 0) += b(i) * num(4, s, i, 0, id); } }
};
struct VPlain : VectorCoefficient
{
   double id; VPlain(int d, double i) : VectorCoefficient(d), id(i) { }
   void Eval(Vector &v, T_ &, const IP &) override { v.SetSize(vdim); for (int i = 0; i < vdim; ++i) { v(i) = num(1, 0, i, 0, id); } }
   void EvalRevDiff(const Vector &b, T_ &, const IP &, DenseMatrix &P) override { for (int i = 0; i < vdim; ++i) { P(0, 0) += b(i) * num(4, 0, i, 0, id); } }
};

/// per-attribute contents: 0 nothing, 1 plain, 2 state dependent; index 0: the default
static void containers(Case &c)
{
   auto &g = c.rng; El E(c); int na = c.in("attributes", g.irand(1, 5)); std::vector<int> kind(na + 1); std::vector<double> id(na + 1);
   for (int k = 0; k <= na; ++k) { kind[k] = g.irand(0, 2); id[k] = k + g.u() / 2; } c.invec("kind", kind, na + 1);
   int how = c.in("states", g.irand(1, 3)); auto refused = [&](auto f) { try { f(); } catch (Fatal &) { return true; } return false; };
   auto order = [&] { std::vector<int> o; for (int k = 1; k <= na; ++k) { o.push_back(k); } for (int i = na - 1; i > 0; --i) { std::swap(o[i], o[g.irand(0, i)]); } return o; };
   DenseMatrix P(2, 3);
   auto sample = [&](auto &&judge) { for (int i = 0; i < 6; ++i) { int a = g.irand(1, na + 1); E.next(); E.attr(a); int w = a <= na && kind[a] ? a : 0; judge(kind[w], id[w]); c.count(a > na || !kind[a] ? kind[0] ? "defaulted" : "empty" : kind[w] == 2 ? "state-dependent" : "plain"); } };
   double tol = 1e-9;
   if (how == 1)
   {
      using MD = miso::MeshDependentCoefficient; std::unique_ptr<Coefficient> d; if (kind[0] == 1) { d.reset(new Plain(id[0])); } else if (kind[0] == 2) { d.reset(new Rec1(id[0], "id0")); }
      MD m(std::move(d)); for (int k : order()) { if (kind[k] == 1) { m.addCoefficient(k, std::make_unique<Plain>(id[k])); } else if (kind[k] == 2) { m.addCoefficient(k, std::make_unique<Rec1>(id[k], "id" + std::to_string(k))); } }
      if (g.coin()) { MISOInputs in; for (int k = 0; k <= na; ++k) { if (g.coin()) { double v = 10 + g.u(); in.emplace("id" + std::to_string(k), v); if (kind[k] == 2) { id[k] = v; } } } m.setInputs(in); c.count("inputs"); }
      sample([&](int k, double i) {
         double s = g.uni(-3, 3), q = g.uni(-2, 2), e = k == 2 ? s : 0; miso::StateCoefficient &M = m;
         c.near(M.Eval(E.T, E.ip, s), k ? num(1, e, 0, 0, i) : 0, tol, "value"); c.near(M.Eval(E.T, E.ip), k ? num(1, 0, 0, 0, i) : 0, tol, "value-without-state");
         c.near(M.EvalStateDeriv(E.T, E.ip, s), k == 2 ? num(2, s, 0, 0, i) : 0, tol, "state-derivative"); c.near(M.EvalState2ndDeriv(E.T, E.ip, s), k == 2 ? num(3, s, 0, 0, i) : 0, tol, "second-state-derivative");
         double p0 = P(0, 0) = g.u(); M.EvalRevDiff(q, E.T, E.ip, s, P); c.near(P(0, 0) - p0, k ? q * num(4, e, 0, 0, i) : 0, 1e-8, "reverse-derivative"); p0 = P(0, 0) = g.u(); static_cast<Coefficient &>(m).EvalRevDiff(q, E.T, E.ip, P); c.near(P(0, 0) - p0, k ? q * num(4, 0, 0, 0, i) : 0, 1e-8, "reverse-derivative-without-state"); });
      for (int k = 1; k <= na; ++k) { if (kind[k]) { c.check(refused([&] { m.addCoefficient(k, std::make_unique<Plain>(1)); }), "second-coefficient-for-an-attribute-is-refused"); c.count("refusals"); break; } }
   }
   else if (how == 2)
   {
      using MD = miso::MeshDependentTwoStateCoefficient; std::unique_ptr<Coefficient> d; if (kind[0] == 1) { d.reset(new Plain(id[0])); } else if (kind[0] == 2) { d.reset(new Rec2(id[0])); }
      MD m(std::move(d)); for (int k : order()) { if (kind[k] == 1) { m.addCoefficient(k, std::make_unique<Plain>(id[k])); } else if (kind[k] == 2) { m.addCoefficient(k, std::make_unique<Rec2>(id[k])); } }
      sample([&](int k, double i) {
         double a = g.uni(-3, 3), b = g.uni(-3, 3), q = g.uni(-2, 2); miso::TwoStateCoefficient &M = m; auto D = [&](int n) { return k == 2 ? num(n, a, b, 0, i) : 0; };
         c.near(M.Eval(E.T, E.ip, a, b), k == 1 ? num(1, 0, 0, 0, i) : D(1), tol, "two-state-value"); c.near(M.Eval(E.T, E.ip), k ? num(1, 0, 0, 0, i) : 0, tol, "two-state-value-without-states");
         c.near(M.EvalDerivS1(E.T, E.ip, a, b), D(2), tol, "two-state-d1"); c.near(M.EvalDerivS2(E.T, E.ip, a, b), D(3), tol, "two-state-d2"); c.near(M.Eval2ndDerivS1(E.T, E.ip, a, b), D(4), tol, "two-state-d11"); c.near(M.Eval2ndDerivS2(E.T, E.ip, a, b), D(5), tol, "two-state-d22"); c.near(M.Eval2ndDerivS1S2(E.T, E.ip, a, b), D(6), tol, "two-state-d12"); c.near(M.Eval2ndDerivS2S1(E.T, E.ip, a, b), D(7), tol, "two-state-d21");
         double p0 = P(0, 0) = g.u(); M.EvalRevDiff(q, E.T, E.ip, P); c.near(P(0, 0) - p0, k == 1 ? q * num(4, 0, 0, 0, i) : k == 2 ? q * num(8, 0, 0, 0, i) : 0, 1e-8, "two-state-reverse-derivative"); });
      for (int k = 1; k <= na; ++k) { if (kind[k]) { c.check(refused([&] { m.addCoefficient(k, std::make_unique<Plain>(1)); }), "second-coefficient-for-an-attribute-is-refused"); break; } }
   }
   else
   {
      using MD = miso::MeshDependentThreeStateCoefficient; std::unique_ptr<Coefficient> d; if (kind[0] == 1) { d.reset(new Plain(id[0])); } else if (kind[0] == 2) { d.reset(new Rec3(id[0])); }
      MD m(std::move(d)); for (int k : order()) { if (kind[k] == 1) { m.addCoefficient(k, std::make_unique<Plain>(id[k])); } else if (kind[k] == 2) { m.addCoefficient(k, std::make_unique<Rec3>(id[k])); } }
      sample([&](int k, double i) {
         double a = g.uni(-3, 3), b = g.uni(-3, 3), s = g.uni(-3, 3), q = g.uni(-2, 2); miso::ThreeStateCoefficient &M = m; auto D = [&](int n) { return k == 2 ? num(n, a, b, s, i) : 0; };
         c.near(M.Eval(E.T, E.ip, a, b, s), k == 1 ? num(1, 0, 0, 0, i) : D(1), tol, "three-state-value"); c.near(M.Eval(E.T, E.ip), k ? num(1, 0, 0, 0, i) : 0, tol, "three-state-value-without-states");
#define J3(name, k) c.near(M.name(E.T, E.ip, a, b, s), D(k), tol, #name);
         J3(EvalDerivS1, 2) J3(EvalDerivS2, 3) J3(EvalDerivS3, 4) J3(Eval2ndDerivS1, 5) J3(Eval2ndDerivS2, 6) J3(Eval2ndDerivS3, 7) J3(Eval2ndDerivS1S2, 8) J3(Eval2ndDerivS1S3, 9) J3(Eval2ndDerivS2S3, 10) J3(Eval2ndDerivS2S1, 11) J3(Eval2ndDerivS3S1, 12) J3(Eval2ndDerivS3S2, 13)
         double p0 = P(0, 0) = g.u(); M.EvalRevDiff(q, E.T, E.ip, P); c.near(P(0, 0) - p0, k == 1 ? q * num(4, 0, 0, 0, i) : k == 2 ? q * num(14, 0, 0, 0, i) : 0, 1e-8, "three-state-reverse-derivative"); });
      for (int k = 1; k <= na; ++k) { if (kind[k]) { c.check(refused([&] { m.addCoefficient(k, std::make_unique<Plain>(1)); }), "second-coefficient-for-an-attribute-is-refused"); break; } }
   }
}
static void vcontainers(Case &c)
{
   auto &g = c.rng; El E(c); int na = c.in("attributes", g.irand(1, 5)), vd = c.in("vdim", g.irand(2, 3)); std::vector<int> kind(na + 1); std::vector<double> id(na + 1); bool st = c.in("state", g.coin());
   for (int k = 0; k <= na; ++k) { kind[k] = g.irand(0, 2); if (st && !k && kind[k] == 1) { kind[k] = 2; } id[k] = k + g.u() / 2; } c.invec("kind", kind, na + 1); DenseMatrix P(2, 3);
   auto make = [&](int k) -> std::unique_ptr<VectorCoefficient> { if (kind[k] == 1) { return std::make_unique<VPlain>(vd, id[k]); } return std::make_unique<VRec>(vd, id[k]); };
   auto vnum = [&](int n, int k, double s, double i, int j) { return k ? num(n, k == 2 ? s : 0, j, 0, i) : 0.0; };
   auto sample = [&](auto &&judge) { for (int i = 0; i < 6; ++i) { int a = g.irand(1, na + 1); E.next(); E.attr(a); int w = a <= na && kind[a] ? a : 0; judge(kind[w], id[w]); } };
   auto is = [&](const Vector &v, auto f, const char *o) { for (int j = 0; j < vd; ++j) { c.near(v(j), f(j), 1e-9, o); } };
   if (!st)
   {
      miso::VectorMeshDependentCoefficient m(vd, kind[0] ? make(0) : nullptr); for (int k = 1; k <= na; ++k) { if (kind[k]) { m.addCoefficient(k, make(k)); } }
      sample([&](int k, double i) { Vector v(vd), b = rvec(g, vd); v = 1e9; static_cast<VectorCoefficient &>(m).Eval(v, E.T, E.ip); is(v, [&](int j) { return vnum(1, k, 0, i, j); }, "vector-value"); double p0 = P(0, 0) = g.u(), r = 0; for (int j = 0; j < vd; ++j) { r += b(j) * vnum(4, k, 0, i, j); } static_cast<VectorCoefficient &>(m).EvalRevDiff(b, E.T, E.ip, P); c.near(P(0, 0) - p0, r, 1e-8, "vector-reverse-derivative"); });
      for (int k = 1; k <= na; ++k) { if (kind[k]) { bool ok = false; try { m.addCoefficient(k, make(k)); } catch (Fatal &) { ok = true; } c.check(ok, "second-vector-coefficient-for-an-attribute-is-refused"); break; } }
   }
   else
   {
      std::unique_ptr<miso::VectorStateCoefficient> d; if (kind[0]) { d.reset(new VRec(vd, id[0])); }
      miso::VectorMeshDependentStateCoefficient m(vd, std::move(d)); for (int k = 1; k <= na; ++k) { if (kind[k]) { m.addCoefficient(k, make(k)); } } miso::VectorStateCoefficient &M = m;
      sample([&](int k, double i) {
         double s = g.uni(-3, 3); Vector v(vd), b = rvec(g, vd); v = 1e9; M.Eval(v, E.T, E.ip, s); is(v, [&](int j) { return vnum(1, k, s, i, j); }, "vector-state-value"); v = 1e9; M.Eval(v, E.T, E.ip); is(v, [&](int j) { return vnum(1, k, 0, i, j); }, "vector-state-value-without-state");
         v = 1e9; M.EvalStateDeriv(v, E.T, E.ip, s); is(v, [&](int j) { return k == 2 ? num(2, s, j, 0, i) : 0; }, "vector-state-derivative");
         double p0 = P(0, 0) = g.u(), r = 0; for (int j = 0; j < vd; ++j) { r += b(j) * vnum(4, k, s, i, j); } M.EvalRevDiff(b, E.T, E.ip, s, P); c.near(P(0, 0) - p0, r, 1e-8, "vector-state-reverse-derivative"); });
   }
   c.count(st ? "vector-state" : "vector");
}

/// smooth space- and state-dependent factors with known reverse derivatives
struct SmoothS : miso::StateCoefficient
{
   Vector a; double p; SmoothS(Rng &g, int d) : a(rvec(g, d)), p(g.uni(0.3, 1)) { }
   double u(T_ &T, const IP &ip) { Vector x; T.Transform(ip, x); return a * x; }
   double Eval(T_ &T, const IP &ip, double s) override { return 2 + sin(u(T, ip)) * cos(p * s); }
   double EvalStateDeriv(T_ &T, const IP &ip, double s) override { return -p * sin(u(T, ip)) * sin(p * s); }
   void EvalRevDiff(double q, T_ &T, const IP &ip, double s, DenseMatrix &P) override { Vector b(a); b *= q * cos(u(T, ip)) * cos(p * s); static_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, b, P); }
};
struct SmoothP : Coefficient
{
   SmoothS S; SmoothP(Rng &g, int d) : S(g, d) { }
   double Eval(T_ &T, const IP &ip) override { return S.Eval(T, ip, 0.4); }
   void EvalRevDiff(double q, T_ &T, const IP &ip, DenseMatrix &P) override { S.EvalRevDiff(q, T, ip, 0.4, P); }
};
struct SmoothV : miso::VectorStateCoefficient
{
   std::vector<SmoothS> S; SmoothV(Rng &g, int d) : VectorStateCoefficient(d) { for (int i = 0; i < d; ++i) { S.emplace_back(g, d); } }
   void Eval(Vector &v, T_ &T, const IP &ip, double s) override { v.SetSize(vdim); for (int i = 0; i < vdim; ++i) { v(i) = S[i].Eval(T, ip, s); } }
   void EvalStateDeriv(Vector &v, T_ &T, const IP &ip, double s) override { v.SetSize(vdim); for (int i = 0; i < vdim; ++i) { v(i) = S[i].EvalStateDeriv(T, ip, s); } }
   void EvalRevDiff(const Vector &b, T_ &T, const IP &ip, double s, DenseMatrix &P) override { for (int i = 0; i < vdim; ++i) { S[i].EvalRevDiff(b(i), T, ip, s, P); } }
};
struct SmoothVP : VectorCoefficient
{
   SmoothV S; SmoothVP(Rng &g, int d) : VectorCoefficient(d), S(g, d) { }
   void Eval(Vector &v, T_ &T, const IP &ip) override { S.Eval(v, T, ip, 0.4); }
   void EvalRevDiff(const Vector &b, T_ &T, const IP &ip, DenseMatrix &P) override { S.EvalRevDiff(b, T, ip, 0.4, P); }
};
static double efn(const Vector &x, int e) { double s = e; for (int i = 0; i < x.Size(); ++i) { s += (i + 1) * x(i); } return s; }
static double tdefn(const Vector &x, int e, double t) { return 3 * t + efn(x, e); }
static void products(Case &c)
{
   Quiet qt; auto &g = c.rng; El E(c); int d = E.dim; bool as = c.in("scalar-state", g.coin()), bs = c.in("vector-state", g.coin());
   SmoothS s1(g, d); SmoothP s0(g, d); SmoothV v1(g, d); SmoothVP v0(g, d); Coefficient &A = as ? static_cast<Coefficient &>(s1) : s0; VectorCoefficient &B = bs ? static_cast<VectorCoefficient &>(v1) : v0;
   miso::ScalarVectorProductCoefficient p(A, B); miso::VectorStateCoefficient &M = p; double s = g.uni(-2, 2); Vector w = rvec(g, d), V(d), B0(d); V = 1e9;
   auto val = [&](double s) { Vector r(d); if (bs) { v1.Eval(r, E.T, E.ip, s); } else { static_cast<VectorCoefficient &>(v0).Eval(r, E.T, E.ip); } r *= as ? s1.Eval(E.T, E.ip, s) : s0.Eval(E.T, E.ip); return r; };
   M.Eval(V, E.T, E.ip, s); same(c, V, val(s), 1e-13, "product-value"); V = 1e9; M.Eval(V, E.T, E.ip); same(c, V, val(0), 1e-13, "product-value-without-state"); V = 1e9; M.EvalStateDeriv(V, E.T, E.ip, s);
   derivative(c, V * w, [&](double h) { return val(s + h) * w; }, "product-state-derivative", 1);
   E.rev([&] { Vector r(d); M.Eval(r, E.T, E.ip, s); return r * w; }, [&](DenseMatrix &P) { M.EvalRevDiff(w, E.T, E.ip, s, P); }, "product-reverse-derivative");
   // continuation between a linear and a nonlinear coefficient
   double l0 = miso::ParameterContinuationCoefficient::getLambda(), l = g.uni(0, 1); auto *lin = new SmoothP(g, d); auto *non = new SmoothS(g, d); miso::ParameterContinuationCoefficient pc{std::unique_ptr<Coefficient>(lin), std::unique_ptr<miso::StateCoefficient>(non)};
   miso::ParameterContinuationCoefficient::setLambda(l); c.check(miso::ParameterContinuationCoefficient::getLambda() == l, "continuation-parameter"); miso::StateCoefficient &C = pc;
   c.near(C.Eval(E.T, E.ip, s), (1 - l) * lin->Eval(E.T, E.ip) + l * non->Eval(E.T, E.ip, s), 1e-12, "continuation-value"); derivative(c, C.EvalStateDeriv(E.T, E.ip, s), [&](double h) { return C.Eval(E.T, E.ip, s + h); }, "continuation-state-derivative", 1); miso::ParameterContinuationCoefficient::setLambda(l0);
   // functions of position and element
   Vector x = E.x(); miso::ElementFunctionCoefficient f1(efn), f2(tdefn); double t = g.uni(0, 5); f2.SetTime(t); c.near(f1.Eval(E.T, E.ip), efn(x, E.T.ElementNo), 1e-12, "element-function"); c.near(f2.Eval(E.T, E.ip), tdefn(x, E.T.ElementNo, t), 1e-12, "element-function-of-time");
   c.near(miso::LameFirstParameter().Eval(E.T, E.ip), 1 / E.T.Weight(), 1e-12 / E.T.Weight(), "first-parameter"); c.near(miso::LameSecondParameter().Eval(E.T, E.ip), 1, 0, "second-parameter");
   c.count("products"); c.count(as && bs ? "both-state" : as ? "scalar-state" : bs ? "vector-state-only" : "no-state");
}

/// components covering random attributes, each with one or several attributes
struct Comp { std::string name; std::vector<int> attrs; bool single; json j; };
static std::vector<Comp> components(Case &c, int na)
{
   auto &g = c.rng; std::vector<int> a; for (int k = 1; k <= na; ++k) { if (g.coin(0.8)) { a.push_back(k); } } for (int i = (int)a.size() - 1; i > 0; --i) { std::swap(a[i], a[g.irand(0, i)]); }
   std::vector<Comp> r; for (size_t i = 0; i < a.size();) { Comp k; k.name = "part" + std::to_string(r.size()); int n = g.coin() ? 1 : g.irand(1, 3); for (int q = 0; q < n && i < a.size(); ++q) { k.attrs.push_back(a[i++]); } k.single = k.attrs.size() == 1 && g.coin(); if (k.single) { k.j["attr"] = k.attrs[0]; } else { k.j["attrs"] = k.attrs; } r.push_back(k); }
   c.in("components", (int)r.size()); return r;
}
static void construct(Case &c)
{
   auto &g = c.rng; El E(c); int na = g.irand(1, 6); auto cs = components(c, na); const std::string prop = g.pick<std::string>({"rho", "kappa", "drho_df", "alpha", "ks"}); c.in("property", prop); int states = c.in("states", g.irand(1, 3)); bool core = prop == "alpha" || prop == "ks";
   if (core && states == 1) { core = false; }
   json comps, mats = json::object(); std::map<int, std::function<double(double)>> ref; double dflt = states == 1 ? 0 : g.uni(1, 2); std::map<std::string, int> used;
   for (auto &k : cs)
   {
      std::string mn = "mat" + std::to_string(g.irand(0, 2)) + k.name; double a = g.uni(0.5, 9), b = g.uni(0.5, 9); int what = c.in("what", g.irand(0, states == 1 ? 5 : 1)); std::function<double(double)> f;
      auto put = [&](const std::string &m, double v) { if (core) { mats[m]["core_loss"]["steinmetz"][prop] = v; } else { mats[m][prop] = v; } };
      double hi = std::max(a, b), lo = std::min(a, b); auto mean = [=](double w) { return w * hi + (1 - w) * lo; }; auto hs = [=](double w) { return lo * ((1 + w) * hi + (1 - w) * lo) / ((1 - w) * hi + (1 + w) * lo); };
      if (what == 0) { f = [=](double) { return dflt; }; mats[mn]["other"] = 1.0; if (core) { mats[mn]["core_loss"]["steinmetz"]["other"] = 1.0; } }
      else if (what == 1) { put(mn, a); f = [=](double) { return a; }; }
      else
      {
         put(mn + "a", a); put(mn + "b", b); const char *w[] = {"average", "daverage", "Hashin-Shtrikman", "dHashin-Shtrikman"}; mats[mn][prop] = {{"materials", {mn + "a", mn + "b"}}, {"weighted_by", "fill"}, {"weight", w[what - 2]}}; c.count(w[what - 2]);
         f = what == 2 ? std::function<double(double)>(mean) : what == 3 ? std::function<double(double)>([=](double) { return hi - lo; }) : what == 4 ? std::function<double(double)>(hs) : std::function<double(double)>([=](double q) { double den = (1 - q) * hi + (1 + q) * lo; return 2 * lo * (hi - lo) * (hi + lo) / (den * den); });
      }
      if (g.coin()) { k.j["material"] = mn; } else { k.j["material"] = {{"name", mn}}; } comps[k.name] = k.j; for (int q : k.attrs) { ref[q] = f; }
   }
   if (cs.empty()) { comps = json::object(); } double w = 0.5, s1 = g.uni(-1, 1);
   std::unique_ptr<miso::MeshDependentCoefficient> m1; std::unique_ptr<miso::MeshDependentTwoStateCoefficient> m2; std::unique_ptr<miso::MeshDependentThreeStateCoefficient> m3;
   if (states == 1) { m1 = miso::constructMaterialCoefficient(prop, comps, mats); } else if (states == 2) { m2 = miso::constructMaterialTwoStateCoefficient(prop, comps, mats, dflt); } else { m3 = miso::constructMaterialThreeStateCoefficient(prop, comps, mats, dflt); }
   for (int round = 0; round < 2; ++round)
   {
      for (int a = 1; a <= na + 1; ++a)
      {
         E.next(); E.attr(a); double want = ref.count(a) ? ref[a](w) : 0, got = m1 ? m1->Eval(E.T, E.ip, s1) : m2 ? m2->Eval(E.T, E.ip, s1, s1) : m3->Eval(E.T, E.ip, s1, s1, s1), got0 = m1 ? m1->Eval(E.T, E.ip) : m2 ? m2->Eval(E.T, E.ip) : m3->Eval(E.T, E.ip);
         c.rel(got, want, 1e-9, 1e-12, "material-value"); c.rel(got0, want, 1e-9, 1e-12, "material-value-without-state"); c.near(m1 ? m1->EvalStateDeriv(E.T, E.ip, s1) : m2 ? m2->EvalDerivS1(E.T, E.ip, s1, s1) : m3->EvalDerivS3(E.T, E.ip, s1, s1, s1), 0, 0, "material-state-derivative"); c.count("material-values");
      }
      if (m1) { w = g.uni(0, 1); MISOInputs in; in.emplace("fill", w); m1->setInputs(in); }
   }
}

/// Cox-de Boor basis, independent of the stand-in spline library
static double bspline(const std::vector<double> &c, const std::vector<double> &k, int p, double u)
{
   int n = c.size(); if (u >= k[n]) { u = std::nextafter(k[n], 0); } std::function<double(int, int)> N = [&](int i, int q) -> double { if (q == 0) { return k[i] <= u && u < k[i + 1] ? 1 : 0; } double a = k[i + q] - k[i], b = k[i + q + 1] - k[i + 1], r = 0; if (a > 0) { r += (u - k[i]) / a * N(i, q - 1); } if (b > 0) { r += (k[i + q + 1] - u) / b * N(i + 1, q - 1); } return r; };
   double s = 0; for (int i = 0; i < n; ++i) { s += c[i] * N(i, p); } return s;
}
static const double mu0 = 4e-7 * M_PI, nu0 = 1 / mu0;
static void reluctivity(Case &c)
{
   Quiet qt; auto &g = c.rng; El E(c); int na = g.irand(1, 5); auto cs = components(c, na); json comps, mats = json::object(); struct Ref { int kind = 0; double mur = 1; std::vector<double> cps, knots; int p = 3; double bmax = 0; }; std::map<int, Ref> ref;
   for (auto &k : cs)
   {
      std::string mn = "mat_" + k.name; Ref r; r.kind = c.in("kind", g.irand(0, 5)); json mat; mats[mn]["rho"] = 1.0; if (g.coin(0.8)) { r.mur = g.logu(1, 3000); mats[mn]["mu_r"] = r.mur; }
      if (r.kind == 0) { mat = mn; } else if (r.kind == 1) { mat = {{"name", mn}}; } else if (r.kind == 2) { mat = {{"name", mn}, {"reluctivity", {{"model", "linear"}}}}; }
      else
      {
         bool lg = r.kind == 3 || r.kind == 5; std::string mod = lg ? "lognu" : "bh"; r.p = c.in("degree", g.irand(2, 4)); int n = r.p + g.irand(1, 5); r.bmax = c.in("b-max", g.uni(1, 4)); r.cps.resize(n); r.knots.resize(n + r.p + 1);
         std::vector<double> in; for (int i = 0; i < n - r.p - 1; ++i) { in.push_back(r.bmax * (i + 1 + g.uni(-0.3, 0.3)) / (n - r.p)); } for (int i = 0; i < n + r.p + 1; ++i) { r.knots[i] = i <= r.p ? 0 : i >= n ? r.bmax : in[i - r.p - 1]; }
         if (lg) { for (int i = 0; i < n; ++i) { r.cps[i] = g.uni(log(nu0 / 5000), log(nu0)); } r.cps[n - 1] = log(nu0); } else { double h = 0; for (int i = 0; i < n; ++i) { r.cps[i] = h; h += g.logu(10, 4000); } }
         // library values, overridden or not by the component's own
         json lib, own = {{"model", mod}}; auto place = [&](const char *f, json v, json other) { int w = g.irand(0, 2); if (w == 0) { own[f] = v; } else if (w == 1) { own[f] = v; lib[f] = other; } else { lib[f] = v; } };
         std::vector<double> oc(r.cps), ok(r.knots); for (auto &v : oc) { v *= 0.5; } for (auto &v : ok) { v *= 2; } place("cps", r.cps, oc); place("knots", r.knots, ok); if (r.p != 3 || g.coin()) { place("degree", r.p, r.p + 1); } mats[mn]["reluctivity"][mod] = lib; if (lib.is_null()) { mats[mn]["reluctivity"][mod] = json::object(); } mat = {{"name", mn}, {"reluctivity", own}}; r.kind = lg ? 3 : 4;
      }
      k.j["material"] = mat; comps[k.name] = k.j; for (int a : k.attrs) { ref[a] = r; }
   }
   if (cs.empty()) { comps = json::object(); } json opt = {{"components", comps}}; miso::ReluctivityCoefficient nu(opt, mats); miso::StateCoefficient &M = nu;
   for (int a = 1; a <= na + 1; ++a)
   {
      Ref r = ref.count(a) ? ref[a] : Ref(); E.next(); E.attr(a);
      auto f = [&](double b) { if (r.kind < 3) { return 1 / (r.mur * mu0); } if (r.kind == 3) { return b <= r.bmax ? exp(bspline(r.cps, r.knots, r.p, b)) : nu0; } if (b <= r.bmax) { return bspline(r.cps, r.knots, r.p, b) / b; } return (r.cps.back() + nu0 * (b - r.bmax)) / b; };
      for (int q = 0; q < 4; ++q)
      {
         double b = r.kind >= 3 ? (g.coin(0.8) ? g.uni(0.05, 0.95) * r.bmax : g.uni(1.05, 2) * r.bmax) : g.uni(0, 4); if (r.kind >= 3) { c.count(b < r.bmax ? "on-the-curve" : "beyond-the-curve"); for (double t : r.knots) { if (std::fabs(t - b) < 0.012) { b = -1; } } if (b < 0) { continue; } }
         double v = f(b); c.rel(M.Eval(E.T, E.ip, b), v, 1e-11, 0, "reluctivity"); auto fv = [&](double h) { return f(b + h); }; auto fd = [&](double h) { return M.EvalStateDeriv(E.T, E.ip, b + h); };
         derivative(c, M.EvalStateDeriv(E.T, E.ip, b), fv, "reluctivity-derivative", v, 2e-3); derivative(c, M.EvalState2ndDeriv(E.T, E.ip, b), fd, "reluctivity-second-derivative", v, 2e-3);
         DenseMatrix P(E.T.GetPointMat()), P0(P); M.EvalRevDiff(g.uni(-1, 1), E.T, E.ip, b, P); P -= P0; if (r.kind >= 3) { c.check(P.MaxMaxNorm() == 0, "reluctivity-does-not-depend-on-position"); }
      }
      if (r.kind == 4)
      {  // the limit of zero flux
         auto at0 = [&](int n) { auto q = r.cps; auto k = r.knots; int p = r.p; for (; n > 0; --n, --p) { if (!p) { return 0.0; } std::vector<double> d; for (size_t i = 0; i + 1 < q.size(); ++i) { d.push_back(p * (q[i + 1] - q[i]) / (k[i + p + 1] - k[i + 1])); } q = d; k = std::vector<double>(k.begin() + 1, k.end() - 1); } return q[0]; };
         c.rel(M.Eval(E.T, E.ip, 0.0), at0(1), 1e-9, 0, "reluctivity-at-zero-flux"); c.near(M.EvalStateDeriv(E.T, E.ip, 0.0), at0(2) / 2, 1e-9 * std::fabs(at0(2)) + 1e-9 * std::fabs(at0(1)), "reluctivity-derivative-at-zero-flux"); c.near(M.EvalState2ndDeriv(E.T, E.ip, 0.0), at0(3) / 3, 1e-9 * std::fabs(at0(3)) + 1e-9 * std::fabs(at0(1)), "reluctivity-second-derivative-at-zero-flux"); c.count("zero-flux");
      }
      else if (r.kind == 3) { c.rel(M.Eval(E.T, E.ip, 0.0), exp(r.cps[0]), 1e-12, 0, "reluctivity-at-zero-flux"); c.check(std::isfinite(M.EvalStateDeriv(E.T, E.ip, 0.0)), "finite-at-zero-flux"); }
      else { c.rel(M.Eval(E.T, E.ip), 1 / (r.mur * mu0), 1e-12, 0, "linear-reluctivity"); }
      c.count(r.kind == 3 ? "lognu" : r.kind == 4 ? "bh" : "linear");
   }
   if (g.coin(0.3)) { json bad = {{"components", {{"x", {{"attr", 1}, {"material", {{"name", "m"}, {"reluctivity", {{"model", "nonsense"}}}}}}}}}}, mm; mm["m"] = json::object(); bool ok = false; try { miso::ReluctivityCoefficient n2(bad, mm); } catch (miso::MISOException &) { ok = true; } catch (std::exception &) { } c.check(ok, "unknown-reluctivity-model-is-refused"); c.count("unknown-models"); }
}
/// value and derivatives of a function of one state
template <class F> static void one(El &E, miso::StateCoefficient &M, double s, F f, const std::string &n, double size = 1)
{
   auto &c = E.c; double v = f(s); c.rel(M.Eval(E.T, E.ip, s), v, 1e-11, 1e-12, n); derivative(c, M.EvalStateDeriv(E.T, E.ip, s) * size, [&](double h) { return f(s + h * size); }, n + "-derivative", std::fabs(v)); derivative(c, M.EvalState2ndDeriv(E.T, E.ip, s) * size * size, [&](double h) { return M.EvalStateDeriv(E.T, E.ip, s + h * size) * size; }, n + "-second-derivative", std::fabs(v));
}
static void thermalmodels(Case &c)
{
   auto &g = c.rng; El E(c); int na = g.irand(1, 5); auto cs = components(c, na); json comps, mats = json::object(); struct Ref { int kind = 0; double s = 58.14e6, al = 0, T = 0, k = 0, b = 0; bool demag = false; }; std::map<int, Ref> ref; bool listed = c.in("listed", g.coin());
   for (auto &k : cs)
   {
      std::string mn = "mat_" + k.name; Ref r; json mat = {{"name", mn}}; mats[mn]["rho"] = 1.0; if (g.coin(0.7)) { r.s = g.logu(1e5, 1e8); mats[mn]["sigma"] = r.s; } r.kind = c.in("kind", g.irand(0, 3)); r.demag = g.coin();
      auto place = [&](json &lib, json &own, const char *f, double v) { int w = g.irand(0, 2); if (w == 0) { own[f] = v; } else if (w == 1) { own[f] = v; lib[f] = v * 2 + 1; } else { lib[f] = v; } };
      if (r.kind == 3) { r.al = g.uni(0, 5e-3); r.T = g.uni(250, 320); r.s = g.logu(1e6, 1e8); json lib = json::object(), own = {{"model", "linear"}}; place(lib, own, "alpha_resistivity", r.al); place(lib, own, "T_ref", r.T); place(lib, own, "sigma_T_ref", r.s); mat["conductivity"] = own; mats[mn]["conductivity"]["linear"] = lib; }
      else if (r.kind == 2) { mat["conductivity"] = {{"model", "constant"}}; }
      if (r.demag) { r.k = g.uni(-0.01, 0.01); r.b = g.uni(-3, 1); json lib = json::object(), own = json::object(); place(lib, own, "alpha_B_knee", r.k); place(lib, own, "beta_B_knee", r.b); mat["Demag"] = own; mats[mn]["Demag"] = lib; }
      if (r.kind == 0) { mat = mn; r.demag = false; r.k = r.b = 0; } k.j["material"] = mat; comps[k.name] = k.j; for (int a : k.attrs) { ref[a] = r; } if (r.demag && k.single) { c.count("demag-single-attribute"); }
   }
   if (cs.empty()) { comps = json::object(); } json opt = {{"components", comps}}; miso::ConductivityCoefficient sg(opt, mats); miso::DemagFluxCoefficient dm(listed ? opt : comps, mats); 
   for (int a = 1; a <= na + 1; ++a)
   {
      Ref r = ref.count(a) ? ref[a] : Ref(); E.next(); E.attr(a); double T = g.uni(200, 500);
      one(E, sg, T, [&](double T) { return r.kind == 3 ? r.s / (1 + r.al * (T - r.T)) : r.s; }, "conductivity", 50); one(E, dm, T, [&](double T) { return r.k * T + r.b; }, "knee-flux", 50); if (r.kind < 3) { c.rel(static_cast<Coefficient &>(sg).Eval(E.T, E.ip), r.s, 1e-12, 0, "constant-conductivity"); } c.count(r.kind == 3 ? "temperature-dependent" : "constant"); if (r.demag) { c.count("knees"); }
   }
   // remnant flux: options of one material
   double al = -0.12, Tr = 293.15, Br = 1.39; json m = json::object(); if (g.coin()) { m["alpha_B_r"] = al = g.uni(-0.3, 0); } if (g.coin()) { m["T_ref"] = Tr = g.uni(250, 320); } if (g.coin()) { m["B_r_T_ref"] = Br = g.uni(0.2, 1.6); }
   miso::RemnantFluxCoefficient br(m); E.attr(g.irand(1, 9)); one(E, br, g.uni(200, 500), [&](double T) { return Br * (1 + al / 100 * (T - Tr)); }, "remnant-flux", 50); c.count("remnant-fluxes");
   if (g.coin(0.3)) { json bad = {{"components", {{"x", {{"attr", 1}, {"material", {{"name", "m"}, {"conductivity", {{"model", "nonsense"}}}}}}}}}}, mm; mm["m"] = json::object(); bool ok = false; try { miso::ConductivityCoefficient n2(bad, mm); } catch (miso::MISOException &) { ok = true; } catch (std::exception &) { } c.check(ok, "unknown-conductivity-model-is-refused"); c.count("unknown-models"); }
}
static void demag(Case &c)
{
   auto &g = c.rng; El E(c); int na = g.irand(1, 4); auto cs = components(c, na); json comps, mats = json::object(); struct Ref { bool on = false; double p[9] = {}; }; std::map<int, Ref> ref; bool listed = c.in("listed", g.coin());
   const char *key[] = {"T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_B_knee", "beta_B_knee", "alpha_H_knee", "beta_H_knee"};
   for (auto &k : cs)
   {
      std::string mn = "mat_" + k.name; Ref r; json mat = {{"name", mn}}; mats[mn]["rho"] = 1.0; int kind = g.irand(0, 3);
      if (kind >= 2)
      {
         r.on = true; double v[] = {g.uni(280, 300), g.uni(-0.2, -0.05), g.uni(1.1, 1.5), g.uni(-0.7, -0.4), g.uni(-1.2e6, -0.8e6), g.uni(0.002, 0.006), g.uni(-2.6, -1.8), g.uni(4e3, 8e3), g.uni(-3.2e6, -2.5e6)}; json lib = json::object(), own = json::object();
         for (int i = 0; i < 9; ++i) { r.p[i] = v[i]; int w = g.irand(0, 2); if (w == 0) { own[key[i]] = v[i]; } else if (w == 1) { own[key[i]] = v[i]; lib[key[i]] = 7.0; } else { lib[key[i]] = v[i]; } } mat["Demag"] = own; mats[mn]["Demag"] = lib; if (k.single) { c.count("single-attribute"); }
      }
      if (kind == 0) { mat = mn; } k.j["material"] = mat; comps[k.name] = k.j; for (int a : k.attrs) { ref[a] = r; }
   }
   if (cs.empty()) { comps = json::object(); } json opt = {{"components", comps}}; miso::PMDemagConstraintCoefficient pm(listed ? opt : comps, mats); miso::TwoStateCoefficient &M = pm;
   for (int a = 1; a <= na + 1; ++a)
   {
      Ref r = ref.count(a) ? ref[a] : Ref(); E.next(); E.attr(a); double B = g.uni(-0.5, 1.5), T = g.uni(290, 400), sT = 10;
      auto f = [&](double B, double T) { if (!r.on) { return 0.0; } double *p = r.p, Bk = p[5] * T + p[6], Hk = p[7] * T + p[8], Br = p[2] * (1 + p[1] / 100 * (T - p[0])), Hc = p[4] * (1 + p[3] / 100 * (T - p[0])); return (Hk / (Bk - Br) - (Hk - Hc) / Bk) * B - (Hc + Br * Hk / (Bk - Br)); };
      // away from the poles of the formula
      if (r.on) { double *p = r.p, Bk = p[5] * T + p[6], Br = p[2] * (1 + p[1] / 100 * (T - p[0])); if (std::fabs(Bk) < 0.25 || std::fabs(Bk - Br) < 0.25) { c.count("near-a-pole"); continue; } }
      double v = f(B, T), sc = r.on ? 1e5 + std::fabs(v) : 1; c.near(M.Eval(E.T, E.ip, B, T), v, 1e-10 * sc, "constraint"); using D = double; auto d1 = [&](D B, D T) { return M.EvalDerivS1(E.T, E.ip, B, T); }; auto d2 = [&](D B, D T) { return M.EvalDerivS2(E.T, E.ip, B, T) * sT; };
      derivative(c, d1(B, T), [&](double h) { return f(B + h, T); }, "constraint-by-flux", sc); derivative(c, d2(B, T), [&](double h) { return f(B, T + sT * h); }, "constraint-by-temperature", sc); derivative(c, M.Eval2ndDerivS1(E.T, E.ip, B, T), [&](double h) { return d1(B + h, T); }, "constraint-by-flux-twice", sc);
      derivative(c, M.Eval2ndDerivS2(E.T, E.ip, B, T) * sT * sT, [&](double h) { return d2(B, T + sT * h); }, "constraint-by-temperature-twice", sc); derivative(c, M.Eval2ndDerivS1S2(E.T, E.ip, B, T) * sT, [&](double h) { return d1(B, T + sT * h); }, "constraint-by-flux-and-temperature", sc); derivative(c, M.Eval2ndDerivS2S1(E.T, E.ip, B, T) * sT, [&](double h) { return d2(B + h, T); }, "constraint-by-temperature-and-flux", sc);
      if (r.on) { c.count("constraints"); } else { c.count("no-magnet"); }
   }
}
template <class C> static void coreloss(Case &c, const char *base)
{
   auto &g = c.rng; El E(c); int na = g.irand(1, 4); auto cs = components(c, na); json comps, mats = json::object(); struct Ref { int on = 0; double k = 1, T0 = 0, T1 = 0; std::vector<double> a, b; }; std::map<int, Ref> ref; bool listed = c.in("listed", g.coin()); std::string b0 = base;
   for (auto &k : cs)
   {
      std::string mn = "mat_" + k.name; Ref r; json mat = {{"name", mn}}; mats[mn]["rho"] = 1.0; if (g.coin()) { mats[mn][b0] = r.k = g.uni(0.1, 4); } int kind = c.in("kind", g.irand(0, 3));
      if (kind >= 2)
      {
         r.on = 1; r.T0 = g.uni(280, 300); r.T1 = g.uni(350, 450); int n = g.irand(1, 6), n2 = g.coin(0.7) ? n : g.irand(1, 6); for (int i = 0; i < n; ++i) { r.a.push_back(i ? g.uni(-0.1, 0.1) : g.uni(1, 2)); } for (int i = 0; i < n2; ++i) { r.b.push_back(i ? g.uni(-0.1, 0.1) : g.uni(1, 2)); } json lib = json::object(), own = json::object();
         auto place = [&](const std::string &f, json v, json o) { int w = g.irand(0, 2); if (w == 0) { own[f] = v; } else if (w == 1) { own[f] = v; lib[f] = o; } else { lib[f] = v; } }; std::vector<double> o{3, 1}; place("T0", r.T0, 1.0); place("T1", r.T1, 2.0); place(b0 + "_T0", r.a, o); place(b0 + "_T1", r.b, o); mat["core_loss"] = own; mats[mn]["core_loss"]["CAL2"] = lib; if (k.single) { c.count("single-attribute"); }
      }
      if (kind == 0) { mat = mn; } k.j["material"] = mat; comps[k.name] = k.j; for (int a : k.attrs) { ref[a] = r; }
   }
   if (cs.empty()) { comps = json::object(); } json opt = {{"components", comps}}; C cf(listed ? opt : comps, mats); miso::ThreeStateCoefficient &M = cf;
   for (int a = 1; a <= na + 1; ++a)
   {
      Ref r = ref.count(a) ? ref[a] : Ref(); E.next(); E.attr(a); double T = g.uni(280, 480), F = g.uni(10, 2000), B = g.uni(0.05, 2), sT = 30, sF = 100; bool z = c.in("zero-flux", g.coin(0.2)); if (z) { B = 0; c.count("zero-flux"); }
      auto poly = [](const std::vector<double> &p, double x) { double s = 0; for (int i = (int)p.size() - 1; i >= 0; --i) { s = s * x + p[i]; } return s; };
      auto f = [&](double T, double F, double B) { (void)F; if (!r.on) { return r.k; } double u = poly(r.a, B), v = poly(r.b, B); return u + (T - r.T0) / (r.T1 - r.T0) * (v - u); };
      double v = f(T, F, B), sc = 1 + std::fabs(v); c.near(M.Eval(E.T, E.ip, T, F, B), v, 1e-10 * sc, "coefficient"); using D = double;
      auto d1 = [&](D T, D F, D B) { return sT * M.EvalDerivS1(E.T, E.ip, T, F, B); }; auto d2 = [&](D T, D F, D B) { return sF * M.EvalDerivS2(E.T, E.ip, T, F, B); }; auto d3 = [&](D T, D F, D B) { return M.EvalDerivS3(E.T, E.ip, T, F, B); };
      derivative(c, d1(T, F, B), [&](D h) { return f(T + sT * h, F, B); }, "by-temperature", sc); derivative(c, d2(T, F, B), [&](D h) { return f(T, F + sF * h, B); }, "by-frequency", sc); derivative(c, d3(T, F, B), [&](D h) { return f(T, F, B + h); }, "by-flux", sc);
#define S2(name, fac, fn, expr) derivative(c, (fac) * M.name(E.T, E.ip, T, F, B), [&](D h) { return fn expr; }, #name, sc);
      S2(Eval2ndDerivS1, sT * sT, d1, (T + sT * h, F, B)) S2(Eval2ndDerivS2, sF * sF, d2, (T, F + sF * h, B)) S2(Eval2ndDerivS3, 1, d3, (T, F, B + h)) S2(Eval2ndDerivS1S2, sT * sF, d1, (T, F + sF * h, B)) S2(Eval2ndDerivS2S1, sT * sF, d2, (T + sT * h, F, B)) S2(Eval2ndDerivS1S3, sT, d1, (T, F, B + h)) S2(Eval2ndDerivS3S1, sT, d3, (T + sT * h, F, B)) S2(Eval2ndDerivS2S3, sF, d2, (T, F, B + h)) S2(Eval2ndDerivS3S2, sF, d3, (T, F + sF * h, B))
      c.count(r.on ? "polynomial-losses" : "constant-losses");
   }
}

static void currents(Case &c)
{
   auto &g = c.rng; bool three = c.in("three-d", g.coin(0.7)); El E(c, three ? 3 : 2); int na = g.irand(1, 6), ng = g.irand(1, 3); json opt; std::map<int, std::pair<std::string, int>> src; std::vector<std::string> names; const std::vector<std::string> s3{"cwStator", "ccwStator", "x", "y", "z", "-z", "ring", "box1", "box2", "team13"}, s2{"z", "-z", "box1", "box2"}; bool stator = false;
   for (int k = 0; k < ng; ++k) { names.push_back("phase" + std::to_string(k)); opt[names.back()] = json::object(); }
   for (int a = 1; a <= na; ++a) { if (g.coin(0.8)) { std::string s = three ? g.pick(s3) : g.pick(s2); int k = g.irand(0, ng - 1); opt[names[k]][s].push_back(a); src[a] = {s, k}; stator |= s.find("Stator") != std::string::npos; c.desc << a << ":" << s << " "; } }
   adept::Stack stack; std::unique_ptr<miso::CurrentDensityCoefficient> C3; std::unique_ptr<miso::CurrentDensityCoefficient2D> C2; if (three) { C3.reset(new miso::CurrentDensityCoefficient(stack, opt, 3)); } else { C2.reset(new miso::CurrentDensityCoefficient2D(stack, opt)); }
   std::vector<double> J(ng, 1.0), cache(ng, 0.0); double slots = 24, stack_length = 0.345;
   auto ref = [&](int a, const Vector &x) { Vector r(3); r = 0.0; if (!src.count(a)) { return r; } auto [s, k] = src[a]; double y = x(1);
      if (s == "x") { r(0) = 1; } else if (s == "y") { r(1) = 1; } else if (s == "z") { r(2) = 1; } else if (s == "-z") { r(2) = -1; } else if (s == "box1") { r(2) = -6 * (y - 0.5); } else if (s == "box2") { r(2) = 6 * (y - 0.5); }
      else if (s == "ring") { double n = hypot(x(0), y); r(0) = -y / n; r(1) = x(0) / n; }
      else if (s == "team13") { double X = x(0), h = 0.075, u = 0, v = 0; if (std::fabs(y) <= h) { v = X > 0 ? 1 : -1; } else if (std::fabs(X) <= h) { u = y > 0 ? -1 : 1; } else { double cx = X > 0 ? h : -h, cy = y > 0 ? h : -h; u = -(y - cy); v = X - cx; } double n = hypot(u, v); r(0) = u / n; r(1) = v / n; }
      else
      {
         double th = 2 * M_PI / int(slots), t = atan2(y, x(0)), w = std::round(t / th), d = t - w * th, zt = stack_length / 2, z = x(2);
         if (std::fabs(z) <= zt) { r(2) = d > 0 ? -1 : 1; } else { double rz = z > 0 ? z - zt : z + zt, ax = cos(w * th), ay = sin(w * th); r(0) = -rz * ay; r(1) = rz * ax; r(2) = x(0) * ay - y * ax; r /= r.Norml2(); }
         if (s == "cwStator") { r *= -1; }
      }
      r *= J[k]; return r; };
   // -z component of the 2-D source: the sign convention of the out-of-plane potential
   auto judge = [&](bool rev) { for (int i = 0; i < 4; ++i)
   {
      int a = g.irand(1, na + 1); E.next(); E.attr(a); Vector x = E.x();
      // away from the switches between the branches
      if (src.count(a)) { auto s = src[a].first; if (s == "team13") { bool near = false; for (double h : {0.075, -0.075}) { near |= std::fabs(x(0) - h) < 0.02 || std::fabs(x(1) - h) < 0.02; } if (near || (std::fabs(x(1)) <= 0.075 && std::fabs(x(0)) < 0.05)) { c.count("at-a-switch"); continue; } } else if (s.find("Stator") != std::string::npos) { double th = M_PI / int(slots), t = atan2(x(1), x(0)), f = std::remainder(t, th); if (std::fabs(f) * hypot(x(0), x(1)) < 0.02 || std::fabs(std::fabs(x(2)) - stack_length / 2) < 0.02) { c.count("at-a-switch"); continue; } } if (hypot(x(0), x(1)) < 0.1) { continue; } }
      Vector want = ref(a, x); c.count(src.count(a) ? "sources" : "no-source"); if (src.count(a)) { c.count("source-" + src[a].first); }
      if (three) { Vector v(3), w = rvec(g, 3); v = 1e9; C3->Eval(v, E.T, E.ip); same(c, v, want, 1e-11, "current-density"); if (rev) { E.rev([&] { Vector r = ref(a, E.x()); return r * w; }, [&](DenseMatrix &P) { C3->EvalRevDiff(w, E.T, E.ip, P); }, "current-density-reverse-derivative", 1); } }
      else { c.near(C2->Eval(E.T, E.ip), -want(2), 1e-11 * (1 + std::fabs(want(2))), "current-density-2d"); double w = g.uni(-1, 1); if (rev) { E.rev([&] { return -w * ref(a, E.x())(2); }, [&](DenseMatrix &P) { C2->EvalRevDiff(w, E.T, E.ip, P); }, "current-density-2d-reverse-derivative", 1); } }
   } };
   auto set = [&](const MISOInputs &in) { return C3 ? setInputs(*C3, in) : setInputs(*C2, in); }; judge(true);
   // a history of inputs, caching, zeroing and restoring
   for (int n = 0; n < 6; ++n)
   {
      int w = c.in("step", g.irand(0, 4));
      if (w <= 1) { MISOInputs in; in.emplace("unrelated", g.uni(0, 1)); bool changed = false; for (int k = 0; k < ng; ++k) { if (g.coin()) { double v = g.coin(0.3) ? J[k] : g.uni(-1e6, 1e6); changed |= v != J[k]; J[k] = v; in.emplace("current_density:" + names[k], v); } } if (three && stator && g.coin(0.3)) { double v = g.irand(3, 30); changed |= v != slots; slots = v; in.emplace("n_slots", v); v = g.uni(0.1, 1); changed |= v != stack_length; stack_length = v; in.emplace("stack_length", v); c.count("stator-inputs"); } c.check(set(in) == changed, "reports-whether-an-input-changed"); }
      else if (w == 2) { if (C3) { C3->cacheCurrentDensity(); } else { C2->cacheCurrentDensity(); } cache = J; } else if (w == 3) { if (C3) { C3->zeroCurrentDensity(); } else { C2->zeroCurrentDensity(); } J.assign(ng, 0.0); } else { if (C3) { C3->resetCurrentDensityFromCache(); } else { C2->resetCurrentDensityFromCache(); } J = cache; c.count("restored"); if (stator) { c.count("restored-with-stator"); } }
      judge(n == 5);
   }
   c.count(three ? "three-d-currents" : "two-d-currents");
}
static void magnets(Case &c)
{
   auto &g = c.rng; int d = c.in("dim", g.irand(2, 3)); El E(c, d); int na = g.irand(1, 6), nm = g.irand(1, 2); json opt, mats; std::map<int, std::pair<std::string, int>> src; struct M { double a = -0.12, T = 293.15, B = 1.39; }; std::vector<M> mat(nm); std::vector<std::string> names; std::vector<std::string> kinds{"north", "south", "cw", "ccw", "x", "y"}; if (d == 3) { kinds.push_back("z"); }
   for (int k = 0; k < nm; ++k) { names.push_back("magnet" + std::to_string(k)); opt[names[k]] = json::object(); json m = json::object(); if (g.coin()) { m["alpha_B_r"] = mat[k].a = g.uni(-0.3, 0); } if (g.coin()) { m["T_ref"] = mat[k].T = g.uni(250, 320); } if (g.coin()) { m["B_r_T_ref"] = mat[k].B = g.uni(0.2, 1.6); } mats[names[k]] = m; }
   for (int a = 1; a <= na; ++a) { if (g.coin(0.8)) { std::string s = g.pick(kinds); int k = g.irand(0, nm - 1); opt[names[k]][s].push_back(a); src[a] = {s, k}; } }
   adept::Stack stack; miso::MagnetizationCoefficient mc(stack, opt, mats, d); miso::VectorStateCoefficient &V = mc;
   auto ref = [&](int a, const Vector &x, double T) { Vector r(d); r = 0.0; if (!src.count(a)) { return r; } auto [s, k] = src[a]; double n = hypot(x(0), x(1)); if (s == "x") { r(0) = 1; } else if (s == "y") { r(1) = 1; } else if (s == "z") { r(2) = 1; } else if (s == "north" || s == "south") { double q = s == "north" ? 1 : -1; r(0) = q * x(0) / n; r(1) = q * x(1) / n; } else { double q = s == "cw" ? 1 : -1; r(0) = -q * x(1) / n; r(1) = q * x(0) / n; } r *= mat[k].B * (1 + mat[k].a / 100 * (T - mat[k].T)); return r; };
   for (int i = 0; i < 6; ++i)
   {
      int a = g.irand(1, na + 1); E.next(); E.attr(a); Vector x = E.x(); if (hypot(x(0), x(1)) < 0.15) { continue; } double T = g.uni(250, 450); Vector v(d), w = rvec(g, d); v = 1e9; V.Eval(v, E.T, E.ip, T); same(c, v, ref(a, x, T), 1e-12, "magnetization"); v = 1e9; V.EvalStateDeriv(v, E.T, E.ip, T); derivative(c, 30 * (v * w), [&](double h) { return ref(a, x, T + 30 * h) * w; }, "magnetization-by-temperature", 1);
      v = 1e9; V.Eval(v, E.T, E.ip); same(c, v, ref(a, x, 0), 1e-12, "magnetization-without-temperature");
      E.rev([&] { return ref(a, E.x(), T) * w; }, [&](DenseMatrix &P) { V.EvalRevDiff(w, E.T, E.ip, T, P); }, "magnetization-reverse-derivative", 1); c.count(src.count(a) ? "magnets" : "no-magnet"); if (src.count(a)) { c.count("magnet-" + src[a].first); }
   }
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv); init(argc, argv);
   run("containers", 1200, containers); run("vectors", 600, vcontainers); run("products", 600, products); run("construct", 900, construct); run("reluctivity", 900, reluctivity);
   run("temperature", 750, thermalmodels); run("demag", 750, demag); run("hysteresis", 450, [](Case &c) { coreloss<miso::CAL2khCoefficient>(c, "kh"); }); run("eddy", 450, [](Case &c) { coreloss<miso::CAL2keCoefficient>(c, "ke"); }); run("current", 900, currents); run("magnet", 750, magnets);
   int r = finish(); MPI_Finalize(); return r;
}
