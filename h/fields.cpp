// C30: finite element fields and duals: their spaces, their true vectors, projections and norms.
#include "integcheck.hpp"
#include "finite_element_dual.hpp"
#include "sbp_fe.hpp"
using namespace ic;

struct Kind { std::string name; int lo, hi; bool vec, nodal, plane; };
static const std::vector<Kind> kinds{{"H1", 1, 4, false, false, false}, {"h1", 1, 3, false, false, false}, {"CG", 1, 3, false, false, false}, {"cg", 1, 3, false, false, false}, {"L2", 0, 3, false, false, false}, {"l2", 0, 3, false, false, false}, {"DG", 0, 3, false, false, false}, {"dg", 0, 3, false, false, false}, {"ND", 1, 3, true, false, false}, {"nd", 1, 2, true, false, false}, {"nedelec", 1, 2, true, false, false}, {"RT", 0, 2, true, false, false}, {"rt", 0, 2, true, false, false}, {"CSBP", 0, 4, false, true, true}, {"csbp", 0, 4, false, true, true}, {"DSBP", 0, 4, false, true, true}, {"dsbp", 0, 4, false, true, true}};
/// the collection a user means
static std::unique_ptr<FiniteElementCollection> meant(const Kind &k, int p, int dim)
{
   char a = std::tolower(k.name[0]), b = std::tolower(k.name[1]); std::unique_ptr<FiniteElementCollection> r;
   if (k.nodal) { if (a == 'c') { r.reset(new SBPCollection(p, dim)); } else { r.reset(new DSBPCollection(p, dim)); } }
   else if (a == 'n') { r.reset(new ND_FECollection(p, dim)); } else if (a == 'r') { r.reset(new RT_FECollection(p, dim)); } else if (a == 'l' || (a == 'd' && b == 'g')) { r.reset(new L2_FECollection(p, dim)); } else { r.reset(new H1_FECollection(p, dim)); } return r;
}
struct Setup
{
   Case &c; Rng &g; int dim; std::unique_ptr<Env> E; Kind k; int p, vd; std::unique_ptr<FiniteElementState> u; bool gd;
   Setup(Case &c_) : c(c_), g(c.rng)
   {
      k = g.pick(kinds); dim = k.plane ? 2 : g.irand(2, 3); E.reset(new Env(c, dim, k.plane ? 0 : -1)); p = c.in("degree", g.irand(k.lo, k.hi)); if (dim == 3 && p > 2) { p = c.in("degree", 2); } vd = k.vec ? 1 : c.in("states", g.irand(1, 4)); c.in("basis", k.name);
      gd = k.name == "dg" && dim == 2 && !E->tensor && g.coin(0.3); json o{{"degree", p}, {"basis-type", k.name}}; if (gd) { o["GD"] = true; k.nodal = true; } else if (g.coin(0.2)) { o["GD"] = false; }
      u.reset(new FiniteElementState(*E->mesh, o, vd, "a name")); c.count("basis-" + k.name); c.check(u->name() == "a name", "name"); c.check(&u->mesh() == E->mesh.get(), "mesh"); check(*u, "made-from-options");
   }
   /// of the space that was asked for
   void check(miso::FiniteElementVector &f, const char *o)
   {
      Kind q = k; if (gd) { q = kinds[15]; } auto fec = meant(q, p, dim); ParFiniteElementSpace s(E->mesh.get(), fec.get(), vd, Ordering::byVDIM); auto &t = f.space();
      c.check(std::string(t.FEColl()->Name()) == fec->Name(), o, t.FEColl()->Name()); c.check(std::string(f.coll().Name()) == fec->Name(), o); c.check(t.GetVDim() == vd && t.GetVSize() == s.GetVSize() && t.GetTrueVSize() == s.GetTrueVSize() && t.GetOrdering() == s.GetOrdering(), o);
      for (int e = 0; e < t.GetNE(); ++e) { Array<int> a, b; t.GetElementVDofs(e, a); s.GetElementVDofs(e, b); c.check(a == b && t.GetFE(e)->GetOrder() == s.GetFE(e)->GetOrder() && t.GetFE(e)->GetDof() == s.GetFE(e)->GetDof(), o); }
   }
   const IntegrationRule &rule(int e) { auto *fe = u->space().GetFE(e); return k.nodal ? fe->GetNodes() : IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 3); }
   int comps() { return k.vec ? dim : vd; }
   Vector at(FiniteElementState &f, ElementTransformation &T, const IntegrationPoint &ip) { Vector v(comps()); if (comps() == 1) { v(0) = f.gridFunc().GetValue(T, ip); } else { f.gridFunc().GetVectorValue(T, ip, v); } return v; }
   template <class F> void points(F f) { for (int e = 0; e < E->mesh->GetNE(); ++e) { auto &ir = rule(e); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &T = *E->mesh->GetElementTransformation(e); auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); Vector x; T.Transform(ip, x); f(T, ip, x); } } }
};
static bool equal(const Vector &a, const Vector &b) { if (a.Size() != b.Size()) { return false; } for (int i = 0; i < a.Size(); ++i) { if (a(i) != b(i)) { return false; } } return true; }
/// spaces, true vectors, duals, copies and moves
static void fields(Case &c)
{
   Setup s(c); auto &g = c.rng; auto &u = *s.u; int n = u.space().GetTrueVSize(); c.check(norm(u.gridFunc()) == 0, "starts-at-zero");
   Vector t = rvec(g, n), t0(t), r(n); u.distributeSharedDofs(t); r = 1e9; u.setTrueVec(r); c.check(equal(r, t), "true-values-come-back"); c.check(equal(t, t0), "true-values-untouched"); { Vector e; u.setTrueVec(e); c.check(equal(e, t), "true-values-come-back-sized"); }
   // a dual on the same space: pairing of local and true vectors
   auto dual = g.coin() ? std::make_unique<miso::FiniteElementDual>(u.mesh(), u.space()) : std::make_unique<miso::FiniteElementDual>(u.mesh(), json{{"degree", s.p}, {"basis-type", s.k.name}, {"GD", s.gd}}, s.vd, "dual"); s.check(*dual, "dual-space"); c.check(norm(dual->localVec()) == 0, "starts-at-zero");
   Vector l = rvec(g, u.space().GetVSize()), d(n); dual->localVec() = l; dual->setTrueVec(d); c.rel(d * t, InnerProduct(l, u.gridFunc()), 1e-12, 1e-12, "pairing"); dual->distributeSharedDofs(t); c.rel(InnerProduct(dual->localVec(), u.gridFunc()), t * t, 1e-12, 1e-12, "pairing-back"); dual->setTrueVec(d); same(c, d, t, 1e-14, "dual-true-values-come-back");
   // built from another's space: the same, but of its own
   FiniteElementState v(u.mesh(), u.space(), "other"); s.check(v, "made-from-a-space"); c.check(&v.space() != &u.space() && norm(v.gridFunc()) == 0 && v.name() == "other", "a-space-of-its-own"); v.distributeSharedDofs(t); // (nodal elements know their own nodes)
   { double w = 0; for (int e = 0; e < u.mesh().GetNE(); ++e) { auto &T = *u.mesh().GetElementTransformation(e); auto &ru = s.rule(e); auto &rv = s.k.nodal ? v.space().GetFE(e)->GetNodes() : ru; for (int i = 0; i < ru.GetNPoints(); ++i) { T.SetIntPoint(&ru.IntPoint(i)); Vector a = s.at(u, T, ru.IntPoint(i)); T.SetIntPoint(&rv.IntPoint(i)); a -= s.at(v, T, rv.IntPoint(i)); w = std::max(w, norm(a)); } } c.near(w, 0, 1e-13, "same-values-in-the-copy"); }
   // moved, by construction and by assignment, alive after the source died
   {  auto a = std::make_unique<FiniteElementState>(u.mesh(), u.space(), "moved"); a->distributeSharedDofs(t); auto *sp = &a->space(); FiniteElementState b(std::move(*a)); a.reset(); c.check(&b.space() == sp && b.name() == "moved" && &b.mesh() == &u.mesh(), "moved-construction"); b.setTrueVec(r); c.check(equal(r, t), "moved-keeps-values");
      v = std::move(b); c.check(v.name() == "moved" && &v.space() == sp, "moved-assignment"); v.setTrueVec(r); c.check(equal(r, t), "moved-keeps-values"); r = rvec(g, n); v.distributeSharedDofs(r); Vector q(n); v.setTrueVec(q); c.check(equal(q, r), "moved-works-on"); s.check(v, "moved-space"); c.count("moves"); }
   // projections: polynomials of the space come back at every point; all overloads agree
   if (!s.k.nodal || s.p > 0)
   {
      int m = s.comps(), deg = s.k.vec ? (std::tolower(s.k.name[0]) == 'n' ? s.p - 1 : s.p) : s.k.nodal ? 1 : s.p; if (deg > 0 && s.E->mo > 1) { deg = s.k.nodal ? 1 : 0; } if (s.k.vec && s.E->tensor) { deg = 0; } Vector co = rvec(g, m * (1 + 2 * s.dim)); if (deg == 0) { for (int i = 0; i < m; ++i) { for (int j = 1; j < 1 + 2 * s.dim; ++j) { co(i * (1 + 2 * s.dim) + j) = 0; } } } if (deg < 2) { for (int i = 0; i < m; ++i) { for (int j = 1 + s.dim; j < 1 + 2 * s.dim; ++j) { co(i * (1 + 2 * s.dim) + j) = 0; } } }
      auto poly = [&, m](const Vector &x, int i) { int o = i * (1 + 2 * s.dim); double q = co(o); for (int j = 0; j < s.dim; ++j) { q += co(o + 1 + j) * x(j) + co(o + 1 + s.dim + j) * x(j) * x((j + 1) % s.dim); } return q; };
      std::function<double(const Vector &)> fs = [&](const Vector &x) { return poly(x, 0); }; std::function<void(const Vector &, Vector &)> fv = [&](const Vector &x, Vector &y) { for (int i = 0; i < m; ++i) { y(i) = poly(x, i); } }; Vector a(n), b(n); a = 1e9; b = -1e9; bool scal = m == 1;
      if (scal) { FunctionCoefficient q(fs); u.project(fs, a); u.project(static_cast<Coefficient &>(q), b); } else { VectorFunctionCoefficient q(m, fv); u.project(fv, a); u.project(static_cast<VectorCoefficient &>(q), b); }
      same(c, a, b, 0, "projections-agree"); u.setTrueVec(b); same(c, a, b, 0, "projection-sets-the-field"); double w = 0, cw = 0; if (s.E->tensor && deg > 0 && (s.E->mo > 1)) { return; }
      auto gc = u.gridFuncCoef(); auto vc = u.vectorGridFuncCoef();
      s.points([&](ElementTransformation &T, const IntegrationPoint &ip, const Vector &x) { Vector q = s.at(u, T, ip), e(m), k(m); if (scal) { e(0) = fs(x); k(0) = gc.Eval(T, ip); } else { fv(x, e); vc.Eval(k, T, ip); } k -= q; q -= e; w = std::max(w, norm(q)); cw = std::max(cw, norm(k)); });
      c.near(cw, 0, 1e-13, "coefficient-of-the-field"); if (!s.k.vec || (!s.E->tensor && s.E->mo == 1)) { c.near(w, 0, 1e-10, "polynomials-come-back"); c.count(scal ? "scalar-projections" : "vector-projections"); }
   }
}
/// norms and errors are those of the integrals
static void norms(Case &c)
{
   Setup s(c); auto &g = c.rng; auto &u = *s.u; int n = u.space().GetTrueVSize(), m = s.comps(); Vector t = rvec(g, n); if (g.coin(0.1)) { t = 0.0; } u.distributeSharedDofs(t); double a = g.uni(-1, 1), b = g.uni(-2, 2);
   auto ex = [&](const Vector &x, int i) { return a + sin(b * x(0) + i) * x(1); }; std::function<double(const Vector &)> fs = [&](const Vector &x) { return ex(x, 0); }; std::function<void(const Vector &, Vector &)> fv = [&](const Vector &x, Vector &y) { for (int i = 0; i < m; ++i) { y(i) = ex(x, i); } }; FunctionCoefficient cs(fs); VectorFunctionCoefficient cv(m, fv);
   auto ref = [&](double p, int entry, bool err) { double v = 0, mx = 0; s.points([&](ElementTransformation &T, const IntegrationPoint &ip, const Vector &x) { Vector q = s.at(u, T, ip); if (err) { for (int i = 0; i < m; ++i) { q(i) -= ex(x, i); } } double l = entry < 0 ? q.Norml2() : std::fabs(q(entry)); mx = std::max(mx, l); v += ip.weight * T.Weight() * std::pow(l, p < 1e300 ? p : 1); }); return p < 1e300 ? (v < 0 ? -std::pow(-v, 1 / p) : std::pow(v, 1 / p)) : mx; };
   std::vector<double> ps{2, 1, 3, g.uni(1, 6), infinity()};
   for (double p : ps)
   {
      double e = p < 1e300 ? 1e-11 : 1e-13; c.rel(p == 2 && g.coin() ? miso::calcLpNorm(u) : miso::calcLpNorm(u, p), ref(p, -1, false), e, 1e-13, "norm"); 
      if (m == 1 && !s.k.vec) { c.rel(miso::calcLpError(u, cs, p), ref(p, -1, true), e, 1e-13, "error"); c.rel(miso::calcLpError(u, fs, p), ref(p, -1, true), e, 1e-13, "error-against-a-function"); if (p == 2) { c.rel(miso::calcL2Error(u, cs), ref(2, -1, true), e, 1e-13, "mean-square-error"); } c.count("scalar-errors"); }
      else
      {
         int k = g.irand(-1, m - 1); c.rel(miso::calcLpError(u, cv, p, k), ref(p, k, true), e, 1e-13, k < 0 ? "error-of-vectors" : "error-of-a-component"); c.rel(miso::calcLpError(u, fv, p, k), ref(p, k, true), e, 1e-13, k < 0 ? "error-of-vectors" : "error-of-a-component"); if (k < 0) { c.rel(miso::calcLpError(u, cv, p), ref(p, -1, true), e, 1e-13, "error-of-vectors"); } else { c.count(p < 1e300 ? "component-errors" : "component-maxima"); }
         if (p == 2) { c.rel(miso::calcL2Error(u, cv, k), ref(2, k, true), e, 1e-13, "mean-square-error-of-vectors"); } c.count("vector-errors");
      }
   }
}
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv); init(argc, argv);
   run("fields", 1200, fields); run("norms", 1500, norms);
   int rc = finish(); MPI_Finalize(); return rc;
}
