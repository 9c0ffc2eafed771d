// C19: general-purpose outputs and the shared integrators: values against
// pointwise integrals, derivatives against extrapolated differences.
#include "integcheck.hpp"
#include "common_outputs.hpp"
#include "mfem_common_integ.hpp"
#include "coefficient.hpp"
using namespace ic;

static json attrs(Env &E, std::vector<int> &m) { json o = json::object(); if (E.g.coin(0.6)) { m = E.emarks(); o["attributes"] = m; E.c.count("restricted-outputs"); } return o; }
static int ord_w(const FiniteElement &, ElementTransformation &T) { return T.OrderW(); }
static int ord_2p(const FiniteElement &el, ElementTransformation &) { return 2 * el.GetOrder(); }
/// the same object, directly or behind the type-erased wrapper
template <class Out> static void judge(Env &E, Out &&O, const std::vector<std::string> &wrt, double expect, double tol = 1e-11)
{ if (E.g.coin()) { miso::MISOOutput W(std::move(O)); E.c.count("type-erased"); output(E, W, wrt, expect, true, tol); } else { output(E, O, wrt, expect, true, tol); } }

static void volume(Case &c)
{
   Quiet q; Env E(c, c.in("dim", c.rng.coin(0.7) ? 2 : 3)); E.add("state", c.rng.coin() ? "h1" : "l2", c.in("order", c.rng.irand(1, 3))); std::vector<int> m; json o = attrs(E, m);
   double v = E.integrate(E.at("state"), m, ord_w, [](ElementTransformation &, const IntegrationPoint &) { return 1.0; });
   judge(E, miso::VolumeFunctional(E.fields, o), {"mesh_coords"}, v); c.count("volumes");
}
static void mass(Case &c)
{
   Quiet q; auto &g = c.rng; Env E(c, c.in("dim", g.coin(0.7) ? 2 : 3)); E.add("state", g.coin() ? "h1" : "l2", c.in("order", g.irand(1, 3))); std::vector<int> m; json o = attrs(E, m);
   // components: each attribute has a plain density, a mixture by fill factor (arithmetic mean), or nothing
   json comps = json::object(), mats = json::object(); std::vector<int> kind(E.na + 1, 0); std::vector<double> a(E.na + 1), b(E.na + 1); bool mix = false;
   for (int k = 1; k <= E.na; ++k)
   {
      kind[k] = g.irand(0, 3); a[k] = g.uni(0.5, 9); b[k] = g.uni(0.5, 9); std::string n = "part" + std::to_string(k), mn = "mat" + std::to_string(k); if (kind[k] == 0) { continue; }
      if (g.coin()) { comps[n]["attr"] = k; } else { comps[n]["attrs"] = {k}; }
      if (g.coin(0.3)) { comps[n]["material"] = {{"name", mn}}; } else { comps[n]["material"] = mn; }
      if (kind[k] < 3) { mats[mn]["rho"] = a[k]; }
      else { mix = true; mats[mn + "a"] = {{"rho", a[k]}, {"drho_df", a[k]}}; mats[mn + "b"] = {{"rho", b[k]}, {"drho_df", b[k]}}; mats[mn]["rho"] = {{"materials", {mn + "a", mn + "b"}}, {"weighted_by", "fill_factor"}, {"weight", "average"}}; mats[mn]["drho_df"] = {{"materials", {mn + "a", mn + "b"}}, {"weighted_by", "fill_factor"}, {"weight", "daverage"}}; }
   }
   E.sc["fill_factor"] = g.uni(0, 1);
   auto rho = [&](int at) { double w = E.sc["fill_factor"], hi = std::max(a[at], b[at]), lo = std::min(a[at], b[at]); return kind[at] == 0 ? 0 : kind[at] < 3 ? a[at] : w * hi + (1 - w) * lo; };
   auto ref = [&] { return E.integrate(E.at("state"), m, ord_w, [&](ElementTransformation &T, const IntegrationPoint &) { return rho(T.Attribute); }); };
   miso::MassFunctional M(E.fields, comps, mats, o); output(E, M, {"mesh_coords"}, ref());
   // the derivative with respect to the fill factor, at several fill factors
   for (int k = 0; k < 2; ++k)
   {
      E.sc["fill_factor"] = g.uni(0, 1); MISOInputs in = E.inputs(); Vector s(1); s(0) = g.uni(-2, 2); double r0 = ref(); setInputs(M, in);
      double bar = vectorJacobianProduct(M, s, "fill_factor"); double save = E.sc["fill_factor"]; E.sc["fill_factor"] += 1; double r1 = ref(); E.sc["fill_factor"] = save; c.rel(bar, s(0) * (r1 - r0), 1e-11, 1e-12, "fill-factor-product");
      MISOInputs i2 = E.inputs(); c.rel(calcOutput(M, i2), r0, 1e-11, 1e-13, "value-after-fill-factor-product");
   }
   c.count("masses"); if (mix) { c.count("mixtures"); }
}
static void average(Case &c)
{
   Quiet q; Env E(c, c.in("dim", c.rng.coin(0.7) ? 2 : 3)); auto &f = E.add("state", c.rng.coin() ? "h1" : "l2", c.in("order", c.rng.irand(1, 3)), c.in("low", c.rng.coin() ? -1.0 : 0.5), 2); std::vector<int> m; json o = attrs(E, m);
   double s = E.integrate(f, m, [](const FiniteElement &el, ElementTransformation &T) { return 2 * el.GetOrder() + T.OrderW(); }, [&](ElementTransformation &T, const IntegrationPoint &) { return E.val("state", T); });
   double v = E.integrate(f, m, ord_w, [](ElementTransformation &, const IntegrationPoint &) { return 1.0; });
   judge(E, miso::StateAverageFunctional(f.space(), E.fields, o), {"state", "mesh_coords"}, s / v, 1e-10); c.count("averages");
}
static void curl(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3); Env E(c, dim); auto &f = E.add("state", dim == 2 ? "h1" : "nd", c.in("order", g.irand(1, dim == 2 ? 3 : 2))); std::vector<int> m; json o = attrs(E, m);
   double v = E.integrate(f, m, ord_w, [](ElementTransformation &, const IntegrationPoint &) { return 1.0; });
   if (g.coin())
   {
      double s = E.integrate(f, m, ord_curl, [&](ElementTransformation &T, const IntegrationPoint &) { return E.bmag("state", T); });
      judge(E, miso::AverageMagnitudeCurlState(f.space(), E.fields, o), {"state", "mesh_coords"}, s / v); c.count("curl-averages");
   }
   else
   {
      double rho = c.in("rho", g.uni(0.1, 2)); o["rho"] = rho; bool re = g.coin(0.3); miso::IECurlMagnitudeAggregateFunctional O(f.space(), E.fields, o); if (re) { rho = c.in("rho2", g.uni(0.1, 2)); setOptions(O, {{"rho", rho}}); }
      double n = E.integrate(f, m, ord_curl, [&](ElementTransformation &T, const IntegrationPoint &) { double b = E.bmag("state", T); return b * exp(rho * b); }), d = E.integrate(f, m, ord_curl, [&](ElementTransformation &T, const IntegrationPoint &) { return exp(rho * E.bmag("state", T)); });
      judge(E, std::move(O), {"state", "mesh_coords"}, n / d, 1e-10); c.count("curl-aggregates");
   }
}
/// the soft maximum: weighted mean with weights exp(rho g), whatever field it is named after
static void aggregate(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.7) ? 2 : 3); Env E(c, dim); std::string name = c.in("field", g.coin(0.6) ? std::string("state") : std::string("temperature")); double lo = g.uni(-3, 3), hi = lo + g.uni(0.1, 3);
   auto &f = E.add(name, g.coin() ? "h1" : "l2", c.in("order", g.irand(1, 3)), lo, hi); if (name != "state" && g.coin()) { E.add("state", "h1", g.irand(1, 2), -5, 5); }
   std::vector<int> m; json o = attrs(E, m); double rho = 1; if (g.coin(0.8)) { rho = g.logu(0.05, 20); o["rho"] = rho; } if (name != "state" || g.coin(0.3)) { o["state"] = name; } c.in("rho", rho);
   miso::IEAggregateFunctional O(f.space(), E.fields, o); if (g.coin(0.3)) { rho = c.in("rho2", g.logu(0.05, 20)); setOptions(O, {{"rho", rho}}); }
   double top = f.gridFunc().Max(), n = E.integrate(f, m, ord_2p, [&](ElementTransformation &T, const IntegrationPoint &) { double v = E.val(name, T); return v * exp(rho * (v - top)); }), d = E.integrate(f, m, ord_2p, [&](ElementTransformation &T, const IntegrationPoint &) { return exp(rho * (E.val(name, T) - top)); });
   MISOInputs in = E.inputs(); double v = calcOutput(O, in); c.rel(v, n / d, 1e-10, 1e-12, "value");
   // products straight after an evaluation, without setting the inputs again
   Vector dir = E.direction(name), w(1), bar(dir.Size()); w(0) = 1; bar = 0.0; vectorJacobianProduct(O, w, name, bar); derivative(c, bar * dir, E.moved(name, dir, [&] { MISOInputs i2 = E.inputs(); return calcOutput(O, i2); }), "product-after-evaluation", std::fabs(v), 4e-3 / std::max(1.0, rho / 4));
   judge(E, std::move(O), {name, "mesh_coords"}, n / d, 1e-10); c.count("aggregates"); if (name != "state") { c.count("aggregates-of-a-named-field"); }
}
/// the heat flux through a boundary: -kappa grad(u).n
static void normalflux(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.7) ? 2 : 3); Env E(c, dim); auto &f = E.add("state", g.coin() ? "h1" : "l2", c.in("order", g.irand(1, 3))); double k0 = g.uni(0.2, 3), k1 = g.uni(-1, 1);
   FunctionCoefficient kap([=](const Vector &x) { return k0 + k1 * x(0); }); std::vector<int> m; if (g.coin(0.6)) { m = E.bmarks(); }
   miso::FunctionalOutput O(f.space(), E.fields); auto *I = new miso::BoundaryNormalIntegrator(kap); if (m.empty()) { O.addOutputBdrFaceIntegrator(I); } else { O.addOutputBdrFaceIntegrator(I, m); }
   double ex = 0; E.sync();
   for (int b = 0; b < E.mesh->GetNBE(); ++b)
   {
      if (!m.empty() && std::find(m.begin(), m.end(), E.mesh->GetBdrAttribute(b)) == m.end()) { continue; } auto &T = *E.mesh->GetBdrFaceTransformations(b);
      auto &ir = IntRules.Get(T.GetGeometryType(), f.space().GetFE(T.Elem1No)->GetOrder() + T.OrderW());
      for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetAllIntPoints(&ip); Vector n(dim), gr; CalcOrtho(T.Jacobian(), n); f.gridFunc().GetGradient(*T.Elem1, gr); ex -= ip.weight * kap.Eval(*T.Elem1, T.GetElement1IntPoint()) * (gr * n); }
   }
   judge(E, std::move(O), {"state"}, ex, 1e-10); c.count("boundary-fluxes");
}

// ---- bilinear and linear terms differentiated with respect to the mesh -----------
struct XCoef : Coefficient
{
   double a, b; double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double d[3]; Vector x(d, 3); T.Transform(ip, x); return a + b * sin(x(0)) * x(1); }
   void EvalRevDiff(const double bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   { double d[3]; Vector x(d, 3); T.Transform(ip, x); Vector xb(T.GetSpaceDim()); xb = 0.0; xb(0) = bar * b * cos(x(0)) * x(1); xb(1) = bar * b * sin(x(0)); dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, P); }
};
struct XVec : VectorCoefficient
{
   double a, b; explicit XVec(int d) : VectorCoefficient(d) { }
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override { double d[3] = {0, 0, 0}; Vector x(d, 3); T.Transform(ip, x); V.SetSize(vdim); for (int i = 0; i < vdim; ++i) { V(i) = a + b * sin(d[i]) * d[(i + 1) % vdim]; } }
   void EvalRevDiff(const Vector &bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   { double d[3] = {0, 0, 0}; Vector x(d, 3); T.Transform(ip, x); Vector xb(vdim); xb = 0.0; for (int i = 0; i < vdim; ++i) { xb(i) += bar(i) * b * cos(d[i]) * d[(i + 1) % vdim]; xb((i + 1) % vdim) += bar(i) * b * sin(d[i]); } dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, P); }
};
template <class Prim, class Sens> static void bilinear(Env &E, const char *ks, const char *ka, int ps, int pa, Prim &&prim, Sens *S, double alpha, const std::string &name)
{
   auto &c = E.c; auto &u = E.add("state", ks, ps), &psi = E.add("psi", ka, pa); S->setState(u.gridFunc()); S->setAdjoint(psi.gridFunc());
   ParLinearForm L(&E.at("mesh_coords").space()); L.AddDomainIntegrator(S);
   auto value = [&] { ParMixedBilinearForm A(&u.space(), &psi.space()); A.AddDomainIntegrator(prim()); A.Assemble(); A.Finalize(); Vector r(psi.space().GetVSize()); A.SpMat().Mult(u.gridFunc(), r); return alpha * (psi.gridFunc() * r); };
   for (int k = 0; k < 2; ++k)
   {
      if (k) { E.randomize("state"); E.randomize("psi"); }
      L.Assemble(); Vector t(E.tv["mesh_coords"].Size()), d = E.direction("mesh_coords"); L.ParallelAssemble(t); derivative(c, t * d, E.moved("mesh_coords", d, value), "mesh-derivative-" + name, std::fabs(value()));
   }
   c.count("bilinear-terms");
}
static void meshsens(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3); Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2));
   switch (c.in("kind", g.irand(0, 2)))
   {
      case 0: bilinear(E, "h1", "h1", p, p, [] { return new DiffusionIntegrator; }, new miso::DiffusionIntegratorMeshSens, 1.0, "diffusion"); break;
      case 1: bilinear(E, "nd", "h1", p, p, [] { return new VectorFEWeakDivergenceIntegrator; }, new miso::VectorFEWeakDivergenceIntegratorMeshSens, 1.0, "weak-divergence"); break;
      default: { double a = c.in("alpha", g.coin() ? 1.0 : g.uni(-2, 2)); bilinear(E, "nd", "nd", p, p, [] { return new VectorFEMassIntegrator; }, new miso::VectorFEMassIntegratorMeshSens(a), a, "edge-mass"); }
   }
}
template <class Sens> static void linear(Env &E, miso::FiniteElementState &psi, const std::function<LinearFormIntegrator *()> &prim, Sens *S, double alpha, const std::string &name)
{
   auto &c = E.c; ParLinearForm L(&E.at("mesh_coords").space()); L.AddDomainIntegrator(S);
   auto value = [&] { ParLinearForm A(&psi.space()); A.AddDomainIntegrator(prim()); A.Assemble(); return alpha * (psi.gridFunc() * A); };
   for (int k = 0; k < 2; ++k)
   {
      if (k) { E.randomize("psi"); }
      L.Assemble(); Vector t(E.tv["mesh_coords"].Size()), d = E.direction("mesh_coords"); L.ParallelAssemble(t); derivative(c, t * d, E.moved("mesh_coords", d, value), "mesh-derivative-" + name, std::fabs(value()));
   }
   c.count("linear-terms");
}
static void loads(Case &c)
{
   Quiet q; auto &g = c.rng; int kind = c.in("kind", g.irand(0, 2)), dim = c.in("dim", kind == 2 ? 3 : g.coin(0.6) ? 2 : 3); double a = c.in("alpha", g.coin(0.4) ? 1.0 : g.uni(-2, 2));
   Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); XCoef Q; Q.a = g.uni(-1, 1); Q.b = g.uni(-1, 1); XVec F(dim); F.a = Q.a; F.b = Q.b;
   if (kind == 0)
   {  // through the load form that owns the pairing of primal and derivative
      auto &psi = E.add("psi", g.coin() ? "h1" : "l2", p); std::vector<int> m; if (g.coin(0.6)) { m = E.emarks(); } miso::MISOLinearForm L(psi.space(), E.fields, "psi"); auto *I = new miso::DomainLFIntegrator(Q, a); if (m.empty()) { L.addDomainIntegrator(I); } else { L.addDomainIntegrator(I, m); }
      auto value = [&] { MISOInputs in = E.inputs(); setInputs(L, in); Vector r(E.tv["psi"].Size()); r = 0.0; addLoad(L, r); return E.tv["psi"] * r; };
      double v = value(), ex = a * E.integrate(psi, m, [](const FiniteElement &el, ElementTransformation &) { return 2 * el.GetOrder() - 2; }, [&](ElementTransformation &T, const IntegrationPoint &ip) { return Q.Eval(T, ip) * E.val("psi", T); }); c.rel(v, ex, 1e-11, 1e-13, "load-value");
      MISOInputs in = E.inputs(); setInputs(L, in); Vector r(E.tv["psi"].Size()); r = 0.0; addLoad(L, r); Vector d = E.direction("mesh_coords"), b0 = rvec(g, d.Size()), b(b0); vectorJacobianProduct(L, E.tv["psi"], "mesh_coords", b); b -= b0;
      derivative(c, b * d, E.moved("mesh_coords", d, value), "mesh-derivative-scalar-load", std::fabs(v)); c.count("load-forms");
   }
   else if (kind == 1)
   {
      auto &psi = E.add("psi", "nd", p); auto *S = new miso::VectorFEDomainLFIntegratorMeshSens(F, a); S->setAdjoint(psi.gridFunc());
      linear(E, psi, [&]() -> LinearFormIntegrator * { return new VectorFEDomainLFIntegrator(F); }, S, a, "edge-load");
   }
   else
   {
      auto &psi = E.add("psi", "nd", p); miso::VectorFEDomainLFCurlIntegrator own(F, a); auto *S = new miso::VectorFEDomainLFCurlIntegratorMeshSens(own); S->setAdjoint(psi.gridFunc());
      linear(E, psi, [&]() -> LinearFormIntegrator * { return new miso::VectorFEDomainLFCurlIntegrator(F, a); }, S, 1.0, "curl-load");
   }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("volume", 400, volume); run("mass", 400, mass); run("average", 400, average); run("curl", 600, curl); run("aggregate", 600, aggregate); run("normalflux", 400, normalflux); run("meshsens", 500, meshsens); run("loads", 600, loads);
   int rc = finish(); MPI_Finalize(); return rc;
}
