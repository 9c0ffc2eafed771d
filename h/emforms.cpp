// Electromagnetic weak forms, energies and virtual-work forces (property C21).
#include "integcheck.hpp"
#include "coefficient.hpp"
#include "electromag_integ.hpp"
#include "electromag_outputs.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic;
using T_ = ElementTransformation; using IP = IntegrationPoint;

/// reluctivity: material by attribute, growing with the field, optionally varying in space
struct Nu : miso::StateCoefficient
{
   std::vector<double> a, b; double xd = 0;
   explicit Nu(Rng &g, bool nonlinear = true) { for (int i = 0; i < 8; ++i) { a.push_back(g.uni(0.5, 3)); b.push_back(nonlinear ? g.uni(-0.05, 0.4) : 0); } }
   double x(T_ &T, const IP &ip) { if (xd == 0) { return 1; } double d[3]; Vector X(d, 3); T.Transform(ip, X); return 1 + xd * sin(2 * X(0) + X(1)); }
   double at(int k) { return a[(k - 1) % 8]; } double bt(int k) { return b[(k - 1) % 8]; }
   double Eval(T_ &T, const IP &ip, double s) override { return x(T, ip) * (at(T.Attribute) + bt(T.Attribute) * s * s); }
   double EvalStateDeriv(T_ &T, const IP &ip, double s) override { return x(T, ip) * 2 * bt(T.Attribute) * s; }
   double EvalState2ndDeriv(T_ &T, const IP &ip, double s) override { return x(T, ip) * 2 * bt(T.Attribute); }
   /// int_0^s nu(b) b db
   double energy(T_ &T, const IP &ip, double s) { return x(T, ip) * (at(T.Attribute) * s * s / 2 + bt(T.Attribute) * pow(s, 4) / 4); }
};
static bool in(const std::vector<int> &m, int a) { return m.empty() || std::find(m.begin(), m.end(), a) != m.end(); }
static int ord_diff(const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() : 2 * el.GetOrder() + el.GetDim() - 1; }

/// a nonlinear form: value against the reference, Jacobian and products against differences
static void form(Env &E, miso::MISONonlinearForm &F, const std::function<double()> &ref, Nu &nu, double vtol = 1e-11)
{
   auto &c = E.c; auto &g = E.g; Vector &psi = E.tv["psi"]; const double xd = nu.xd;
   auto value = [&] { MISOInputs in = E.inputs(); Vector r(psi.Size()); r = 1e9; evaluate(F, in, r); return psi * r; };
   double v = value(); E.sync(); double f = std::max(std::fabs(v), 1e-8); c.rel(v, ref(), vtol, 1e-12, "residual-value"); c.count("residuals");
   Vector keep(E.tv["state"]), d = E.direction("state");
   {  MISOInputs in = E.inputs(); auto &J = getJacobian(F, in, "state"); Vector y(psi.Size()); y = 1e9; J.Mult(d, y); derivative(c, psi * y, E.moved("state", d, value), "jacobian", f); }
   {  // product with a change of the state, and its transpose
      MISOInputs in = E.inputs(); linearize(F, in); Vector y(psi.Size()), z(d.Size()); y = 0.0; jacobianVectorProduct(F, d, "state", y); derivative(c, psi * y, E.moved("state", d, value), "forward-product-state", f);
      z = 0.0; MISOInputs i2 = E.inputs(); linearize(F, i2); vectorJacobianProduct(F, psi, "state", z); c.rel(z * d, psi * y, 1e-9, 1e-10 * (f + norm(z) * norm(d)), "transposed-product-state"); }
   nu.xd = 0;
   {  MISOInputs in = E.inputs(); setInputs(F, in); Vector dir = E.direction("mesh_coords"), b0 = rvec(g, dir.Size(), -f, f), b(b0); vectorJacobianProduct(F, psi, "mesh_coords", b); b -= b0; derivative(c, b * dir, E.moved("mesh_coords", dir, value), "transposed-product-mesh_coords", f); c.check(norm(b) < 1e300, "mesh-derivative-is-finite"); }
   nu.xd = xd; same(c, E.tv["state"], keep, 0, "state-untouched"); c.rel(value(), v, 1e-12, 1e-12, "residual-is-repeatable");
}
static void zero_field(Env &E, miso::MISONonlinearForm &F)
{
   auto &c = E.c; E.tv["state"] = 0.0; E.sync(); MISOInputs in = E.inputs(); Vector r(E.tv["psi"].Size()), y(r), d = E.direction("state"); evaluate(F, in, r); auto &J = getJacobian(F, in, "state"); J.Mult(d, y); Vector b(E.tv["mesh_coords"].Size()); b = 0.0; setInputs(F, in); vectorJacobianProduct(F, E.tv["psi"], "mesh_coords", b);
   c.check(std::isfinite(r * r) && std::isfinite(y * y) && std::isfinite(b * b), "finite-at-zero-field"); c.count("zero-fields");
}
/// alpha nu(|grad u|) grad u . grad psi (scalar) or alpha nu(|curl u|) curl u . curl psi (edge elements)
static void volume(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3); bool edge = c.in("edge", dim == 3 && g.coin(0.6)); Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); const char *k = edge ? "nd" : g.coin(0.7) ? "h1" : "l2";
   auto &u = E.add("state", k, p, -1, 1); E.add("psi", k, p); double a = c.in("alpha", g.coin(0.3) ? 1.0 : g.uni(-2, 2)); Nu nu(g, g.coin(0.8)); nu.xd = g.coin() ? 0.4 : 0; c.in("xdep", nu.xd);
   std::vector<int> m; if (c.in("marked", g.coin(0.5))) { m = E.emarks(); c.count("restricted-terms"); }
   miso::MISONonlinearForm F(u.space(), E.fields);
   if (edge) { auto *I = a == 1 ? new miso::CurlCurlNLFIntegrator(nu) : new miso::CurlCurlNLFIntegrator(nu, a); if (m.empty()) { F.addDomainIntegrator(I); } else { F.addDomainIntegrator(I, m); } c.count("edge-forms"); }
   else { auto *I = a == 1 ? new miso::NonlinearDiffusionIntegrator(nu) : new miso::NonlinearDiffusionIntegrator(nu, a); if (m.empty()) { F.addDomainIntegrator(I); } else { F.addDomainIntegrator(I, m); } c.count("potential-forms"); }
   form(E, F, [&] {
      if (edge) { return a * E.integrate(u, m, [](const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - 1 : 2 * el.GetOrder(); }, [&](T_ &T, const IP &ip) { Vector b = E.curl("state", T); return nu.Eval(T, ip, b.Norml2()) * (b * E.curl("psi", T)); }); }
      return a * E.integrate(u, m, ord_diff, [&](T_ &T, const IP &ip) { Vector b = E.grad("state", T); return nu.Eval(T, ip, b.Norml2()) * (b * E.grad("psi", T)); }); }, nu);
   if (g.coin(0.2)) { zero_field(E, F); }
}
/// weakly imposed boundary values (interior penalty)
static void boundary(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.7) ? 2 : 3); Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); const char *k = g.coin() ? "h1" : "l2"; auto &u = E.add("state", k, p); E.add("psi", k, p);
   double a = c.in("alpha", g.coin(0.3) ? 1.0 : g.uni(-2, 2)), mu = c.in("mu", g.uni(0, 20)), gv = c.in("g", g.uni(-1, 1)); ConstantCoefficient bc(gv); Nu nu(g, g.coin(0.8)); nu.xd = g.coin() ? 0.4 : 0;
   std::vector<int> m; if (c.in("marked", g.coin(0.6))) { m = E.bmarks(); c.count("restricted-terms"); }
   miso::MISONonlinearForm F(u.space(), E.fields); auto *I = a == 1 ? new miso::NonlinearDGDiffusionIntegrator(nu, bc, mu) : new miso::NonlinearDGDiffusionIntegrator(nu, bc, mu, a); if (m.empty()) { F.addBdrFaceIntegrator(I); } else { F.addBdrFaceIntegrator(I, m); }
   form(E, F, [&] {
      double s = 0;
      for (int b = 0; b < E.mesh->GetNBE(); ++b)
      {
         if (!in(m, E.mesh->GetBdrAttribute(b))) { continue; } auto &T = *E.mesh->GetBdrFaceTransformations(b); auto &el = *u.space().GetFE(T.Elem1No); auto &ir = IntRules.Get(T.GetGeometryType(), el.Space() == FunctionSpace::Pk ? 2 * p : 2 * p + dim);
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            auto &ip = ir.IntPoint(i); T.SetAllIntPoints(&ip); auto &e1 = T.GetElement1IntPoint(); Vector n(dim); CalcOrtho(T.Jacobian(), n); Vector gu = E.grad("state", *T.Elem1), gp = E.grad("psi", *T.Elem1); double uu = E.val("state", *T.Elem1) - gv, pp = E.val("psi", *T.Elem1), nv = nu.Eval(*T.Elem1, e1, gu.Norml2());
            s += ip.weight * nv * (-(gu * n) * pp - uu * (gp * n) + mu * (n * n) / T.Elem1->Weight() * uu * pp);
         }
      }
      return a * s; }, nu);
   c.count("boundary-terms"); if (g.coin(0.1)) { zero_field(E, F); }
}
/// interior penalties, on all interior faces or on marked internal boundaries
static void interior(Case &c)
{
   Quiet q; auto &g = c.rng; bool ib = c.in("internal-boundary", g.coin(0.5)); int dim = c.in("dim", ib || g.coin(0.7) ? 2 : 3); Env E(c, dim, -1, 0, 3, true, ib); if (ib && !E.internal) { c.trivial = true; return; }
   int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); auto &u = E.add("state", "l2", p); E.add("psi", "l2", p); double a = c.in("alpha", g.coin(0.3) ? 1.0 : g.uni(-2, 2)), mu = c.in("mu", g.uni(0, 20)); Nu nu(g, g.coin(0.8)); nu.xd = g.coin() ? 0.4 : 0;
   std::vector<int> m; miso::MISONonlinearForm F(u.space(), E.fields); auto *I = a == 1 ? new miso::DGInteriorFaceDiffusionIntegrator(nu, mu) : new miso::DGInteriorFaceDiffusionIntegrator(nu, mu, a);
   std::vector<int> faces;
   if (!ib) { F.addInteriorFaceIntegrator(I); for (int f = 0; f < E.mesh->GetNumFaces(); ++f) { faces.push_back(f); } c.count("interior-faces"); }
   else
   {
      if (g.coin(0.6)) { m = E.bmarks(); F.addInternalBoundaryFaceIntegrator(I, m); c.count("restricted-terms"); } else { F.addInternalBoundaryFaceIntegrator(I); }
      for (int b = 0; b < E.mesh->GetNBE(); ++b) { if (in(m, E.mesh->GetBdrAttribute(b))) { faces.push_back(E.mesh->GetBdrElementEdgeIndex(b)); } } c.count("internal-boundaries");
   }
   form(E, F, [&] {
      double s = 0;
      for (int f : faces)
      {
         auto *T = E.mesh->GetInteriorFaceTransformations(f); if (!T) { continue; } auto &ir = IntRules.Get(T->GetGeometryType(), 2 * p);
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            auto &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip); Vector n(dim); CalcOrtho(T->Jacobian(), n); T_ &A = *T->Elem1, &B = *T->Elem2; Vector gu1 = E.grad("state", A), gu2 = E.grad("state", B), gp1 = E.grad("psi", A), gp2 = E.grad("psi", B);
            double n1 = nu.Eval(A, T->GetElement1IntPoint(), gu1.Norml2()), n2 = nu.Eval(B, T->GetElement2IntPoint(), gu2.Norml2()), ju = E.val("state", A) - E.val("state", B), jp = E.val("psi", A) - E.val("psi", B);
            s += ip.weight * (-0.5 * (n1 * (gu1 * n) + n2 * (gu2 * n)) * jp - 0.5 * ju * (n1 * (gp1 * n) + n2 * (gp2 * n)) + mu * (n * n) / 2 * (n1 / A.Weight() + n2 / B.Weight()) * ju * jp);
         }
      }
      return a * s; }, nu);
}
/// magnetization source in the plane: alpha (M_y d_x psi - M_x d_y psi)
struct Mag : miso::VectorStateCoefficient
{
   Vector a, b; double p; std::vector<double> k; Mag(Rng &g) : VectorStateCoefficient(2), a(rvec(g, 2)), b(rvec(g, 2)), p(g.uni(0.3, 1)) { for (int i = 0; i < 8; ++i) { k.push_back(g.uni(-2, 2)); } }
   double u(int i, T_ &T, const IP &ip) { double d[3]; Vector x(d, 3); T.Transform(ip, x); return a(i) * x(0) + b(i) * x(1); }
   void Eval(Vector &v, T_ &T, const IP &ip, double s) override { v.SetSize(2); for (int i = 0; i < 2; ++i) { v(i) = k[(T.Attribute - 1) % 8] * (1 + i + sin(u(i, T, ip)) * cos(p * s)); } }
   void EvalStateDeriv(Vector &v, T_ &T, const IP &ip, double s) override { v.SetSize(2); for (int i = 0; i < 2; ++i) { v(i) = -k[(T.Attribute - 1) % 8] * p * sin(u(i, T, ip)) * sin(p * s); } }
   void EvalRevDiff(const Vector &q, T_ &T, const IP &ip, double s, DenseMatrix &P) override { Vector x(2); x = 0.0; for (int i = 0; i < 2; ++i) { double w = q(i) * k[(T.Attribute - 1) % 8] * cos(u(i, T, ip)) * cos(p * s); x(0) += w * a(i); x(1) += w * b(i); } static_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, x, P); }
};
static void source(Case &c)
{
   Quiet q; auto &g = c.rng; Env E(c, 2); int p = c.in("order", g.irand(1, 3)); auto &psi = E.add("psi", g.coin(0.7) ? "h1" : "l2", p); auto &t = E.add("temperature", g.coin() ? "h1" : "l2", c.in("torder", g.irand(1, 3)), -2, 2); double a = c.in("alpha", g.coin(0.3) ? 1.0 : g.uni(-2, 2)); Mag M(g);
   std::vector<int> m; if (c.in("marked", g.coin())) { m = E.emarks(); c.count("restricted-terms"); }
   miso::MISOLinearForm L(psi.space(), E.fields, "psi"); auto *I = new miso::MagnetizationSource2DIntegrator(M, t.gridFunc(), a); if (m.empty()) { L.addDomainIntegrator(I); } else { L.addDomainIntegrator(I, m); }
   auto value = [&] { MISOInputs in = E.inputs(); setInputs(L, in); Vector r(E.tv["psi"].Size()); r = 0.0; addLoad(L, r); return E.tv["psi"] * r; };
   double v = value(), f = std::max(std::fabs(v), 1e-8);
   double ex = a * E.integrate(psi, m, [](const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - 1 : 2 * el.GetOrder() + 1; }, [&](T_ &T, const IP &ip) { Vector mv(2), gr = E.grad("psi", T); M.Eval(mv, T, ip, E.val("temperature", T)); return mv(1) * gr(0) - mv(0) * gr(1); });
   c.rel(v, ex, 1e-11, 1e-12, "load-value");
   for (std::string w : {"mesh_coords", "temperature"}) { MISOInputs in = E.inputs(); setInputs(L, in); Vector r(E.tv["psi"].Size()); r = 0.0; addLoad(L, r); Vector d = E.direction(w), b0 = rvec(g, d.Size(), -f, f), b(b0); vectorJacobianProduct(L, E.tv["psi"], w, b); b -= b0; derivative(c, b * d, E.moved(w, d, value), "load-derivative-" + w, f); }
   c.count("magnetization-loads");
}
/// magnetic energy: the integral of int_0^B nu b db
static void energy(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3); Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); auto &u = E.add("state", dim == 3 ? "nd" : "h1", p); Nu nu(g, g.coin(0.8)); std::vector<int> m; if (c.in("marked", g.coin())) { m = E.emarks(); c.count("restricted-terms"); }
   miso::FunctionalOutput O(u.space(), E.fields); auto *I = new miso::MagneticEnergyIntegrator(nu); if (m.empty()) { O.addOutputDomainIntegrator(I); } else { O.addOutputDomainIntegrator(I, m); }
   auto ref = [&] { return E.integrate(u, m, ord_curl, [&](T_ &T, const IP &ip) { return nu.energy(T, ip, E.bmag("state", T)); }); };
   nu.xd = 0.4; MISOInputs in0 = E.inputs(); c.rel(calcOutput(O, in0), ref(), 1e-11, 1e-13, "energy-of-a-varying-material"); nu.xd = 0; E.sync();
   output(E, O, {"state", "mesh_coords"}, ref()); c.count("energies");
   if (g.coin(0.3)) { E.tv["state"] = 0.0; E.sync(); MISOInputs in = E.inputs(); double v = calcOutput(O, in); Vector s(1), b(E.tv["state"].Size()), x(E.tv["mesh_coords"].Size()); s = 1.0; b = 0.0; x = 0.0; setInputs(O, in); vectorJacobianProduct(O, s, "state", b); vectorJacobianProduct(O, s, "mesh_coords", x); c.check(v == 0 && norm(b) < 1e-12 && std::isfinite(x * x) && norm(x) < 1e-12, "energy-derivative-at-zero-field"); c.count("zero-fields"); }
}
/// integrals of |B|, |B|^2 and nu |B|
static void norms(Case &c)
{
   Quiet q; auto &g = c.rng; Env E(c, 3); int p = c.in("order", g.irand(1, 2)); auto &u = E.add("state", "nd", p); Nu nu(g, g.coin(0.8)); int kind = c.in("kind", g.irand(0, 2)); miso::FunctionalOutput O(u.space(), E.fields);
   if (kind == 0) { O.addOutputDomainIntegrator(new miso::BNormIntegrator); } else if (kind == 1) { O.addOutputDomainIntegrator(new miso::BNormSquaredIntegrator); } else { O.addOutputDomainIntegrator(new miso::nuBNormIntegrator(&nu)); }
   auto ref = [&] { return E.integrate(u, {}, ord_curl, [&](T_ &T, const IP &ip) { double b = E.bmag("state", T); return kind == 0 ? b : kind == 1 ? b * b : nu.Eval(T, ip, b * T.Weight()) * b / T.Weight(); }); }; // the last is the functional as the library defines it: nothing there uses it
   output(E, O, kind == 1 ? std::vector<std::string>{} : std::vector<std::string>{"state"}, ref());
   if (kind != 1)
   {
      ParLinearForm L(&E.at("mesh_coords").space()); if (kind == 0) { L.AddDomainIntegrator(new miso::BNormdJdx(u.gridFunc())); } else { L.AddDomainIntegrator(new miso::nuBNormdJdx(u.gridFunc(), &nu)); }
      E.sync(); L.Assemble(); Vector t(E.tv["mesh_coords"].Size()), d = E.direction("mesh_coords"); L.ParallelAssemble(t); derivative(c, t * d, E.moved("mesh_coords", d, ref), "norm-mesh-derivative", std::fabs(ref()));
   }
   c.count("norms");
}
/// virtual work: minus the derivative of the energy outside the body when the body moves
static void force(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3), kind = c.in("kind", g.irand(0, 2)); Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); auto &u = E.add("state", dim == 3 ? "nd" : "h1", p); Nu nu(g, g.coin(0.8));
   if (c.in("fluxless-element", g.coin(0.15))) { int e = g.irand(0, E.mesh->GetNE() - 1); ParGridFunction gf(&u.space()); gf.SetFromTrueDofs(E.tv["state"]); Array<int> vd; u.space().GetElementVDofs(e, vd); gf.SetSubVector(vd, 0.0); gf.GetTrueDofs(E.tv["state"]); c.count("fluxless-elements"); }
   std::vector<int> body; for (int i = 1; i <= E.na; ++i) { if (g.coin(0.4)) { body.push_back(i); } } if (body.empty()) { body.push_back(g.irand(1, E.na)); } c.in("body", (int)body.size()); std::unordered_set<int> bset(body.begin(), body.end());
   const char *vn = kind == 0 ? "vfree" : kind == 1 ? "vforce" : "vtorque"; E.fields.emplace(std::piecewise_construct, std::forward_as_tuple(vn), std::forward_as_tuple(*E.mesh, E.at("mesh_coords").space(), vn)); auto &v = E.at(vn); Vector dir(E.tv["mesh_coords"].Size()); std::vector<int> air;
   auto outside = [&] { double s = 0; E.sync(); for (int e = 0; e < E.mesh->GetNE(); ++e) { if (bset.count(E.mesh->GetAttribute(e)) || !in(air, E.mesh->GetAttribute(e))) { continue; } auto &T = *E.mesh->GetElementTransformation(e); auto &el = *u.space().GetFE(e); auto &ir = IntRules.Get(el.GetGeomType(), ord_curl(el, T)); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); s += ip.weight * T.Weight() * nu.energy(T, ip, E.bmag("state", T)); } } return s; };
   auto judge = [&](auto &O) {
      MISOInputs in = E.inputs(); double val = calcOutput(O, in), en = std::fabs(outside()); double hv = norm(dir); double step = hv > 0 ? 4e-3 * E.hmesh / hv : 4e-3; E.sync();
      derivative(c, -val, E.moved("mesh_coords", dir, outside), "virtual-work", en / (E.hmesh * 10) * hv, step); if (std::fabs(val) < 1e-6 * en / E.hmesh * hv) { c.count("weak-forces"); return; } output(E, O, {"state", "mesh_coords"}, 0, false); c.count("forces"); };
   if (kind == 0)
   {  // any displacement of the nodes
      dir = rvec(g, dir.Size()); v.distributeSharedDofs(dir); std::vector<int> m; if (g.coin(0.4)) { m = E.emarks(); air = m; c.count("restricted-terms"); }
      bool all = c.in("no-body", g.coin(0.3)); if (all) { bset.clear(); } miso::FunctionalOutput O(u.space(), E.fields); auto *I = all ? new miso::ForceIntegrator3(nu, v.gridFunc()) : new miso::ForceIntegrator3(nu, v.gridFunc(), bset); if (m.empty()) { O.addOutputDomainIntegrator(I); } else { O.addOutputDomainIntegrator(I, m); } judge(O);
   }
   else
   {
      json o; o["attributes"] = body; Vector ax = rvec(g, dim == 3 || kind == 2 ? 3 : 2); if (kind == 2 && dim == 2) { ax(0) = ax(1) = 0; ax(2) = g.coin() ? g.uni(0.2, 3) : -g.uni(0.2, 3); } Vector ab = rvec(g, 3); o["axis"] = std::vector<double>(ax.GetData(), ax.GetData() + ax.Size()); o["about"] = std::vector<double>(ab.GetData(), ab.GetData() + 3);
      // the rigid displacement: of the nodes of the body's elements only
      auto &ms = E.at("mesh_coords").space(); Vector full(ms.GetVSize()); full = 0.0; E.sync(); auto &X = E.at("mesh_coords").gridFunc(); int nd = ms.GetNDofs(); Vector w(ax); if (kind == 2) { w /= ax.Norml2(); }
      for (int e = 0; e < E.mesh->GetNE(); ++e)
      {
         if (!bset.count(E.mesh->GetAttribute(e))) { continue; } Array<int> dofs; ms.GetElementDofs(e, dofs);
         for (int k : dofs) { double r[3] = {0, 0, 0}; for (int j = 0; j < dim; ++j) { r[j] = X(k + j * nd) - (kind == 2 ? ab(j) : 0); } for (int j = 0; j < dim; ++j) { full(k + j * nd) = kind == 1 ? ax(j) : w((j + 1) % 3) * r[(j + 2) % 3] - w((j + 2) % 3) * r[(j + 1) % 3]; } }
      }
      ParGridFunction fg(&ms); fg = full; fg.GetTrueDofs(dir);
      if (kind == 1) { miso::ForceFunctional O(u.space(), E.fields, o, nu); judge(O); Vector ax2(ax); ax2 *= -2; json o2 = o; o2["axis"] = std::vector<double>(ax2.GetData(), ax2.GetData() + ax2.Size()); MISOInputs in = E.inputs(); double v1 = calcOutput(O, in); setOptions(O, o2); MISOInputs i2 = E.inputs(); c.rel(calcOutput(O, i2), -2 * v1, 1e-11, 1e-12, "force-along-a-new-axis"); }
      else
      {
         if (g.coin()) { air = E.emarks(); o["air_attributes"] = air; c.count("air-restricted-torques"); } miso::TorqueFunctional O(u.space(), E.fields, o, nu); judge(O); c.count("torques");
      }
   }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("volume", 2000, volume); run("boundary", 1500, boundary); run("interior", 1500, interior); run("source", 1200, source); run("energy", 1500, energy); run("norms", 500, norms); run("force", 2000, force);
   int rc = finish(); MPI_Finalize(); return rc;
}
