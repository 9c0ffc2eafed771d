// Electromagnetic losses, heat sources and the demagnetization constraint (property C22).
#include "integcheck.hpp"
#include "coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "cal2_kh_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include "electromag_integ.hpp"
#include "electromag_outputs.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic;
using T_ = ElementTransformation; using IP = IntegrationPoint;

/// conductivity: by attribute, varying with temperature
struct Sigma : miso::StateCoefficient
{
   std::vector<double> a, b; explicit Sigma(Rng &g) { for (int i = 0; i < 8; ++i) { a.push_back(g.uni(1, 3)); b.push_back(g.uni(-0.8, 0.8)); } }
   double A(T_ &T) { return a[(T.Attribute - 1) % 8]; } double B(T_ &T) { return b[(T.Attribute - 1) % 8]; }
   double Eval(T_ &T, const IP &, double s) override { return A(T) + B(T) * sin(s); }
   double EvalStateDeriv(T_ &T, const IP &, double s) override { return B(T) * cos(s); }
   double EvalState2ndDeriv(T_ &T, const IP &, double s) override { return -B(T) * sin(s); }
   void EvalRevDiff(double, T_ &, const IP &, double, DenseMatrix &) override { }
};
/// core-loss coefficient of temperature, frequency and flux
struct K3 : miso::ThreeStateCoefficient
{
   std::vector<double> a, b, d, e; explicit K3(Rng &g) { for (int i = 0; i < 8; ++i) { a.push_back(g.uni(0.5, 3)); b.push_back(g.uni(-0.5, 0.5)); d.push_back(g.uni(-0.5, 0.5)); e.push_back(g.uni(-0.5, 0.5)); } }
   struct P { double a, t, dt, f, df, b, db; };
   P at(T_ &T, double t, double f, double B) { int i = (T.Attribute - 1) % 8; return {a[i], 1 + b[i] * sin(t), b[i] * cos(t), 1 + d[i] * cos(f), -d[i] * sin(f), 1 + e[i] * sin(B), e[i] * cos(B)}; }
   double Eval(T_ &T, const IP &, double t, double f, double B) override { auto p = at(T, t, f, B); return p.a * p.t * p.f * p.b; }
   double EvalDerivS1(T_ &T, const IP &, double t, double f, double B) override { auto p = at(T, t, f, B); return p.a * p.dt * p.f * p.b; }
   double EvalDerivS2(T_ &T, const IP &, double t, double f, double B) override { auto p = at(T, t, f, B); return p.a * p.t * p.df * p.b; }
   double EvalDerivS3(T_ &T, const IP &, double t, double f, double B) override { auto p = at(T, t, f, B); return p.a * p.t * p.f * p.db; }
};
struct ByAttr : Coefficient { std::vector<double> a; ByAttr(Rng &g, double lo, double hi) { for (int i = 0; i < 8; ++i) { a.push_back(g.uni(lo, hi)); } } double Eval(T_ &T, const IP &) override { return a[(T.Attribute - 1) % 8]; } };
static int even(const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - 1 : 2 * el.GetOrder(); }
static int ordw(const FiniteElement &, T_ &T) { return T.OrderW(); }
struct S { Case &c; Rng &g; Env E; std::vector<int> m; json o;
   explicit S(Case &c_) : c(c_), g(c_.rng), E(c_, c_.in("dim", c_.rng.coin(0.7) ? 2 : 3))
   {
      E.add("state", E.dim == 3 ? "nd" : "h1", c.in("order", g.irand(1, E.dim == 2 ? 3 : 2))); E.add("peak_flux", g.coin(0.6) ? "l2" : "h1", c.in("forder", g.irand(1, 3)), 0.2, 1.8); E.add("temperature", g.coin(0.8) ? "h1" : "l2", c.in("torder", g.irand(1, 3)), -2, 2);
      o = json::object(); if (c.in("marked", g.coin())) { m = E.emarks(); o["attributes"] = m; c.count("restricted-terms"); }
      for (const char *n : {"wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length", "frequency", "num_turns", "num_slots"}) { E.sc[n] = g.uni(0.3, 3); }
   }
   double vol() { return E.integrate(E.at("state"), m, ordw, [](T_ &, const IP &) { return 1.0; }); }
};
/// products of a scalar output with scalar inputs
template <class Out> void scalars(Env &E, Out &O, const std::vector<std::string> &wrt, bool forward = true)
{
   auto &c = E.c; auto value = [&] { MISOInputs in = E.inputs(); return double(calcOutput(O, in)); }; double f = std::max(std::fabs(value()), 1e-8);
   for (auto &w : wrt)
   {
      double s = E.g.uni(0.5, 2) * (E.g.coin() ? 1 : -1); Vector sv(1); sv(0) = s; MISOInputs in = E.inputs(); calcOutput(O, in); setInputs(O, in); double r = vectorJacobianProduct(O, sv, w) / s; derivative(c, r, E.moved(w, value), "transposed-product-wrt-" + w, f);
      if (forward) { MISOInputs i2 = E.inputs(); calcOutput(O, i2); setInputs(O, i2); c.rel(jacobianVectorProduct(O, sv, w), s * r, 1e-11, 1e-12 * f, "products-agree-wrt-" + w); }
      c.count("scalar-derivatives");
   }
}
/// a load on the temperature space: value and transposed products
template <class Out> void load(Env &E, Out &O, const std::vector<std::string> &vec, const std::vector<std::string> &scal, const std::function<double()> &ref, double vtol = 1e-11)
{
   auto &c = E.c; auto &g = E.g; auto &psi = E.tv["thermal_adjoint"];
   auto value = [&] { MISOInputs in = E.inputs(); Vector r(getSize(O)); r = 1e9; calcOutput(O, in, r); return psi * r; };
   double v = value(); E.sync(); double f = std::max(std::fabs(v), 1e-8); c.rel(v, ref(), vtol, 1e-13, "load-value"); c.check(getSize(O) == psi.Size(), "load-size");
   for (auto &w : vec) { Vector d = E.direction(w), b0 = rvec(g, d.Size(), -f, f), b(b0), t(psi.Size()); MISOInputs in = E.inputs(); calcOutput(O, in, t); setInputs(O, in); vectorJacobianProduct(O, psi, w, b); b -= b0; derivative(c, b * d, E.moved(w, d, value), "load-derivative-" + w, f); c.count("load-derivatives"); }
   for (auto &w : scal) { Vector t(psi.Size()); MISOInputs in = E.inputs(); calcOutput(O, in, t); setInputs(O, in); derivative(c, vectorJacobianProduct(O, psi, w), E.moved(w, value), "load-derivative-" + w, f); c.count("load-derivatives"); }
   c.rel(value(), v, 1e-12, 1e-13, "load-is-repeatable");
}
/// the field the adjoint variable of a load lives in
static void adjoint(S &s) { auto &t = s.E.at("temperature"); s.E.tv["thermal_adjoint"] = rvec(s.g, t.space().GetTrueVSize()); if (!s.E.fields.count("thermal_adjoint")) { s.E.fields.emplace("thermal_adjoint", FiniteElementState(*s.E.mesh, t.space(), "thermal_adjoint")); } s.E.sync(); }
static double weight(S &s, T_ &T) { return s.E.val("thermal_adjoint", T); }
static double dcdens(S &s, Sigma &sg, T_ &T, const IP &ip) { auto &k = s.E.sc; return k["wire_length"] / (M_PI * pow(k["strand_radius"], 2) * k["strands_in_hand"]) * pow(k["rms_current"], 2) * sqrt(2) / sg.Eval(T, ip, s.E.val("temperature", T)); }
static double acdens(S &s, Sigma &sg, T_ &T, const IP &ip) { auto &k = s.E.sc; return 2 * k["strands_in_hand"] * k["num_turns"] * k["num_slots"] * M_PI * pow(k["strand_radius"], 4) * pow(2 * M_PI * k["frequency"], 2) / 8 * sg.Eval(T, ip, s.E.val("temperature", T)) * pow(s.E.val("peak_flux", T), 2); }
static void dc(Case &c)
{
   Quiet q; S s(c); Sigma sg(s.g); auto &E = s.E; auto dens = [&](T_ &T, const IP &ip) { return dcdens(s, sg, T, ip); };
   miso::DCLossFunctional O(E.fields, sg, s.o); double ex = E.integrate(E.at("state"), s.m, even, dens) / s.vol(); output(E, O, {"mesh_coords", "temperature"}, ex); scalars(E, O, {"wire_length", "rms_current", "strand_radius", "strands_in_hand"}); c.count("dc-losses");
   Vector d = E.direction("state"), b(d.Size()), sc(1); b = 0.5; sc = 1.0; vectorJacobianProduct(O, sc, "state", b); b -= 0.5; c.check(norm(b) == 0 && jacobianVectorProduct(O, d, "state") == 0, "loss-does-not-depend-on-the-state");
   miso::DCLossDistribution D(E.fields, sg, s.o); adjoint(s);
   load(E, D, {"mesh_coords", "temperature"}, {"wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length"}, [&] { double v = s.vol() * E.sc["stack_length"]; return E.integrate(E.at("temperature"), s.m, even, [&](T_ &T, const IP &ip) { return dens(T, ip) * weight(s, T); }) / v; }); c.count("dc-heat");
   // switched off by other attributes
   if (!s.m.empty()) { s.m = E.emarks(); json o2; o2["attributes"] = s.m; setOptions(O, o2); MISOInputs in = E.inputs(); double v = calcOutput(O, in); c.rel(v, E.integrate(E.at("state"), s.m, even, dens) / s.vol(), 1e-11, 1e-13, "loss-of-other-attributes"); }
}
static void ac(Case &c)
{
   Quiet q; S s(c); Sigma sg(s.g); auto &E = s.E; auto dens = [&](T_ &T, const IP &ip) { return acdens(s, sg, T, ip); }; if (s.g.coin(0.15)) { E.sc["strand_radius"] = 1.0; }
   miso::ACLossFunctional O(E.fields, sg, s.o); double ex = E.integrate(E.at("peak_flux"), s.m, ord_curl, dens) * E.sc["stack_length"] / s.vol(); output(E, O, {"mesh_coords", "temperature", "peak_flux"}, ex); scalars(E, O, {"strand_radius", "frequency", "stack_length", "strands_in_hand", "num_turns", "num_slots"}); c.count("ac-losses");
   Vector d = E.direction("state"), b(d.Size()), sc(1); b = 0.5; sc = 1.0; vectorJacobianProduct(O, sc, "state", b); b -= 0.5; c.check(norm(b) == 0 && jacobianVectorProduct(O, d, "state") == 0, "loss-does-not-depend-on-the-state");
   miso::ACLossDistribution D(E.fields, sg, s.o); adjoint(s);
   load(E, D, {"mesh_coords", "temperature", "peak_flux"}, {"frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots"}, [&] { double v = s.vol(); return E.integrate(E.at("temperature"), s.m, even, [&](T_ &T, const IP &ip) { return dens(T, ip) * weight(s, T); }) / v; }); c.count("ac-heat");
}
/// components and materials with CAL2 core losses; polynomials in the flux are mild
static void library(Rng &g, int na, json &comps, json &mats)
{
   comps = json::object(); mats = json::object();
   for (int a = 1; a <= na; ++a)
   {
      if (a > 1 && g.coin(0.15)) { continue; } std::string mn = "m" + std::to_string(a); json m = {{"rho", g.uni(0.5, 3)}}; auto poly = [&] { std::vector<double> p{g.uni(1, 2)}; for (int n = g.irand(0, 3); n > 0; --n) { p.push_back(g.uni(-0.1, 0.1)); } return p; };
      if (g.coin(0.8)) { m["core_loss"]["CAL2"] = {{"T0", g.uni(-3, -2.5)}, {"T1", g.uni(2.5, 3)}, {"kh_T0", poly()}, {"kh_T1", poly()}, {"ke_T0", poly()}, {"ke_T1", poly()}}; } else { m["kh"] = g.uni(0.5, 1); m["ke"] = g.uni(0.5, 1); }
      mats[mn] = m; json cj; if (g.coin()) { cj["attr"] = a; } else { cj["attrs"] = std::vector<int>{a}; } if (m.contains("core_loss")) { cj["material"] = {{"name", mn}, {"core_loss", json::object()}}; } else { cj["material"] = mn; } comps["c" + std::to_string(a)] = cj;
   }
}
struct Lib { json comps, mats; std::unique_ptr<Coefficient> rho; std::unique_ptr<miso::CAL2khCoefficient> kh; std::unique_ptr<miso::CAL2keCoefficient> ke; Lib(Rng &g, int na) { library(g, na, comps, mats); rho = miso::constructMaterialCoefficient("rho", comps, mats); kh.reset(new miso::CAL2khCoefficient(comps, mats)); ke.reset(new miso::CAL2keCoefficient(comps, mats)); }
   double dens(Env &E, T_ &T, const IP &ip) { double f = E.sc["frequency"], B = E.val("peak_flux", T), t = E.val("temperature", T); miso::ThreeStateCoefficient &h = *kh, &e = *ke; return rho->Eval(T, ip) * (h.Eval(T, ip, t, f, B) * f * B * B + e.Eval(T, ip, t, f, B) * f * f * B * B); } };
static void core(Case &c)
{
   Quiet q; S s(c); auto &E = s.E; auto &g = s.g; adjoint(s);
   if (c.in("own", g.coin()))
   {  // any coefficients
      ByAttr rho(g, 0.5, 3); K3 kh(g), ke(g); auto dens = [&](T_ &T, const IP &ip) { double f = E.sc["frequency"], B = E.val("peak_flux", T), t = E.val("temperature", T); return rho.Eval(T, ip) * (kh.Eval(T, ip, t, f, B) * f * B * B + ke.Eval(T, ip, t, f, B) * f * f * B * B); };
      miso::FunctionalOutput O(E.at("state").space(), E.fields); auto *I = new miso::CAL2CoreLossIntegrator(rho, kh, ke, E.at("peak_flux").gridFunc(), E.at("temperature").gridFunc()); if (s.m.empty()) { O.addOutputDomainIntegrator(I); } else { O.addOutputDomainIntegrator(I, s.m); }
      output(E, O, {"mesh_coords", "temperature", "peak_flux"}, E.integrate(E.at("peak_flux"), s.m, even, dens)); scalars(E, O, {"frequency"}); c.count("core-losses");
      miso::MISOLinearForm L(E.at("temperature").space(), E.fields, "thermal_adjoint"); auto *J = new miso::CAL2CoreLossDistributionIntegrator(rho, kh, ke, E.at("peak_flux").gridFunc(), E.at("temperature").gridFunc()); if (s.m.empty()) { L.addDomainIntegrator(J); } else { L.addDomainIntegrator(J, s.m); }
      struct W { miso::MISOLinearForm &L; }; auto &psi = E.tv["thermal_adjoint"]; auto value = [&] { MISOInputs in = E.inputs(); setInputs(L, in); Vector r(psi.Size()); r = 0.0; addLoad(L, r); return psi * r; };
      double v = value(), f = std::max(std::fabs(v), 1e-8); E.sync(); c.rel(v, E.integrate(E.at("temperature"), s.m, even, [&](T_ &T, const IP &ip) { return dens(T, ip) * weight(s, T); }), 1e-11, 1e-13, "load-value");
      for (std::string w : {"mesh_coords", "temperature", "peak_flux"}) { Vector d = E.direction(w), b0 = rvec(g, d.Size(), -f, f), b(b0); MISOInputs in = E.inputs(); setInputs(L, in); vectorJacobianProduct(L, psi, w, b); b -= b0; derivative(c, b * d, E.moved(w, d, value), "load-derivative-" + w, f); c.count("load-derivatives"); }
      MISOInputs in = E.inputs(); setInputs(L, in); derivative(c, vectorJacobianProduct(L, psi, "frequency"), E.moved("frequency", value), "load-derivative-frequency", f); c.count("core-heat"); return;
   }
   Lib lib(g, E.na); auto dens = [&](T_ &T, const IP &ip) { return lib.dens(E, T, ip); }; c.count("core-losses-from-the-library");
   miso::CoreLossFunctional O(E.fields, lib.comps, lib.mats, s.o); output(E, O, {"mesh_coords", "temperature", "peak_flux"}, E.integrate(E.at("peak_flux"), s.m, even, dens)); scalars(E, O, {"frequency"});
   miso::CAL2CoreLossDistribution D(E.fields, lib.comps, lib.mats, s.o); load(E, D, {"mesh_coords", "temperature", "peak_flux"}, {"frequency"}, [&] { return E.integrate(E.at("temperature"), s.m, even, [&](T_ &T, const IP &ip) { return dens(T, ip) * weight(s, T); }); });
}
static void steinmetz(Case &c)
{
   Quiet q; S s(c); auto &E = s.E; auto &g = s.g; json comps = json::object(), mats = json::object(); for (int a = 1; a <= E.na; ++a) { std::string n = std::to_string(a); mats["m" + n] = {{"rho", g.uni(0.5, 3)}, {"ks", g.uni(0.5, 3)}, {"alpha", g.uni(0.5, 2)}, {"beta", g.uni(1, 2.5)}}; comps["c" + n] = {{"attr", a}, {"material", "m" + n}}; }
   auto mc = [&](const char *n) { return miso::constructMaterialCoefficient(n, comps, mats); }; auto prho = mc("rho"), pks = mc("ks"), pal = mc("alpha"), pbe = mc("beta"); Coefficient &rho = *prho, &ks = *pks, &al = *pal, &be = *pbe; std::string name = c.in("named", g.coin(0.3)) ? "stator" : "", key = name.empty() ? "max_flux_magnitude" : "max_flux_magnitude:" + name; E.sc[key] = g.uni(0.3, 2); if (!name.empty()) { E.sc["max_flux_magnitude"] = g.uni(3, 4); }
   auto dens = [&](T_ &T, const IP &ip) { return rho.Eval(T, ip) * ks.Eval(T, ip) * pow(E.sc["frequency"], al.Eval(T, ip)) * pow(E.sc[key], be.Eval(T, ip)); };
   miso::FunctionalOutput O(E.at("state").space(), E.fields); auto *I = new miso::SteinmetzLossIntegrator(rho, ks, al, be, name); if (s.m.empty()) { O.addOutputDomainIntegrator(I); } else { O.addOutputDomainIntegrator(I, s.m); }
   output(E, O, {"mesh_coords"}, E.integrate(E.at("state"), s.m, ord_curl, dens)); scalars(E, O, {"frequency", key}); c.count("steinmetz-losses");
   LinearForm L(&E.at("temperature").space()); auto *J = new miso::SteinmetzLossDistributionIntegrator(rho, ks, al, be, name); MISOInputs in = E.inputs(); setInputs(*J, in); L.AddDomainIntegrator(J); E.sync(); L.Assemble(); ParGridFunction w(&E.at("temperature").space()); w = 0.0; adjoint(s); E.at("thermal_adjoint").distributeSharedDofs(E.tv["thermal_adjoint"]);
   c.rel(L(E.at("thermal_adjoint").gridFunc()), E.integrate(E.at("temperature"), {}, even, [&](T_ &T, const IP &ip) { return dens(T, ip) * weight(s, T); }), 1e-11, 1e-13, "load-value");
}
static void heat(Case &c)
{
   Quiet q; S s(c); auto &E = s.E; auto &g = s.g; Sigma sg(g); Lib lib(g, E.na); std::vector<int> md, ma, mc; json o = json::object(); o["dc_loss"] = json::object(); o["ac_loss"] = json::object(); o["core_loss"] = json::object();
   if (g.coin(0.7)) { o["dc_loss"]["attributes"] = md = E.emarks(); } if (g.coin(0.7)) { o["ac_loss"]["attributes"] = ma = E.emarks(); } if (g.coin(0.7)) { o["core_loss"]["attributes"] = mc = E.emarks(); }
   miso::EMHeatSourceOutput O(E.fields, sg, lib.comps, lib.mats, o); adjoint(s);
   auto part = [&](const std::vector<int> &m, auto dens) { return E.integrate(E.at("temperature"), m, even, [&](T_ &T, const IP &ip) { return dens(T, ip) * weight(s, T); }); }; auto vol = [&](const std::vector<int> &m) { return E.integrate(E.at("state"), m, ordw, [](T_ &, const IP &) { return 1.0; }); };
   load(E, O, {"mesh_coords", "temperature", "peak_flux"}, {}, [&] { return part(md, [&](T_ &T, const IP &ip) { return dcdens(s, sg, T, ip); }) / (vol(md) * E.sc["stack_length"]) + part(ma, [&](T_ &T, const IP &ip) { return acdens(s, sg, T, ip); }) / vol(ma) + part(mc, [&](T_ &T, const IP &ip) { return lib.dens(E, T, ip); }); });
   c.count("heat-sources");
}
struct C2 : miso::TwoStateCoefficient { std::vector<double> a; explicit C2(Rng &g) { for (int i = 0; i < 8; ++i) { a.push_back(g.uni(0.5, 3)); } } double Eval(T_ &T, const IP &, double B, double t) override { return a[(T.Attribute - 1) % 8] * (1 + B + 0.1 * sin(t / 50)); } double EvalDerivS1(T_ &, const IP &, double, double) override { return 0; } double EvalDerivS2(T_ &, const IP &, double, double) override { return 0; } };
static void demag(Case &c)
{
   Quiet q; S s(c); auto &E = s.E; auto &g = s.g; bool hot = c.in("temperature", g.coin(0.7)), own = c.in("own", g.coin());
   if (own)
   {
      C2 C(g); miso::FunctionalOutput O(E.at("peak_flux").space(), E.fields, "peak_flux"); auto *I = new miso::PMDemagIntegrator(C, hot ? &E.at("temperature").gridFunc() : nullptr); ParNonlinearForm F(&E.at("peak_flux").space()); Array<int> mk(E.na); mk = s.m.empty() ? 1 : 0; for (int a : s.m) { mk[a - 1] = 1; } F.AddDomainIntegrator(I, mk);
      double ex = -E.integrate(E.at("peak_flux"), s.m, ord_curl, [&](T_ &T, const IP &ip) { return C.Eval(T, ip, E.val("peak_flux", T), hot ? E.val("temperature", T) : 373.15); }); c.rel(F.GetEnergy(E.tv["peak_flux"]), ex, 1e-11, 1e-13, "demagnetization"); c.count("constraints"); return;
   }
   // through the output: an optional temperature field, a library of magnets
   json comps, mats; library(g, E.na, comps, mats); for (int a = 1; a <= E.na; ++a) { std::string mn = "m" + std::to_string(a), cn = "c" + std::to_string(a); if (comps.contains(cn) && g.coin(0.8)) { mats[mn]["Demag"] = {{"T0", 293.15}, {"alpha_B_r", g.uni(-0.12, -0.1)}, {"B_r_T0", g.uni(1.3, 1.4)}, {"alpha_H_ci", -0.57}, {"H_ci_T0", -1e1}, {"alpha_B_knee", 0.005}, {"beta_B_knee", -2.5}, {"alpha_H_knee", 0.06}, {"beta_H_knee", -28}}; json mj = {{"name", mn}}; mj["Demag"] = json::object(); comps[cn]["material"] = mj; } }
   for (auto &x : {0}) { (void)x; E.tv["temperature"] = rvec(g, E.tv["temperature"].Size(), 280, 330); } Env &E2 = E; E.sync();
   Fields cold; Fields *F = &E.fields; if (!hot) { auto keep = E.fields.extract("temperature"); E.tv.erase("temperature"); miso::PMDemagOutput O(E.fields, comps, mats, s.o); miso::PMDemagConstraintCoefficient pm(comps, mats); miso::TwoStateCoefficient &M = pm; MISOInputs in = E.inputs(); c.rel(calcOutput(O, in), -E.integrate(E.at("peak_flux"), s.m, ord_curl, [&](T_ &T, const IP &ip) { return M.Eval(T, ip, E.val("peak_flux", T), 373.15); }), 1e-10, 1e-12, "demagnetization-at-the-default-temperature"); c.count("constraints"); return; }
   (void)F; (void)E2; miso::PMDemagOutput O(E.fields, comps, mats, s.o); miso::PMDemagConstraintCoefficient pm(comps, mats); miso::TwoStateCoefficient &M = pm; MISOInputs in = E.inputs(); c.rel(calcOutput(O, in), -E.integrate(E.at("peak_flux"), s.m, ord_curl, [&](T_ &T, const IP &ip) { return M.Eval(T, ip, E.val("peak_flux", T), E.val("temperature", T)); }), 1e-10, 1e-12, "demagnetization"); c.count("constraints"); c.check(getSize(O) == 1, "size");
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("dc", 700, dc); run("ac", 700, ac); run("core", 900, core); run("steinmetz", 500, steinmetz); run("heat", 250, heat); run("demag", 700, demag);
   int rc = finish(); MPI_Finalize(); return rc;
}
