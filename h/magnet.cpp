// Magnetostatic residual and its current and magnet loads (property C24).
#include "integcheck.hpp"
#include <fcntl.h>
#include <unistd.h>
#include "coefficient.hpp"
#include "electromag_integ.hpp"
#include "mfem_common_integ.hpp"
#include "current_source_functions.hpp"
#include "magnetic_source_functions.hpp"
#include "magnetostatic_load.hpp"
#include "magnetostatic_residual.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic;
using T_ = ElementTransformation; using IP = IntegrationPoint; using FT = FaceElementTransformations;
/// hypre reports its iterations on the C stream
struct Mute { Quiet q; int keep; Mute() { fflush(stdout); keep = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Mute() { fflush(stdout); dup2(keep, 1); close(keep); } };
static bool in(const std::vector<int> &m, int a) { return m.empty() || std::find(m.begin(), m.end(), a) != m.end(); }
/// reluctivity by attribute, growing with the field except in the attributes that hold magnets
struct Nu : miso::StateCoefficient
{
   std::vector<double> a, b;
   explicit Nu(Rng &g, bool nonlinear) { for (int i = 0; i < 8; ++i) { a.push_back(g.uni(0.5, 3)); b.push_back(nonlinear ? g.uni(-0.05, 0.4) : 0); } }
   double at(T_ &T) { return a[(T.Attribute - 1) % 8]; } double bt(T_ &T) { return b[(T.Attribute - 1) % 8]; }
   double Eval(T_ &T, const IP &, double s) override { return at(T) + bt(T) * s * s; }
   double EvalStateDeriv(T_ &T, const IP &, double s) override { return 2 * bt(T) * s; }
   double EvalState2ndDeriv(T_ &T, const IP &, double) override { return 2 * bt(T); }
   void EvalRevDiff(double, T_ &, const IP &, double, DenseMatrix &) override { }
};
/// random current groups and magnets over the attributes of the mesh
struct Sources
{
   json opt = json::object(), mats = json::object(); std::vector<std::string> groups; std::map<int, std::pair<std::string, std::string>> coil; std::set<int> magnets; bool current = false, magnet = false;
   Sources(Env &E, Nu &nu, bool want_current, bool want_magnet, const std::vector<std::string> &kinds)
   {
      auto &g = E.g; auto &c = E.c;
      if (want_current)
      {
         current = true; json cur = json::object(); int n = g.irand(1, 2); for (int i = 0; i < n; ++i) { groups.push_back("g" + std::to_string(i)); cur[groups.back()] = json::object(); }
         int forced = E.mesh->attributes[g.irand(0, E.mesh->attributes.Size() - 1)];
         for (int a = 1; a <= E.na; ++a) { if (a != forced && g.coin()) { continue; } auto grp = g.pick(groups), k = g.pick(kinds); cur[grp][k].push_back(a); coil[a] = {grp, k}; }
         for (auto &s : groups) { if (cur[s].empty()) { cur.erase(s); } } groups.clear(); for (auto &kv : cur.items()) { groups.push_back(kv.key()); } opt["current"] = cur; c.count("with-currents");
      }
      if (want_magnet)
      {
         magnet = true; json mag = json::object(); static const std::vector<std::string> dirs{"north", "south", "cw", "ccw", "x", "y"}; int forced = E.mesh->attributes[g.irand(0, E.mesh->attributes.Size() - 1)];
         for (int a = 1; a <= E.na; ++a) { if (a != forced && g.coin()) { continue; } std::string m = g.coin() ? "m0" : "m1"; mag[m][g.pick(dirs)].push_back(a); magnets.insert(a); nu.b[(a - 1) % 8] = 0; }
         for (auto &kv : mag.items()) { json m = {{"mu_r", 1.05}}; if (g.coin(0.8)) { m["alpha_B_r"] = g.uni(-30, 30); m["T_ref"] = g.uni(-2, 2); m["B_r_T_ref"] = g.uni(0.5, 2); } mats[kv.key()] = m; }
         opt["magnets"] = mag; c.count("with-magnets");
      }
   }
};
template <class R> static double scalar_forward(R &F, const std::string &w, int n, const Vector &psi, double s) { Vector d(1), y(n), y0(n); d = s; y0 = 0.25; y = y0; jacobianVectorProduct(F, d, w, y); y -= y0; return (psi * y) / s; }
/// residual, Jacobian, products and sensitivities of R
template <class R> static void judge(Env &E, R &F, const std::function<double()> &ref, const std::vector<std::string> &vec, const std::vector<std::string> &scal, const Array<int> &ess, double vtol, double dtol = 0)
{
   auto &c = E.c; auto &g = E.g; Vector &psi = E.tv["psi"]; auto keep = E.tv;
   auto value = [&] { MISOInputs in = E.inputs(); setInputs(F, in); Vector r(psi.Size()); r = 1e9; evaluate(F, in, r); return psi * r; };
   double v = value(); E.sync(); double f = std::max(std::fabs(v), 1e-8); double ex = ref(); c.near(v, ex, vtol * (std::max({std::fabs(v), std::fabs(ex), norm(psi)})) + 1e-12, "value"); c.count("residuals");
   Vector d = E.direction("state"), dfull(d), full(psi); d.SetSubVector(ess, 0.0); psi.SetSubVector(ess, 0.0); E.sync();
   {  MISOInputs in = E.inputs(); setInputs(F, in); auto &J = getJacobian(F, in, "state"); Vector y(psi.Size()); y = 1e9; J.Mult(d, y); derivative(c, psi * y, E.moved("state", d, value), "jacobian", f + dtol);
      auto &Jt = getJacobianTranspose(F, in, "state"); Vector z(psi.Size()); z = 1e9; Jt.Mult(psi, z); c.rel(z * d, psi * y, 1e-10, 1e-10 * f, "transposed-jacobian"); }
   psi = full; d = dfull; E.sync();
   {  MISOInputs in = E.inputs(); linearize(F, in); Vector y0 = rvec(g, psi.Size(), -f, f), y(y0), z0 = rvec(g, d.Size(), -f, f), z(z0); jacobianVectorProduct(F, d, "state", y); y -= y0; derivative(c, psi * y, E.moved("state", d, value), "forward-product-state", f + dtol);
      MISOInputs i2 = E.inputs(); linearize(F, i2); vectorJacobianProduct(F, psi, "state", z); z -= z0; c.rel(z * d, psi * y, 1e-9, 1e-10 * (f + norm(z) * norm(d)), "transposed-product-state"); }
   for (auto &w : vec)
   {  MISOInputs in = E.inputs(); setInputs(F, in); if (g.coin(0.6)) { value(); } Vector dir = E.direction(w), b0 = rvec(g, dir.Size(), -f, f), b(b0); vectorJacobianProduct(F, psi, w, b); b -= b0; derivative(c, b * dir, E.moved(w, dir, value), "transposed-product-" + w, f + dtol); c.count("vector-sensitivities"); }
   psi = full; E.sync();
   for (auto &w : scal)
   {  MISOInputs in = E.inputs(); setInputs(F, in); if (g.coin(0.6)) { value(); } Vector free(psi); free.SetSubVector(ess, 0.0);
      double b = vectorJacobianProduct(F, psi, w), k = E.sc[w], s = g.uni(0.5, 2); double v0 = value(); E.sc[w] += s; double v1 = value(); E.sc[w] = k; double scale = (std::fabs(v0) + std::fabs(v1)) / s + norm(psi);
      c.near(b, (v1 - v0) / s, (1e-10 + 10 * vtol) * scale, "transposed-product-current-density"); setInputs(F, E.inputs()); c.near(scalar_forward(F, w, psi.Size(), psi, g.uni(0.5, 2)), b, (1e-10 + 10 * vtol) * scale, "forward-product-current-density"); c.count("scalar-sensitivities"); }
   // products leave the residual as it was, even when no input is given again
   { MISOInputs in = E.inputs(); Vector r(psi.Size()); evaluate(F, in, r); for (auto &w : scal) { vectorJacobianProduct(F, psi, w); } MISOInputs st; for (auto &n : {"state", "dirichlet_bc"}) { if (E.tv.count(n)) { st.emplace(n, E.tv[n]); } } Vector r2(psi.Size()); r2 = 7.0; evaluate(F, st, r2); same(c, r2, r, 1e-9, "products-restore-the-sources"); }
   for (auto &p : keep) { same(c, E.tv[p.first], p.second, 0, "inputs-untouched", p.first); }
   c.near(value(), v, (1e-12 + vtol) * (f + norm(psi)), "repeatable");
}
static std::vector<int> outer(Env &E) { return E.pick(E.mesh->bdr_attributes, E.nb); }
static Array<int> essential(ParFiniteElementSpace &s, Env &E, const std::vector<int> &m) { Array<int> et; if (m.empty()) { return et; } Array<int> eb(E.mesh->bdr_attributes.Max()); eb = 0; for (int a : m) { if (a <= eb.Size()) { eb[a - 1] = 1; } } s.GetEssentialTrueDofs(eb, et); return et; }
static std::vector<int> clip(Env &E, std::vector<int> v) { int mx = E.mesh->bdr_attributes.Max(); v.erase(std::remove_if(v.begin(), v.end(), [&](int a) { return a > mx; }), v.end()); return v; }
static json lin_prec(Case &c, bool two) { auto &g = c.rng; std::string t = g.coin(0.3) ? "hypreilu" : g.coin(0.5) ? (two ? "hypreboomeramg" : "hypreams") : "none"; json p = {{"type", t}, {"printlevel", 0}}; if (t == "hypreilu") { p["ilu-type"] = 0; p["lev-fill"] = 1; p["ilu-reorder"] = 0; } return p; }
static void preconditioner(Case &c, miso::MagnetostaticResidual &R, const json &p)
{
   auto t = p["type"].get<std::string>(); auto *s = getPreconditioner(R); c.count("preconditioners"); if (t == "none") { c.check(s == nullptr, "no-preconditioner-unless-asked"); return; }
   if (!c.check(s != nullptr, "preconditioner-provided", t)) { return; }
   c.check(t == "hypreilu" ? dynamic_cast<HypreILU *>(s) != nullptr : t == "hypreams" ? dynamic_cast<HypreAMS *>(s) != nullptr : dynamic_cast<HypreBoomerAMG *>(s) != nullptr, "preconditioner-kind", t);
}
/// the plane: out-of-plane potential, continuous or not
static void plane(Case &c)
{
   Mute q; auto &g = c.rng; bool dg = c.in("dg", g.coin(0.4)); Env E(c, 2, -1, 0, 3); int p = c.in("order", g.irand(1, 3)); const char *k = dg ? "l2" : "h1"; auto &u = E.add("state", k, p, -1, 1); E.add("psi", k, p); E.add("dirichlet_bc", k, p);
   Nu nu(g, g.coin(0.8)); bool wc = c.in("current", g.coin(0.75)), wm = c.in("magnets", g.coin(0.5)); Sources S(E, nu, wc, wm, {"z", "-z"}); if (wm || g.coin(0.3)) { E.add("temperature", g.coin() ? "h1" : "l2", g.irand(1, 3), -2, 2); }
   double mu = pow(p + 1.0, 3); json sd = {{"degree", p}, {"basis-type", dg ? g.pick(std::vector<std::string>{"dg", "DG", "L2", "l2"}) : "H1"}}; if (g.coin()) { sd["sipg-penalty"] = mu = g.uni(1, 30); } else if (g.coin(0.3)) { sd["sipg-penalty"] = -1.0; }
   std::vector<int> ess, weak; json bcs = json::object(); if (g.coin(0.6)) { ess = outer(E); bcs["essential"] = clip(E, ess); c.count(dg ? "with-weak-values" : "with-essential-values"); } if (g.coin(0.35)) { weak = outer(E); bcs["weak-essential"] = clip(E, weak); c.count("with-weak-values"); }
   json opt = S.opt; opt["space-dis"] = sd; opt["lin-prec"] = lin_prec(c, true); if (!bcs.empty() || g.coin()) { opt["bcs"] = bcs; }
   for (auto &s : S.groups) { E.sc["current_density:" + s] = g.coin(0.1) ? 0.0 : g.uni(-3, 3); }
   miso::MagnetostaticResidual R(miso::getDiffStack(), u.space(), E.fields, opt, S.mats, nu); c.check(getSize(R) == E.tv["state"].Size(), "size"); preconditioner(c, R, opt["lin-prec"]);
   Array<int> et = dg ? Array<int>() : essential(u.space(), E, ess); std::unique_ptr<miso::MagnetizationCoefficient> M; if (wm) { M.reset(new miso::MagnetizationCoefficient(miso::getDiffStack(), opt["magnets"], S.mats, 2)); }
   auto ref = [&] {
      Vector full(E.tv["psi"]); double s = 0; for (int i : et) { s += full(i) * (E.tv["state"](i) - E.tv["dirichlet_bc"](i)); E.tv["psi"](i) = 0; } E.sync();
      s += E.integrate(u, {}, [](const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() : 2 * el.GetOrder() + el.GetDim() - 1; }, [&](T_ &T, const IP &ip) { Vector b = E.grad("state", T); return nu.Eval(T, ip, b.Norml2()) * (b * E.grad("psi", T)); });
      if (dg) { for (int fc = 0; fc < E.mesh->GetNumFaces(); ++fc) { auto *T = E.mesh->GetInteriorFaceTransformations(fc); if (!T) { continue; } auto &ir = IntRules.Get(T->GetGeometryType(), 2 * p); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip); Vector n(2); CalcOrtho(T->Jacobian(), n); T_ &A = *T->Elem1, &B = *T->Elem2; Vector g1 = E.grad("state", A), g2 = E.grad("state", B); double n1 = nu.Eval(A, T->GetElement1IntPoint(), g1.Norml2()), n2 = nu.Eval(B, T->GetElement2IntPoint(), g2.Norml2()), ju = E.val("state", A) - E.val("state", B), jp = E.val("psi", A) - E.val("psi", B);
            s += ip.weight * (-0.5 * (n1 * (g1 * n) + n2 * (g2 * n)) * jp - 0.5 * ju * (n1 * (E.grad("psi", A) * n) + n2 * (E.grad("psi", B) * n)) + mu * (n * n) / 2 * (n1 / A.Weight() + n2 / B.Weight()) * ju * jp); } } }
      for (auto *wk : {&ess, &weak}) { if (wk->empty() || (wk == &ess && !dg)) { continue; } for (int b = 0; b < E.mesh->GetNBE(); ++b) { if (!in(*wk, E.mesh->GetBdrAttribute(b))) { continue; } auto *T = E.mesh->GetBdrFaceTransformations(b); if (!T) { continue; } auto &el = *u.space().GetFE(T->Elem1No); auto &ir = IntRules.Get(T->GetGeometryType(), el.Space() == FunctionSpace::Pk ? 2 * p : 2 * p + 2);
         for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip); Vector n(2); CalcOrtho(T->Jacobian(), n); T_ &A = *T->Elem1; Vector gu = E.grad("state", A); double uu = E.val("state", A) - E.val("dirichlet_bc", A), pp = E.val("psi", A); s += ip.weight * nu.Eval(A, T->GetElement1IntPoint(), gu.Norml2()) * (-(gu * n) * pp - uu * (E.grad("psi", A) * n) + mu * (n * n) / A.Weight() * uu * pp); } } }
      if (wc) { s -= E.integrate(u, {}, [](const FiniteElement &el, T_ &) { return 2 * el.GetOrder() - 2; }, [&](T_ &T, const IP &) { auto it = S.coil.find(T.Attribute); return it == S.coil.end() ? 0.0 : E.sc["current_density:" + it->second.first] * (it->second.second == "z" ? 1 : -1) * E.val("psi", T); }); }
      if (wm) { s += E.integrate(u, {}, [](const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - 1 : 2 * el.GetOrder() + 1; }, [&](T_ &T, const IP &ip) { if (!S.magnets.count(T.Attribute)) { return 0.0; } Vector m(2), gr = E.grad("psi", T); M->Eval(m, T, ip, E.val("temperature", T)); return nu.at(T) * (m(1) * gr(0) - m(0) * gr(1)); }); }
      E.tv["psi"] = full; E.sync(); return s; };
   std::vector<std::string> vec{"mesh_coords"}, scal; if (wm) { vec.push_back("temperature"); } for (auto &s : S.groups) { scal.push_back("current_density:" + s); } if (wm && wc) { c.count("currents-with-magnets"); }
   judge(E, R, ref, vec, scal, et, 1e-11);
   // products leave the sources as they were
   if (wc)
   {
      MISOInputs in = E.inputs(), st{{"state", E.tv["state"]}}; int n = E.tv["state"].Size(); Vector a(n), b(n), d(n), one(1); one = 1.0; a = 0.0; evaluate(R, in, a); auto name = "current_density:" + g.pick(std::vector<std::string>(S.groups.begin(), S.groups.end())); linearize(R, in); bool fwd = g.coin();
      if (fwd) { d = 0.0; jacobianVectorProduct(R, one, name, d); } else { vectorJacobianProduct(R, E.tv["psi"], name); } b = 0.0; evaluate(R, st, b); b -= a; c.near(b.Norml2(), 0, 1e-12 * (1 + a.Norml2()), fwd ? "forward-products-leave-the-currents-alone" : "reverse-products-leave-the-currents-alone"); c.count("currents-kept");
   }
   // an input the residual does not have changes nothing
   { MISOInputs in = E.inputs(); setInputs(R, in); c.near(vectorJacobianProduct(R, E.tv["psi"], "no_such_input"), 0, 0, "unknown-input-has-no-effect"); if (!wc) { c.near(vectorJacobianProduct(R, E.tv["psi"], "current_density:g0"), 0, 0, "no-current-no-sensitivity"); } }
   if (wm && g.coin(0.3)) { Fields few; for (auto &n : {"state", "dirichlet_bc", "mesh_coords"}) { auto &f = E.at(n); few.emplace(std::piecewise_construct, std::forward_as_tuple(n), std::forward_as_tuple(*E.mesh, f.space(), n)); } bool threw = false; try { miso::MagnetostaticResidual R2(miso::getDiffStack(), u.space(), few, opt, S.mats, nu); } catch (const std::exception &) { threw = true; } c.check(threw, "magnets-need-a-temperature"); c.count("refusals"); }
   c.count(dg ? "dg-residuals" : "cg-residuals");
}
/// what the current load has to be: the part of M^-1 J orthogonal to interior gradients, weighed by M
struct Solenoidal
{
   ParFiniteElementSpace &nd; H1_FECollection hc; ParFiniteElementSpace h1; Array<int> inner;
   explicit Solenoidal(ParFiniteElementSpace &s) : nd(s), hc(s.GetFE(0)->GetOrder(), 3), h1(s.GetParMesh(), &hc) { Array<int> b(s.GetParMesh()->bdr_attributes.Max()), e; b = 1; h1.GetEssentialVDofs(b, e); for (int i = 0; i < e.Size(); ++i) { if (!e[i]) { inner.Append(i); } } }
   DenseMatrix grad() { DiscreteLinearOperator G(&h1, &nd); G.AddDomainInterpolator(new GradientInterpolator); G.Assemble(); G.Finalize(); std::unique_ptr<DenseMatrix> d(G.SpMat().ToDenseMatrix()); DenseMatrix r(nd.GetVSize(), inner.Size()); for (int j = 0; j < inner.Size(); ++j) { for (int i = 0; i < r.Height(); ++i) { r(i, j) = (*d)(i, inner[j]); } } return r; }
   /// M (I - G (G'MG)^-1 G'M) M^-1 J
   Vector load(VectorCoefficient &J)
   {
      LinearForm L(&nd); L.AddDomainIntegrator(new VectorFEDomainLFIntegrator(J)); L.Assemble(); BilinearForm Mf(&nd); Mf.AddDomainIntegrator(new VectorFEMassIntegrator); Mf.Assemble(); Mf.Finalize(); std::unique_ptr<DenseMatrix> M(Mf.SpMat().ToDenseMatrix());
      Vector r(L); if (inner.Size() == 0) { return r; } DenseMatrix G = grad(), MG(G.Height(), G.Width()), S(G.Width()); mfem::Mult(*M, G, MG); MultAtB(G, MG, S); Vector t(G.Width()), x(G.Width()); G.MultTranspose(r, t); DenseMatrixInverse I(S); I.Mult(t, x); MG.AddMult(x, r, -1.0); return r;
   }
};
/// currents for 3-D: every source shape the library offers that is defined on the whole mesh
static const std::vector<std::string> &kinds3() { static const std::vector<std::string> k{"x", "y", "z", "-z", "ring", "box1", "box2"}; return k; }
/// the current load by itself, through the magnetostatic load and the type-erased wrapper
static void coils(Case &c)
{
   Mute q; auto &g = c.rng; Env E(c, 3, -1, 0, 3, true, false, 2); int p = c.in("order", E.mesh->GetNE() > 12 ? 1 : g.irand(1, 2)); auto &u = E.add("state", "nd", p); E.add("psi", "nd", p); if (u.space().GetVSize() > 900) { c.trivial = true; return; }
   Nu nu(g, true); bool wm = c.in("magnets", g.coin(0.3)); Sources S(E, nu, true, wm, kinds3()); if (wm && g.coin(0.7)) { E.add("temperature", g.coin() ? "h1" : "l2", g.irand(1, 2), -2, 2); } json opt = S.opt; std::vector<int> ess; if (c.in("essential", g.coin(0.5))) { ess = outer(E); opt["bcs"] = {{"essential", clip(E, ess)}}; c.count("loads-with-essential-values"); } Array<int> et = essential(u.space(), E, ess);
   for (auto &s : S.groups) { E.sc["current_density:" + s] = g.uni(-3, 3); }
   miso::CurrentLoad L(miso::getDiffStack(), u.space(), E.fields, opt); miso::CurrentDensityCoefficient J(miso::getDiffStack(), opt["current"]); int n = E.tv["state"].Size(); c.check(getSize(L) == n, "size");
   auto get = [&](bool give) { if (give) { MISOInputs in = E.inputs(); setInputs(L, in); } Vector r(n), r0 = rvec(g, n); r = r0; addLoad(L, r); r -= r0; return r; };
   auto ref = [&] { E.sync(); MISOInputs in = E.inputs(); setInputs(J, in); Solenoidal s(u.space()); Vector r = s.load(J); r *= -1; r.SetSubVector(et, 0.0); return r; };
   auto tol = [&](const Vector &r) { (void)r; return 1e-8; };
   Vector r = get(true), want = ref(); same(c, r, want, tol(want), "load"); c.count("current-loads");
   same(c, get(false), r, 1e-14, "load-kept-while-nothing-changes");
   if (et.Size() == 0) { Solenoidal s(u.space()); if (s.inner.Size()) { DenseMatrix G = s.grad(); Vector t(G.Width()); G.MultTranspose(r, t); c.near(norm(t), 0, 1e-9 * (1 + norm(r)), "load-does-no-work-on-interior-gradients"); c.count("solenoidal-loads"); } }
   else { double w = 0; for (int i : et) { w = std::max(w, std::fabs(r(i))); } c.near(w, 0, 1e-13, "no-load-on-essential-dofs"); }
   // every group acts linearly; a new value, a move of the mesh or a product in between is seen
   auto sg = "current_density:" + g.pick(S.groups); Vector psi(E.tv["psi"]); { auto vj = [&] { return vectorJacobianProduct(L, psi, sg); }; double b = vj(); auto k = E.sc[sg]; double step = g.uni(0.5, 2); E.sc[sg] = k + step; Vector r1 = get(true); c.near(b, ((psi * r1) - (psi * r)) / step, 1e-8 * (1 + norm(r) + norm(r1)) * n, "current-density-product"); same(c, r1, ref(), tol(r1), "load-after-a-new-current"); b = vj(); same(c, get(false), r1, 1e-9, "product-leaves-the-load"); E.sc[sg] = k; c.count("current-products"); c.near(vectorJacobianProduct(L, psi, "current_density:none"), 0, 1e-12, "unknown-group-has-no-effect"); c.near(vectorJacobianProduct(L, psi, "state"), 0, 0, "state-does-not-load"); }
   Vector old(E.tv["mesh_coords"]), dir = E.direction("mesh_coords"); E.tv["mesh_coords"].Add(0.01, dir); E.sync(); if (c.in("product-first", g.coin(0.3))) { MISOInputs in = E.inputs(); setInputs(L, in); Vector b(dir.Size()); b = 0.0; vectorJacobianProduct(L, psi, "mesh_coords", b); } same(c, get(true), ref(), 1e-8, "load-after-a-move"); c.count("moves");
   // sensitivity to the mesh
   if (g.coin(0.5)) { auto value = [&] { Vector x = get(true); return psi * x; }; get(true); if (g.coin(0.3)) { vectorJacobianProduct(L, psi, sg); } double f = std::fabs(value()) + norm(want); Vector b0 = rvec(g, dir.Size()), b(b0); vectorJacobianProduct(L, psi, "mesh_coords", b); b -= b0; derivative(c, b * dir, E.moved("mesh_coords", dir, value), "mesh-sensitivity", f); c.count("load-mesh-sensitivities"); E.sync(); }
   E.tv["mesh_coords"] = old; E.sync();
   // the magnetostatic load is the sum of its parts
   if (g.coin(0.5))
   {
      miso::MISOLoad A(miso::MagnetostaticLoad(miso::getDiffStack(), u.space(), E.fields, opt, S.mats, nu)); setOptions(A, opt); MISOInputs in = E.inputs(); setInputs(A, in); Vector a(n), b = get(true); a = 0.0; addLoad(A, a); double ex = psi * b, bs = vectorJacobianProduct(L, psi, sg); Vector va(dir.Size()), vb(dir.Size()); va = 0.0; vb = 0.0; vectorJacobianProduct(A, psi, "mesh_coords", va); vectorJacobianProduct(L, psi, "mesh_coords", vb);
      if (wm) { miso::MagneticLoad M(miso::getDiffStack(), u.space(), E.fields, opt, S.mats, nu); setOptions(M, opt); setInputs(M, in); Vector m(n); m = 0.0; addLoad(M, m); ex += psi * m; vectorJacobianProduct(M, psi, "mesh_coords", vb); c.count("combined-loads"); }
      c.near(psi * a, ex, 1e-9 * (1 + norm(a)) * n, "sum-of-the-sources"); c.near(vectorJacobianProduct(A, psi, sg), bs, 1e-9 * (1 + std::fabs(bs)) * n, "sum-current-product"); same(c, va, vb, 1e-7, "sum-mesh-product");
      if (wm && E.tv.count("temperature"))
      {  // the sum passes its inputs to both parts
         Vector hot = rvec(g, E.tv["temperature"].Size(), -2, 2), have, sum(n), m(n); MISOInputs only{{"temperature", hot}}; setInputs(A, only); E.at("temperature").setTrueVec(have); same(c, have, hot, 0, "sum-passes-its-inputs");
         sum = 0.0; addLoad(A, sum); miso::MagneticLoad M(miso::getDiffStack(), u.space(), E.fields, opt, S.mats, nu); setOptions(M, opt); MISOInputs all = in; all.insert_or_assign("temperature", hot); setInputs(M, all); m = 0.0; addLoad(M, m); m += b; same(c, sum, m, 1e-8, "sum-follows-the-temperature"); c.count("temperature-changes"); E.sync();
      }
   }
}
/// space: edge elements
static void space(Case &c)
{
   Mute q; auto &g = c.rng; Env E(c, 3, -1, 0, 3, true, false, 2); int p = c.in("order", E.mesh->GetNE() > 12 ? 1 : g.irand(1, 2)); auto &u = E.add("state", "nd", p); E.add("psi", "nd", p); E.add("dirichlet_bc", "nd", p); if (u.space().GetVSize() > 900) { c.trivial = true; return; }
   Nu nu(g, g.coin(0.8)); bool wc = c.in("current", g.coin(0.7)), wm = c.in("magnets", g.coin(0.5)); Sources S(E, nu, wc, wm, kinds3());
   std::vector<int> ess; json bcs = json::object(); if (g.coin(0.6)) { ess = outer(E); bcs["essential"] = clip(E, ess); c.count("with-essential-values"); }
   json opt = S.opt; opt["space-dis"] = {{"degree", p}, {"basis-type", "nedelec"}}; opt["lin-prec"] = lin_prec(c, false); if (!bcs.empty() || g.coin()) { opt["bcs"] = bcs; } for (auto &s : S.groups) { E.sc["current_density:" + s] = g.uni(-3, 3); }
   miso::MagnetostaticResidual R(miso::getDiffStack(), u.space(), E.fields, opt, S.mats, nu); c.check(getSize(R) == E.tv["state"].Size(), "size"); preconditioner(c, R, opt["lin-prec"]);
   Array<int> et = essential(u.space(), E, ess); std::unique_ptr<miso::MagnetizationCoefficient> M; if (wm) { M.reset(new miso::MagnetizationCoefficient(miso::getDiffStack(), opt["magnets"], S.mats, 3)); } std::unique_ptr<miso::CurrentDensityCoefficient> J; if (wc) { J.reset(new miso::CurrentDensityCoefficient(miso::getDiffStack(), opt["current"])); }
   auto ref = [&] {
      Vector full(E.tv["psi"]); double s = 0; for (int i : et) { s += full(i) * (E.tv["state"](i) - E.tv["dirichlet_bc"](i)); E.tv["psi"](i) = 0; } E.sync();
      s += E.integrate(u, {}, [](const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - 1 : 2 * el.GetOrder(); }, [&](T_ &T, const IP &ip) { Vector b = E.curl("state", T); return nu.Eval(T, ip, b.Norml2()) * (b * E.curl("psi", T)); });
      if (wc) { MISOInputs in = E.inputs(); setInputs(*J, in); Solenoidal so(u.space()); Vector l = so.load(*J); s -= l * E.tv["psi"]; }
      if (wm) { s -= E.integrate(u, {}, [](const FiniteElement &el, T_ &) { return 2 * el.GetOrder(); }, [&](T_ &T, const IP &ip) { if (!S.magnets.count(T.Attribute)) { return 0.0; } Vector m(3); M->Eval(m, T, ip); return nu.at(T) * (m * E.curl("psi", T)); }); }
      E.tv["psi"] = full; E.sync(); return s; };
   std::vector<std::string> scal; for (auto &s : S.groups) { scal.push_back("current_density:" + s); }
   judge(E, R, ref, {"mesh_coords"}, scal, et, wc ? 1e-8 : 1e-11, 1.0); c.count("edge-residuals"); if (wm && wc) { c.count("currents-with-magnets"); }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("plane", 1200, plane); run("coils", 300, coils); run("space", 300, space);
   int rc = finish(); MPI_Finalize(); return rc;
}
