// Thermal weak forms, interface and boundary conditions, and the assembled residual (property C23).
#include "integcheck.hpp"
#include "coefficient.hpp"
#include "electromag_integ.hpp"
#include "thermal_integ.hpp"
#include "thermal_residual.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic;
using T_ = ElementTransformation; using IP = IntegrationPoint; using FT = FaceElementTransformations;
static bool in(const std::vector<int> &m, int a) { return m.empty() || std::find(m.begin(), m.end(), a) != m.end(); }

/// visit the points of a face
template <class F> static void face_points(FT &T, int order, F &&f) { auto &ir = IntRules.Get(T.GetGeometryType(), order); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetAllIntPoints(&ip); f(ip.weight * T.Weight(), ip); } }
static std::vector<int> interfaces(Env &E, bool ib, const std::vector<int> &m)
{
   std::vector<int> r; if (!ib) { for (int f = 0; f < E.mesh->GetNumFaces(); ++f) { r.push_back(f); } return r; }
   for (int b = 0; b < E.mesh->GetNBE(); ++b) { if (in(m, E.mesh->GetBdrAttribute(b))) { r.push_back(E.mesh->GetBdrElementEdgeIndex(b)); } } return r;
}
static double jumps(Env &E, const std::vector<int> &faces, const std::function<int(FT &)> &ord, const std::function<double(T_ &, T_ &)> &f)
{
   double s = 0; E.sync(); for (int k : faces) { auto *T = E.mesh->GetInteriorFaceTransformations(k); if (T) { face_points(*T, ord(*T), [&](double w, const IP &) { s += w * f(*T->Elem1, *T->Elem2); }); } } return s;
}
static double walls(Env &E, const std::vector<int> &m, const std::function<int(FT &)> &ord, const std::function<double(T_ &)> &f)
{
   double s = 0; E.sync(); for (int b = 0; b < E.mesh->GetNBE(); ++b) { if (!in(m, E.mesh->GetBdrAttribute(b))) { continue; } auto *T = E.mesh->GetBdrFaceTransformations(b); if (T) { face_points(*T, ord(*T), [&](double w, const IP &) { s += w * f(*T->Elem1); }); } } return s;
}
/// residual, Jacobian, products and sensitivities (fields and scalars) of a form or residual R
template <class R> static void judge(Env &E, R &F, const std::function<double()> &ref, const std::vector<std::string> &vec, const std::vector<std::string> &scal, const std::string &what, double vtol = 1e-11, const Array<int> &ess = Array<int>())
{
   auto &c = E.c; auto &g = E.g; Vector &psi = E.tv["psi"]; auto keep = E.tv;
   auto value = [&] { MISOInputs in = E.inputs(); setInputs(F, in); Vector r(psi.Size()); r = 1e9; evaluate(F, in, r); return psi * r; };
   double v = value(); E.sync(); double f = std::max(std::fabs(v), 1e-8); c.rel(v, ref(), vtol, 1e-12, what + "-value"); c.count("residuals");
   Vector d = E.direction("state"), dfull(d), full(psi); d.SetSubVector(ess, 0.0);
   // the assembled Jacobian has its essential rows and columns eliminated
   psi.SetSubVector(ess, 0.0); E.sync();
   {  MISOInputs in = E.inputs(); setInputs(F, in); auto &J = getJacobian(F, in, "state"); Vector y(psi.Size()); y = 1e9; J.Mult(d, y); derivative(c, psi * y, E.moved("state", d, value), what + "-jacobian", f);
      auto &Jt = getJacobianTranspose(F, in, "state"); Vector z(psi.Size()); z = 1e9; Jt.Mult(psi, z); c.rel(z * d, psi * y, 1e-10, 1e-10 * f, what + "-transposed-jacobian"); }
   psi = full; d = dfull; E.sync();
   {  MISOInputs in = E.inputs(); linearize(F, in); Vector y0 = rvec(g, psi.Size(), -f, f), y(y0), z0 = rvec(g, d.Size(), -f, f), z(z0); jacobianVectorProduct(F, d, "state", y); y -= y0; derivative(c, psi * y, E.moved("state", d, value), what + "-forward-product-state", f);
      MISOInputs i2 = E.inputs(); linearize(F, i2); vectorJacobianProduct(F, psi, "state", z); z -= z0; c.rel(z * d, psi * y, 1e-9, 1e-10 * (f + norm(z) * norm(d)), what + "-transposed-product-state"); }
   psi = full; E.sync();
   for (auto &w : vec)
   {  MISOInputs in = E.inputs(); setInputs(F, in); Vector dir = E.direction(w), b0 = rvec(g, dir.Size(), -f, f), b(b0); vectorJacobianProduct(F, psi, w, b); b -= b0; derivative(c, b * dir, E.moved(w, dir, value), what + "-transposed-product-" + w, f); c.count("vector-sensitivities");
      if (w == "thermal_load") { Vector y0 = rvec(g, psi.Size(), -f, f), y(y0); MISOInputs i2 = E.inputs(); setInputs(F, i2); jacobianVectorProduct(F, dir, w, y); y -= y0; c.rel(psi * y, b * dir, 1e-9, 1e-9 * f, what + "-forward-product-" + w); } }
   for (auto &w : scal)
   {  MISOInputs in = E.inputs(); setInputs(F, in); double b = vectorJacobianProduct(F, psi, w); derivative(c, b, E.moved(w, value), what + "-transposed-product-" + w.substr(0, w.find(':')), f, 0.1); c.count("scalar-sensitivities"); }
   for (auto &p : keep) { same(c, E.tv[p.first], p.second, 0, what + "-inputs-untouched", p.first); }
   c.rel(value(), v, 1e-12, 1e-12, what + "-is-repeatable");
}
static int face_order(Env &E, int p, FT &T) { (void)E; return 2 * p + T.OrderW(); }

/// heat exchanged between the two sides of an interface, directly or with a fluid in it
static void interface(Case &c)
{
   Quiet q; auto &g = c.rng; bool ib = c.in("internal-boundary", g.coin(0.6)); int dim = c.in("dim", ib || g.coin(0.6) ? 2 : 3); Env E(c, dim, -1, g.coin(0.2) && dim == 2 ? 3 : 0, 3, true, ib); if (ib && !E.internal) { c.trivial = true; return; }
   int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); auto &u = E.add("state", "l2", p); E.add("psi", "l2", p); double a = c.in("alpha", g.coin(0.3) ? 1.0 : g.uni(-2, 2)); bool fluid = c.in("fluid", g.coin()); std::string name = c.in("named", g.coin()) ? "gap" : "", h = name.empty() ? "h" : "h:gap", tf = name.empty() ? "fluid_temp" : "fluid_temp:gap";
   E.sc[h] = g.uni(-2, 5); if (fluid) { E.sc[tf] = g.uni(-2, 2); } std::vector<int> m; miso::MISONonlinearForm F(u.space(), E.fields);
   if (ib && g.coin(0.6)) { m = E.bmarks(); c.count("restricted-terms"); }
   auto put = [&](auto *I) { if (!ib) { F.addInteriorFaceIntegrator(I); } else if (m.empty()) { F.addInternalBoundaryFaceIntegrator(I); } else { F.addInternalBoundaryFaceIntegrator(I, m); } };
   if (fluid) { put(a != 1 ? new miso::InternalConvectionInterfaceIntegrator(9.0, 9.0, name, a) : name.empty() ? new miso::InternalConvectionInterfaceIntegrator() : new miso::InternalConvectionInterfaceIntegrator(9.0, 9.0, name)); c.count("fluid-interfaces"); } else { put(a != 1 ? new miso::ThermalContactResistanceIntegrator(9.0, name, a) : name.empty() ? new miso::ThermalContactResistanceIntegrator() : new miso::ThermalContactResistanceIntegrator(9.0, name)); c.count("contact-interfaces"); }
   auto faces = interfaces(E, ib, m);
   judge(E, F, [&] { return a * E.sc[h] * jumps(E, faces, [&](FT &T) { return fluid ? 2 * p + T.OrderW() : 2 * p; }, [&](T_ &A, T_ &B) {
      double u1 = E.val("state", A), u2 = E.val("state", B), p1 = E.val("psi", A), p2 = E.val("psi", B); return fluid ? (u1 - E.sc[tf]) * p1 + (u2 - E.sc[tf]) * p2 : (u1 - u2) * (p1 - p2); }); },
      {"mesh_coords"}, fluid ? std::vector<std::string>{h, tf} : std::vector<std::string>{h}, fluid ? "fluid-interface" : "contact-interface");
   // with no name given the defaults hold until an input sets them
   if (g.coin(0.2)) { MISOInputs none; setInputs(F, none); MISOInputs in = E.inputs(); in.erase(h); Vector r(E.tv["psi"].Size()), s(r); evaluate(F, in, r); setInputs(F, E.inputs()); evaluate(F, E.inputs(), s); same(c, r, s, 1e-14, "coefficients-persist"); }
}
/// convection to a fluid and prescribed outflow on (part of) the boundary
static void wall(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3); Env E(c, dim, -1, g.coin(0.2) && dim == 2 ? 3 : 0); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); const char *k = g.coin() ? "h1" : "l2"; auto &u = E.add("state", k, p); E.add("psi", k, p);
   double a = c.in("alpha", g.coin(0.3) ? 1.0 : g.uni(-2, 2)); std::vector<int> m; if (c.in("marked", g.coin(0.6))) { m = E.bmarks(); c.count("restricted-terms"); } miso::MISONonlinearForm F(u.space(), E.fields);
   auto put = [&](auto *I) { if (m.empty()) { F.addBdrFaceIntegrator(I); } else { F.addBdrFaceIntegrator(I, m); } };
   auto ord = [&](FT &T) { return face_order(E, p, T); };
   if (c.in("outflux", g.coin(0.3))) { E.sc["outflux"] = g.uni(-3, 3); put(a != 1 ? new miso::OutfluxBCIntegrator(7.0, a) : new miso::OutfluxBCIntegrator()); c.count("outflux-walls"); judge(E, F, [&] { return a * E.sc["outflux"] * walls(E, m, ord, [&](T_ &A) { return E.val("psi", A); }); }, {"mesh_coords"}, {}, "outflux"); }
   else { E.sc["h"] = g.uni(-2, 5); E.sc["fluid_temp"] = g.uni(-2, 2); put(a != 1 ? new miso::ConvectionBCIntegrator(7.0, 8.0, a) : g.coin() ? new miso::ConvectionBCIntegrator(7.0, 8.0) : new miso::ConvectionBCIntegrator()); c.count("convection-walls"); judge(E, F, [&] { return a * E.sc["h"] * walls(E, m, ord, [&](T_ &A) { return (E.val("state", A) - E.sc["fluid_temp"]) * E.val("psi", A); }); }, {"mesh_coords"}, {"h", "fluid_temp"}, "convection"); }
}
/// projection of a given field: int (u - g) psi
static void projection(Case &c)
{
   Quiet q; auto &g = c.rng; int dim = c.in("dim", g.coin(0.6) ? 2 : 3); Env E(c, dim); int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); const char *k = g.coin() ? "h1" : "l2"; auto &u = E.add("state", k, p); auto &psi = E.add("psi", k, p); double a = c.in("alpha", g.uni(-2, 2)), A = g.uni(-1, 1), B = g.uni(-1, 1);
   FunctionCoefficient fc([=](const Vector &x) { return sin(A * x(0) + B * x(1)) + B; }, [=](const Vector &x, const double q, Vector &b) { double k = cos(A * x(0) + B * x(1)) * q; b(0) += A * k; b(1) += B * k; });
   miso::L2ProjectionIntegrator I(fc, a); ParNonlinearForm N(&u.space()); N.AddDomainIntegrator(new miso::L2ProjectionIntegrator(fc, a)); Vector &s = E.tv["state"], &w = E.tv["psi"];
   auto value = [&] { E.sync(); Vector r(s.Size()); N.Mult(s, r); return w * r; }; double v = value(), f = std::max(std::fabs(v), 1e-8);
   c.rel(v, a * E.integrate(u, {}, [&](const FiniteElement &el, T_ &T) { return 2 * el.GetOrder() + T.OrderW(); }, [&](T_ &T, const IP &ip) { return (E.val("state", T) - fc.Eval(T, ip)) * E.val("psi", T); }), 1e-11, 1e-12, "projection-value");
   Vector d = E.direction("state"), y(s.Size()); E.sync(); N.GetGradient(s).Mult(d, y); derivative(c, w * y, E.moved("state", d, value), "projection-jacobian", f);
   E.sync(); ParLinearForm L(&E.at("mesh_coords").space()); L.AddDomainIntegrator(new miso::L2ProjectionIntegratorMeshRevSens(u.gridFunc(), psi.gridFunc(), I)); L.Assemble(); Vector b(E.tv["mesh_coords"].Size()); L.ParallelAssemble(b); Vector dir = E.direction("mesh_coords"); derivative(c, b * dir, E.moved("mesh_coords", dir, value), "projection-mesh-sensitivity", f); c.count("projections");
}
/// the assembled residual against the weak form its options describe
static void residual(Case &c)
{
   Quiet q; auto &g = c.rng; bool dg = c.in("dg", g.coin()), ib = c.in("interfaces", dg && g.coin(0.6)); int dim = c.in("dim", ib || g.coin(0.7) ? 2 : 3); Env E(c, dim, -1, 0, 3, true, ib); if (ib && !E.internal) { c.trivial = true; return; }
   // boundary elements inside the domain get attributes of their own
   if (ib) { for (int b = 0; b < E.mesh->GetNBE(); ++b) { E.mesh->GetBdrElement(b)->SetAttribute(E.mesh->GetInteriorFaceTransformations(E.mesh->GetBdrElementEdgeIndex(b)) ? 6 + g.irand(0, 1) : 1 + g.irand(0, 4)); } E.mesh->SetAttributes(); E.nb = 5; }
   int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); const char *k = dg ? "l2" : "h1"; auto &u = E.add("state", k, p, -2, 2); E.add("psi", k, p); E.add("dirichlet_bc", k, p);
   std::vector<double> kap(8); json comps = json::object(), mats = json::object();
   for (int i = 1; i <= E.na; ++i) { kap[i] = g.uni(0.3, 4); mats["m" + std::to_string(i)] = {{"kappa", kap[i]}, {"rho", 1.0}}; if (g.coin()) { comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", "m" + std::to_string(i)}}; } else { comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", {{"name", "m" + std::to_string(i)}, {"kappa", kap[i] = g.uni(0.3, 4)}}}}; mats["m" + std::to_string(i)]["kappa"] = kap[i]; } }
   double mu = (p + 1.0) * (p + 1.0); json sd = {{"degree", p}, {"basis-type", dg ? g.pick(std::vector<std::string>{"dg", "DG", "L2", "l2"}) : "H1"}}; if (g.coin()) { sd["sipg-penalty"] = mu = g.uni(1, 30); } else if (g.coin(0.3)) { sd["sipg-penalty"] = -1.0; }
   json bcs = json::object(), ifs = json::object(); std::vector<int> conv, flux, ess, weak; double h = 1, tf = 1, fl = 1; std::vector<std::string> scal; auto marks = [&] { return E.pick(Array<int>(E.mesh->bdr_attributes), std::min(E.nb, 5)); };
   auto outer = [&](std::vector<int> v) { std::vector<int> r; for (int a : v) { if (a <= 5) { r.push_back(a); } } if (r.empty()) { r.push_back(1); } return r; };
   if (g.coin(0.6)) { conv = outer(marks()); if (g.coin(0.3)) { bcs["convection"] = conv; } else { bcs["convection"] = {{"attrs", conv}}; if (g.coin(0.7)) { bcs["convection"]["h"] = h = g.uni(0, 5); } if (g.coin(0.7)) { bcs["convection"]["fluid_temp"] = tf = g.uni(-2, 2); } } c.count("with-convection"); }
   if (g.coin(0.5)) { flux = outer(marks()); if (g.coin(0.3)) { bcs["outflux"] = flux; } else { bcs["outflux"] = {{"attrs", flux}}; if (g.coin(0.7)) { bcs["outflux"]["flux"] = fl = g.uni(-3, 3); } } c.count("with-outflux"); }
   if (g.coin(0.6)) { ess = outer(marks()); bcs["essential"] = ess; c.count(dg ? "with-weak-values" : "with-essential-values"); }
   if (g.coin(0.4)) { weak = outer(marks()); bcs["weak-essential"] = weak; c.count("with-weak-values"); }
   struct If { std::vector<int> a; double h, tf; bool fluid; std::string n; }; std::vector<If> list;
   if (ib) { for (int i = 0, n = g.irand(1, 3); i < n; ++i) { If f; f.fluid = g.coin(); f.n = "i" + std::to_string(i); for (int a : {6, 7}) { if (g.coin(0.6)) { f.a.push_back(a); } } if (f.a.empty()) { f.a.push_back(6); } f.h = g.uni(0, 5); f.tf = g.uni(-2, 2); ifs[f.fluid ? "convection" : "thermal_contact_resistance"][f.n] = f.fluid ? json{{"attrs", f.a}, {"h", f.h}, {"fluid_temp", f.tf}} : json{{"attrs", f.a}, {"h", f.h}}; list.push_back(f); } c.count("with-interfaces"); }
   json opt = {{"components", comps}, {"space-dis", sd}, {"lin-prec", {{"type", g.pick(std::vector<std::string>{"hypreboomeramg", "hypreilu", "none"})}, {"printlevel", 0}, {"ilu-type", 0}, {"lev-fill", 1}, {"ilu-reorder", 0}}}}; if (!bcs.empty() || g.coin()) { opt["bcs"] = bcs; } if (ib) { opt["interfaces"] = ifs; }
   // attributes beyond the mesh's are not conditions on it
   { int mx = E.mesh->bdr_attributes.Max(); for (const char *s : {"convection", "outflux", "essential", "weak-essential"}) { if (!opt.contains("bcs") || !opt["bcs"].contains(s)) { continue; } auto &b = opt["bcs"][s]; auto v = (b.is_array() ? b : b["attrs"]).get<std::vector<int>>(); v.erase(std::remove_if(v.begin(), v.end(), [&](int a) { return a > mx; }), v.end()); if (b.is_array()) { b = v; } else { b["attrs"] = v; } } }
   if (ib) { int mx = E.mesh->bdr_attributes.Max(); for (auto &k2 : opt["interfaces"]) { for (auto &i2 : k2) { auto v = i2["attrs"].get<std::vector<int>>(); v.erase(std::remove_if(v.begin(), v.end(), [&](int a) { return a > mx; }), v.end()); i2["attrs"] = v; } } }
   miso::ThermalResidual R(u.space(), E.fields, opt, mats); setOptions(R, opt); c.check(getSize(R) == E.tv["state"].Size(), "size");
   {  auto t = opt["lin-prec"]["type"].get<std::string>(); auto *pr = getPreconditioner(R); c.check(t == "none" ? pr == nullptr : t == "hypreilu" ? dynamic_cast<HypreILU *>(pr) != nullptr : dynamic_cast<HypreBoomerAMG *>(pr) != nullptr, "preconditioner-kind", t); c.count("preconditioners"); }
   bool load = c.in("load", g.coin(0.6)); if (load) { E.tv["thermal_load"] = rvec(g, E.tv["state"].Size()); c.count("with-load"); }
   if (!conv.empty() && g.coin()) { E.sc["h"] = h = g.uni(0, 5); E.sc["fluid_temp"] = tf = g.uni(-2, 2); scal = {"h", "fluid_temp"}; }
   if (!flux.empty() && g.coin()) { E.sc["outflux"] = fl = g.uni(-3, 3); }
   for (auto &f : list) { if (g.coin()) { E.sc["h:" + f.n] = f.h = g.uni(0, 5); scal.push_back("h:" + f.n); if (f.fluid) { E.sc["fluid_temp:" + f.n] = f.tf = g.uni(-2, 2); scal.push_back("fluid_temp:" + f.n); } } }
   Array<int> et; if (!dg && !ess.empty()) { Array<int> eb(E.mesh->bdr_attributes.Max()); eb = 0; for (int a : ess) { if (a <= eb.Size()) { eb[a - 1] = 1; } } u.space().GetEssentialTrueDofs(eb, et); }
   auto K = [&](T_ &T) { return kap[T.Attribute]; }; auto cur = [&](const std::string &n, double v) { auto it = E.sc.find(n); return it == E.sc.end() ? v : it->second; };
   auto ref = [&] {
      // test function that leaves the essential rows to the condition they state
      Vector full(E.tv["psi"]); double s = 0; for (int i : et) { s += full(i) * (E.tv["state"](i) - E.tv["dirichlet_bc"](i)); E.tv["psi"](i) = 0; } Vector &ps = E.tv["psi"]; if (load) { s -= ps * E.tv["thermal_load"]; } E.sync();
      s += E.integrate(u, {}, [](const FiniteElement &el, T_ &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() : 2 * el.GetOrder() + el.GetDim() - 1; }, [&](T_ &T, const IP &) { return K(T) * (E.grad("state", T) * E.grad("psi", T)); });
      if (dg) {
         std::set<int> cut; std::map<int, int> times; for (auto &f : list) { for (int k2 : interfaces(E, true, f.a)) { ++times[k2]; } }
         for (int fc = 0; fc < E.mesh->GetNumFaces(); ++fc) { auto *T = E.mesh->GetInteriorFaceTransformations(fc); if (!T) { continue; } double sign = 1.0 - (times.count(fc) ? times[fc] : 0); if (sign == 0) { continue; }
            auto &ir = IntRules.Get(T->GetGeometryType(), 2 * p); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip); Vector n(dim); CalcOrtho(T->Jacobian(), n); T_ &A = *T->Elem1, &B = *T->Elem2; double ju = E.val("state", A) - E.val("state", B), jp = E.val("psi", A) - E.val("psi", B);
               s += sign * ip.weight * (-0.5 * (K(A) * (E.grad("state", A) * n) + K(B) * (E.grad("state", B) * n)) * jp - 0.5 * ju * (K(A) * (E.grad("psi", A) * n) + K(B) * (E.grad("psi", B) * n)) + mu * (n * n) / 2 * (K(A) / A.Weight() + K(B) / B.Weight()) * ju * jp); } } }
      auto ord = [&](FT &T) { return face_order(E, p, T); };
      if (!conv.empty()) { s += cur("h", h) * walls(E, conv, ord, [&](T_ &A) { return (E.val("state", A) - cur("fluid_temp", tf)) * E.val("psi", A); }); }
      if (!flux.empty()) { s += cur("outflux", fl) * walls(E, flux, ord, [&](T_ &A) { return E.val("psi", A); }); }
      for (auto *wk : {&ess, &weak}) { if (wk->empty() || (wk == &ess && !dg)) { continue; } for (int b = 0; b < E.mesh->GetNBE(); ++b) { if (!in(*wk, E.mesh->GetBdrAttribute(b))) { continue; } auto *T = E.mesh->GetBdrFaceTransformations(b); if (!T) { continue; } auto &el = *u.space().GetFE(T->Elem1No); auto &ir = IntRules.Get(T->GetGeometryType(), el.Space() == FunctionSpace::Pk ? 2 * p : 2 * p + dim);
            for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip); Vector n(dim); CalcOrtho(T->Jacobian(), n); T_ &A = *T->Elem1; double uu = E.val("state", A) - E.val("dirichlet_bc", A), pp = E.val("psi", A); s += ip.weight * K(A) * (-(E.grad("state", A) * n) * pp - uu * (E.grad("psi", A) * n) + mu * (n * n) / A.Weight() * uu * pp); } } }
      for (auto &f : list) { s += cur("h:" + f.n, f.h) * jumps(E, interfaces(E, true, f.a), [&](FT &T) { return f.fluid ? 2 * p + T.OrderW() : 2 * p; }, [&](T_ &A, T_ &B) { double u1 = E.val("state", A), u2 = E.val("state", B), p1 = E.val("psi", A), p2 = E.val("psi", B), t = cur("fluid_temp:" + f.n, f.tf); return f.fluid ? (u1 - t) * p1 + (u2 - t) * p2 : (u1 - u2) * (p1 - p2); }); }
      E.tv["psi"] = full; E.sync(); return s; };
   std::vector<std::string> vec{"mesh_coords"}; if (load) { vec.push_back("thermal_load"); }
   judge(E, R, ref, vec, scal, "residual", 1e-10, et); c.count(dg ? "dg-residuals" : "cg-residuals");
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("interface", 260, interface); run("wall", 200, wall); run("projection", 150, projection); run("residual", 300, residual);
   int rc = finish(); MPI_Finalize(); return rc;
}
