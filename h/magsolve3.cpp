// The magnetostatic solver in space: edge elements, solenoidal currents, magnets (property C36).
#include "integcheck.hpp"
#include "solvecheck.hpp"
#include "magnetostatic.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic; using namespace sc;
static const double mu0 = 4e-7 * M_PI;
struct Magn : miso::MagnetostaticSolver
{
   Magn(const json &o, std::unique_ptr<Mesh> m) : MagnetostaticSolver(MPI_COMM_WORLD, o, std::move(m)) { }
   using PDESolver::mesh; using PDESolver::fields;
   Vector coords() { Vector x(getFieldSize("mesh_coords")); getMeshCoordinates(x); return x; }
   /// the flux at the quadrature points (the potential is known up to gradients only)
   Vector flux(const Vector &u) { auto &gf = fields.at("state"); gf.distributeSharedDofs(u); std::vector<double> b; Vector v; for (int e = 0; e < mesh().GetNE(); ++e) { auto &T = *mesh().GetElementTransformation(e); auto &ir = IntRules.Get(T.GetGeometryType(), 2); for (int i = 0; i < ir.GetNPoints(); ++i) { T.SetIntPoint(&ir.IntPoint(i)); gf.gridFunc().GetCurl(T, v); for (double q : v) { b.push_back(q); } } } Vector r(b.size()); for (size_t i = 0; i < b.size(); ++i) { r(i) = b[i]; } return r; }
};
static json base(Case &c, int p, int n)
{
   auto &g = c.rng; json o = common(c, n); for (auto &q : {"lin-solver", "adj-solver"}) { /* beyond rounding, singular systems blow up along gradients */ o[q]["reltol"] = 1e-12; o[q]["abstol"] = 1e-14; } o["space-dis"] = {{"basis-type", g.pick(std::vector<std::string>{"nd", "ND", "nedelec"})}, {"degree", p}};
   /* unpreconditioned, the singular systems are sometimes left unsolved */ o["lin-prec"] = {{"type", "hypreams"}, {"printlevel", 0}}; return o;
}
/// fields across layers: A = A(x) e_y, B = A' e_z, H = nu (A' - m), H' = -J
static void slab(Case &c)
{
   Mute mute; auto &g = c.rng; int L = c.in("layers", g.irand(1, 3)), p = c.in("order", g.irand(1, 2)); bool tensor = c.in("tensor", g.coin());
   std::vector<double> x{g.uni(-1, 1)}; for (int i = 0; i < L; ++i) { x.push_back(x.back() + g.uni(0.3, 1.2)); } std::vector<int> lay; for (int i = 0; i < L; ++i) { lay.push_back(i); }
   double ly = g.uni(0.5, 2), lz = g.uni(0.5, 2); auto sm = layers(c, 3, x, lay, 1, ly, lz, tensor, {});
   // ends: essential or natural; the sides across y essential (4), the sides across z natural (3)
   for (int b = 0; b < sm->GetNBE(); ++b) { if (sm->GetBdrAttribute(b) == 3) { Array<int> v; sm->GetBdrElementVertices(b, v); double lo = 1e9, hi = -1e9; for (int i : v) { Vector q(3); sm->GetNode(i, q.GetData()); lo = std::min(lo, q(1)); hi = std::max(hi, q(1)); } if (hi - lo < 1e-9) { sm->SetBdrAttribute(b, 4); } } } sm->SetAttributes();
   bool ess[2] = {g.coin(0.7), g.coin(0.7)}; if (!ess[0] && !ess[1]) { ess[g.irand(0, 1)] = true; } double wall[2] = {g.uni(-1, 1), g.uni(-1, 1)};
   bool units = c.in("physical-units", g.coin()); std::vector<double> nu, rho, sig, m(L, 0.0), m0(L, 0.0), loss; json comps = json::object(), cur = json::object(), mag = json::object(); MISOInputs in; double T0 = 273.15; bool temp = g.coin(); if (temp) { T0 = g.uni(250, 400); }
   bool flows = p > 1 && c.in("currents", g.coin(0.7)); double J = flows ? g.uni(-1, 1) * (units ? 1e5 : 1) : 0; std::map<std::string, double> dens; std::map<std::string, bool> flip;
   for (int i = 0; i < L; ++i)
   {
      std::string n = "m" + std::to_string(i); double mur = (units ? 1.0 : 1e6) * g.logu(1, 100); nu.push_back(1 / (mur * mu0)); rho.push_back(g.uni(0.5, 8)); sig.push_back(g.uni(0.5, 6)); json mat = {{"name", n}, {"rho", rho[i]}, {"mu_r", mur}, {"sigma", sig[i]}};
      double a = g.uni(0.5, 1), b = g.uni(0.1, 0.5); mat["core_loss"]["CAL2"] = {{"T0", 200.0}, {"T1", 500.0}, {"kh_T0", {a}}, {"kh_T1", {a}}, {"ke_T0", {b}}, {"ke_T1", {b}}}; loss.push_back(a); loss.push_back(b);
      if (g.coin(0.4)) { double al = g.uni(-0.2, 0), Tr = g.uni(280, 300), Br = g.uni(0.3, 1.3); mat["alpha_B_r"] = al; mat["T_ref"] = Tr; mat["B_r_T_ref"] = Br; mag[n]["z"].push_back(i + 1); m[i] = Br * (1 + al / 100 * (T0 - Tr)); m0[i] = Br * (1 - al / 100 * Tr); c.count("magnet-layers"); }
      // the same current everywhere, under one name or several
      if (flows) { std::string grp = g.pick(std::vector<std::string>{"phaseA", "phaseB", "phaseC"}); if (!dens.count(grp)) { dens[grp] = J; in.emplace("current_density:" + grp, dens[grp]); } cur[grp]["y"].push_back(i + 1); c.count("current-layers"); }
      json cj = {{"material", mat}}; if (g.coin()) { cj["attr"] = i + 1; } else { cj["attrs"] = {i + 1}; } comps["c" + std::to_string(i)] = cj;
   }
   json o = base(c, p, 500); o["components"] = comps; if (!cur.empty()) { o["current"] = cur; } if (!mag.empty()) { o["magnets"] = mag; } json bc = json::object(); bc["essential"] = {4}; for (int s = 0; s < 2; ++s) { if (ess[s]) { bc["essential"].push_back(s + 1); c.count("essential-ends"); } else { c.count("natural-ends"); } } o["bcs"] = bc;
   auto w = [&](int i) { return x[i + 1] - x[i]; }; Vector A(2 * L);
   auto reference = [&](const std::vector<double> &m)
   {
      DenseMatrix M(2 * L); Vector rhs(2 * L); M = 0.0; rhs = 0.0;
      if (ess[0]) { M(0, 0) = 1; rhs(0) = wall[0]; } else { M(0, 1) = 1; rhs(0) = m[0]; }
      for (int i = 0; i + 1 < L; ++i) { int r = 2 * i + 1; double k = std::max(nu[i], nu[i + 1]); M(r, 2 * i) = 1; M(r, 2 * i + 1) = w(i); M(r, 2 * i + 2) = -1; rhs(r) = J / (2 * nu[i]) * w(i) * w(i); M(r + 1, 2 * i + 1) = nu[i] / k; M(r + 1, 2 * i + 3) = -nu[i + 1] / k; rhs(r + 1) = (J * w(i) - nu[i + 1] * m[i + 1] + nu[i] * m[i]) / k; }
      { int r = 2 * L - 1, a = 2 * L - 2; double q = J / nu[L - 1]; if (ess[1]) { M(r, a) = 1; M(r, a + 1) = w(L - 1); rhs(r) = wall[1] + q / 2 * w(L - 1) * w(L - 1); } else { M(r, a + 1) = 1; rhs(r) = q * w(L - 1) + m[L - 1]; } }
      DenseMatrixInverse inv(M); inv.Mult(rhs, A);
   };
   reference(m); if (!(norm(A) < 100)) { c.trivial = true; return; }
   auto layer = [&](double X) { int l = 0; while (l + 1 < L && X > x[l + 1]) { ++l; } return l; }; auto at = [&](double X) { int l = layer(X); double t = X - x[l]; return A(2 * l) + A(2 * l + 1) * t - J / (2 * nu[l]) * t * t; }; auto slope = [&](int l, double X) { return A(2 * l + 1) - J / nu[l] * (X - x[l]); };
   Magn S(o, std::move(sm)); int n = S.getStateSize(); if (n > 500) { c.trivial = true; return; }
   Vector u(n), dbc, guess = rvec(g, n, -1, 1), tv(S.getFieldSize("temperature")), pk(S.getFieldSize("peak_flux")); double Bp = g.uni(0.2, 1.5); std::function<void(const Vector &, Vector &)> bval = [&](const Vector &q, Vector &v) { v.SetSize(3); v = 0.0; v(1) = at(q(0)); };
   if (temp) { tv = T0; in.emplace("temperature", tv); c.count("temperatures-given"); } pk = Bp;
   if (g.coin()) { S.setState(bval, u); c.count("values-set"); } else { VectorFunctionCoefficient fc(3, bval); auto &f = S.fields.at("dirichlet_bc"); dbc.SetSize(n); f.project(fc, dbc); in.emplace("dirichlet_bc", dbc); c.count("values-as-inputs"); }
   auto solved = [&] { u = guess; S.solveForState(in, u); auto &gf = S.fields.at("state"); gf.distributeSharedDofs(u); double worst = 0; for (int e = 0; e < S.mesh().GetNE(); ++e) { auto &T = *S.mesh().GetElementTransformation(e); auto &ir = IntRules.Get(T.GetGeometryType(), 3); int l = S.mesh().GetAttribute(e) - 1; for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); Vector q, v; T.Transform(ip, q); gf.gridFunc().GetCurl(T, v); worst = std::max({worst, std::fabs(v(0)), std::fabs(v(1)), std::fabs(v(2) - slope(l, q(0)))}); } } return worst; };
   double worst = solved(), sc = 1 + norm(A);
   if (!mag.empty() && worst > 1e-6 * sc)
   {  // magnets act at no temperature at all (a finding): everything else must still be right
      reference(m0); if (dbc.Size() && in.count("dirichlet_bc")) { VectorFunctionCoefficient fc(3, bval); auto &f = S.fields.at("dirichlet_bc"); f.project(fc, dbc); } else { S.setState(bval, u); } sc = 1 + norm(A); double cold = solved(); if (cold <= 1e-6 * sc) { c.check(false, "magnets-at-their-temperature", std::to_string(worst)); worst = cold; } else { reference(m); } }
   else if (!mag.empty()) { c.check(true, "magnets-at-their-temperature"); }
   c.near(worst, 0, 1e-6 * sc, "flux-of-layers"); c.count("slabs"); c.count(tensor ? "slabs-of-hexahedra" : "slabs-of-tetrahedra"); if (flows) { c.count("slabs-with-currents"); } if (!mag.empty()) { c.count("slabs-with-magnets"); }
   // outputs
   MISOInputs now(in); now.insert_or_assign("state", u); now.insert_or_assign("peak_flux", pk); std::vector<int> sel; json op = json::object(); for (int i = 0; i < L; ++i) { if (g.coin()) { sel.push_back(i); } } if (sel.empty() || g.coin(0.4)) { sel.clear(); for (int i = 0; i < L; ++i) { sel.push_back(i); } } else { for (int i : sel) { op["attributes"].push_back(i + 1); } c.count("restricted-outputs"); }
   auto make = [&](const std::string &name, json q) { if (q.empty() && g.coin()) { S.createOutput(name); } else { S.createOutput(name, q); } return S.calcOutput(name, now); };
   auto sum = [&](auto f) { double r = 0; for (int i : sel) { for (int k = 0; k < 3; ++k) { double t = k == 0 ? 0.5 - std::sqrt(0.15) : k == 1 ? 0.5 : 0.5 + std::sqrt(0.15); r += w(i) * ly * lz * (k == 1 ? 4.0 / 9 : 2.5 / 9) * f(i, x[i] + t * w(i)); } } return r; };
   double vol = sum([](int, double) { return 1.0; }), en = sum([&](int i, double X) { return 0.5 * nu[i] * std::pow(slope(i, X), 2); }), big = 0; for (int i = 0; i < L; ++i) { big = std::max(big, nu[i] * sc * sc); }
   c.near(make("energy", op), en, 1e-6 * big * (1 + vol), "energy-of-layers"); c.rel(make("volume", op), vol, 1e-11, 0, "volume-of-layers"); c.rel(make("mass", op), sum([&](int i, double) { return rho[i]; }), 1e-11, 0, "mass-of-layers");
   bool one = true; double lo = 1e300, hi = 0; for (int i : sel) { double a = slope(i, x[i]), b = slope(i, x[i + 1]); one = one && a * b > 0; lo = std::min({lo, std::fabs(a), std::fabs(b)}); hi = std::max({hi, std::fabs(a), std::fabs(b)}); if (a * b <= 0) { lo = 0; } }
   double av = make("average_flux_magnitude", op); if (one) { c.near(av, sum([&](int i, double X) { return std::fabs(slope(i, X)); }) / vol, 1e-5 * (1 + hi), "average-flux-of-layers"); c.count("one-way-fluxes"); } c.check(av >= lo - 1e-5 * (1 + hi) && av <= hi + 1e-5 * (1 + hi), "average-flux-within-the-range");
   json o2 = op; if (g.coin()) { o2["rho"] = g.uni(5, 30) / (1 + 0.1 * std::max(hi, norm(A))); } double mx = make("max_flux_magnitude", o2); c.check(mx >= lo - 1e-5 * (1 + hi) && mx <= hi + 1e-5 * (1 + hi), "aggregate-flux-within-the-range");
   {  json cl = make("core_loss", op); double f = 50.0; MISOInputs q(now); q.insert_or_assign("frequency", f); c.rel(S.calcOutput("core_loss", q), sum([&](int i, double) { return rho[i] * Bp * Bp * (loss[2 * i] * f + loss[2 * i + 1] * f * f); }), 1e-9, 1e-13, "core-loss-of-layers"); }
   if (flows)
   {  double wl = g.uni(1, 3), I = g.uni(1, 3), r = g.uni(0.2, 0.9), k = g.irand(1, 4), V = 0, ir = 0; for (int i = 0; i < L; ++i) { V += w(i); ir += w(i) / sig[i]; }
      MISOInputs q(now); q.insert_or_assign("wire_length", wl); q.insert_or_assign("rms_current", I); q.insert_or_assign("strand_radius", r); q.insert_or_assign("strands_in_hand", k); S.createOutput("dc_loss", json::object()); c.rel(S.calcOutput("dc_loss", q), wl / (M_PI * r * r * k) * I * I * std::sqrt(2.0) * ir / V, 1e-10, 0, "dc-loss-of-the-windings"); c.count("winding-losses"); }
   S.createOutput("flux_density"); S.createOutput("flux_magnitude"); Vector B(S.getOutputSize("flux_density")), Bm(S.getOutputSize("flux_magnitude")); S.calcOutput("flux_density", now, B); S.calcOutput("flux_magnitude", now, Bm); auto &fb = S.fields.at("flux_density"), &fm = S.fields.at("flux_magnitude"); c.check(B.Size() == fb.space().GetTrueVSize() && Bm.Size() == fm.space().GetTrueVSize(), "flux-sizes"); fb.distributeSharedDofs(B); fm.distributeSharedDofs(Bm); double wb = 0, wm = 0;
   for (int e = 0; e < S.mesh().GetNE(); ++e) { auto &T = *S.mesh().GetElementTransformation(e); auto &ir = fm.space().GetFE(e)->GetNodes(); int l = S.mesh().GetAttribute(e) - 1; for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); Vector q, v; T.Transform(ip, q); double s = slope(l, q(0)); fb.gridFunc().GetVectorValue(T, ip, v); wb = std::max({wb, std::fabs(v(0)), std::fabs(v(1)), std::fabs(v(2) - s)}); wm = std::max(wm, std::fabs(fm.gridFunc().GetValue(T, ip) - std::fabs(s))); } }
   c.near(wb, 0, 1e-6 * sc, "projected-flux-of-layers"); c.near(wm, 0, 1e-6 * sc, "flux-magnitude-of-layers"); c.count("flux-projections");
}
/// anything in space: saturating materials, currents, magnets
static void general(Case &c)
{
   Mute mute; auto &g = c.rng; int order; auto sm = serial(c, 3, order); { /* off the axis of the rings */ double d[3] = {g.uni(0.7, 2), g.uni(-2, 2), g.uni(-2, 2)}; if (auto *nd = sm->GetNodes()) { auto &fs = *nd->FESpace(); for (int i = 0; i < fs.GetNDofs(); ++i) { for (int k = 0; k < 3; ++k) { (*nd)(fs.DofToVDof(i, k)) += d[k]; } } } else { for (int v = 0; v < sm->GetNV(); ++v) { for (int k = 0; k < 3; ++k) { sm->GetVertex(v)[k] += d[k]; } } } } int p = c.in("order", g.coin(0.7) ? 1 : 2); json o = base(c, p, 400); o["nonlin-solver"]["maxiter"] = 40;
   json comps = json::object(), cur = json::object(), mag = json::object(); int na = sm->attributes.Max(); MISOInputs in; std::vector<std::string> scal; bool curved = false; bool wc = c.in("currents", g.coin(0.6)), wm = c.in("magnets", g.coin(0.5)), sat = c.in("saturating", g.coin(0.5));
   for (int i = 1; i <= na; ++i)
   {
      std::string n = "m" + std::to_string(i); json mat = {{"name", n}, {"rho", g.uni(0.5, 8)}, {"mu_r", 1 / (mu0 * g.uni(0.3, 3))}};
      if (wm && g.coin(0.6)) { mat["alpha_B_r"] = g.uni(-20, 20); mat["T_ref"] = g.uni(-2, 2); mat["B_r_T_ref"] = g.uni(0.3, 1); mag[n][g.pick(std::vector<std::string>{"x", "y", "z", "north", "cw"})].push_back(i); }
      else if (sat && g.coin(0.7))
      {
         bool lg = g.coin(); int deg = g.irand(2, 3), k = deg + g.irand(2, 4); double top = 40; std::vector<double> cps(k), kn(k + deg + 1); for (int j = 0; j < k + deg + 1; ++j) { kn[j] = j <= deg ? 0 : j >= k ? top : top * (j - deg + g.uni(-0.2, 0.2)) / (k - deg); }
         if (lg) { double v = g.uni(-1, 0.3); for (auto &q : cps) { q = v; v += g.uni(0.05, 0.5); } } else { double h = 0, s = g.uni(2, 6); for (auto &q : cps) { q = h; h += s; s += g.uni(0.5, 5); } }
         mat["reluctivity"] = {{"model", lg ? "lognu" : "bh"}, {"cps", cps}, {"knots", kn}, {"degree", deg}}; curved = true; c.count(lg ? "lognu-materials" : "bh-materials");
      }
      if (wc && g.coin(0.7)) { std::string grp = g.coin() ? "phaseA" : "phaseB"; cur[grp][g.pick(std::vector<std::string>{"x", "y", "z", "-z", "ring"})].push_back(i); if (!in.count("current_density:" + grp)) { in.emplace("current_density:" + grp, g.uni(-3, 3)); scal.push_back("current_density:" + grp); } }
      comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", mat}};
   }
   o["components"] = comps; if (!cur.empty()) { o["current"] = cur; c.count("currents"); } if (!mag.empty()) { o["magnets"] = mag; }
   // currents end on walls where the potential is prescribed
   std::vector<int> ess; for (int a : sm->bdr_attributes) { if (!cur.empty() || g.coin()) { ess.push_back(a); } } if (ess.empty()) { ess.push_back(sm->bdr_attributes[0]); } o["bcs"]["essential"] = ess; c.count(int(ess.size()) == sm->bdr_attributes.Size() ? "closed" : "partly-natural");
   if (g.coin()) { o["external-fields"]["temperature"] = {{"basis-type", "h1"}, {"degree", g.irand(1, 2)}, {"num-states", 1}}; c.count("external-temperatures"); }
   Magn S(o, std::unique_ptr<Mesh>(new Mesh(*sm))); int n = S.getStateSize(); if (n > 400) { c.trivial = true; return; }
   for (auto &q : {"state", "residual", "adjoint", "dirichlet_bc"}) { c.check(S.getFieldSize(q) == n, "field-size", q); } Vector x0 = S.coords(); c.check(x0.Size() == S.mesh().GetNodes()->Size(), "coordinates-size"); std::map<std::string, Vector> vec; Vector u(n); vector_errors(c, S, n);
   vec["dirichlet_bc"] = rvec(g, n); vec["mesh_coords"] = x0; if (!mag.empty() || g.coin()) { vec["temperature"] = rvec(g, S.getFieldSize("temperature"), -2, 2); }
   auto all = [&] { MISOInputs r(in); for (auto &q : vec) { r.insert_or_assign(q.first, q.second); } return r; }; auto solve = [&](Vector &y) { MISOInputs r = all(); S.solveForState(r, y); };
   std::vector<char> mark(n, 0); Vector guess = rvec(g, n); guess *= 0.3; u = guess; solve(u); Vector B = S.flux(u);
   {  MISOInputs r = all(); r.insert_or_assign("state", u); Vector res(n); S.calcResidual(r, res); r.insert_or_assign("state", guess); double start = S.calcResidualNorm(r); bool ok = res.Norml2() <= 1e-8 * (1 + start); if (!ok && curved) { c.count("newton-did-not-converge"); c.trivial = true; return; } c.check(ok, "solution-satisfies-residual", std::to_string(res.Norml2()) + " " + std::to_string(start)); if (curved) { c.count("saturating-solves"); }
      Array<int> et, mk(S.mesh().bdr_attributes.Max()); mk = 0; for (int a : ess) { mk[a - 1] = 1; } S.fields.at("state").space().GetEssentialTrueDofs(mk, et); double w = 0; for (int i : et) { mark[i] = 1; w = std::max(w, std::fabs(u(i) - vec["dirichlet_bc"](i))); } c.near(w, 0, 1e-9, "essential-values"); if (et.Size()) { c.count("essential-solves"); } }
   {  Vector y = rvec(g, n); y *= 0.2; solve(y); MISOInputs r = all(); r.insert_or_assign("state", y); if (!curved || S.calcResidualNorm(r) < 1e-8) { same(c, S.flux(y), B, 1e-7, "flux-independent-of-the-guess"); c.count("solves"); } }
   std::string name = g.pick(std::vector<std::string>{"energy", "average_flux_magnitude", "max_flux_magnitude", "flux_magnitude", "flux_density", "force", "torque"}); json opt = json::object(); bool many = name == "flux_magnitude" || name == "flux_density", push = name == "force", twist = name == "torque"; Vector weight;
   if (name == "max_flux_magnitude") { opt["rho"] = g.uni(1, 4); }
   if (push || twist) { opt["attributes"] = {sm->attributes[0]}; opt["axis"] = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}; opt["about"] = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}; }
   else if (!many && g.coin()) { opt["attributes"] = std::vector<int>{sm->attributes[g.irand(0, sm->attributes.Size() - 1)]}; } if (opt.empty() && g.coin()) { S.createOutput(name); } else { S.createOutput(name, opt); } c.count("output-" + name); if (many) { weight = rvec(g, S.getOutputSize(name)); }
   std::vector<std::string> wrt{"mesh_coords"}; if (std::count(mark.begin(), mark.end(), 1)) { wrt.push_back("dirichlet_bc"); } if (!mag.empty()) { wrt.push_back("temperature"); c.count("magnets"); }
   totals(c, S, name, all, vec, in, wrt, scal, u, mark, order, *sm, weight, 5.0, curved, true, curved ? 1e-6 : 1e-3);
   {  MISOInputs r = all(); Vector z(n), one(1); z = 0.0; one = 1.0; if (many) { one = weight; } r.insert_or_assign("state", z); for (std::string w : {"state", "mesh_coords"}) { Vector b(w == "state" ? n : x0.Size()); b = 0.0; S.outputVectorJacobianProduct(name, r, one, w, b); bool fin = true; for (int i = 0; i < b.Size(); ++i) { fin = fin && std::isfinite(b(i)); } c.check(fin, "finite-without-flux-" + w, name); } }
   if (push || twist)
   {  // along different axes, side by side
      auto value = [&](const std::string &q) { MISOInputs r = all(); r.insert_or_assign("state", u); return S.calcOutput(q, r); }; double f0 = value(name); json op = opt; double s = g.uni(0.5, 2); op["axis"] = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}; S.createOutput(name + "_other", op); double f1 = value(name + "_other"); auto a = opt["axis"].get<std::vector<double>>(), b = op["axis"].get<std::vector<double>>(); op["axis"] = {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}; S.createOutput(name + "_sum", op); double scl = 1 + std::fabs(f0) + std::fabs(f1), got = value(name + "_sum");
      // torques are along normalised axes or not: linear either way in the axis as used
      if (push) { c.near(got, f0 + s * f1, 1e-10 * scl, "forces-add-up"); } c.near(value(name), f0, 1e-11 * scl, "live-side-by-side"); c.near(value(name + "_other"), f1, 1e-11 * scl, "live-side-by-side"); c.count("side-by-side");
   }
   Vector xm(x0), um(n); double hm = 1e300; for (int e = 0; e < sm->GetNE(); ++e) { hm = std::min(hm, sm->GetElementSize(e, 1)); } for (int i = 0; i < xm.Size(); ++i) { xm(i) += 0.02 * hm * g.uni(-1, 1) / order; }
   vec["mesh_coords"] = xm; um = u; solve(um); Vector bm = S.flux(um); bool fine; { MISOInputs r = all(); r.insert_or_assign("state", um); fine = !curved || S.calcResidualNorm(r) < 1e-8; }
   if (fine)
   {  std::unique_ptr<Mesh> m2(new Mesh(*sm)); m2->EnsureNodes(); *m2->GetNodes() = xm; Magn F(o, std::move(m2)); Vector y(u); MISOInputs r = all(); r.erase("mesh_coords"); F.solveForState(r, y); MISOInputs there(r); there.insert_or_assign("state", y); if (!curved || F.calcResidualNorm(there) < 1e-8) { same(c, bm, F.flux(y), 1e-6, "moved-as-built-there"); c.count("moves"); }
      MISOInputs now = all(); now.insert_or_assign("state", um); F.createOutput(name, opt); r.insert_or_assign("state", um); if (many) { Vector a(weight.Size()), b(weight.Size()); S.calcOutput(name, now, a); F.calcOutput(name, r, b); same(c, a, b, 1e-9, "output-moved-as-built-there"); } else { c.rel(S.calcOutput(name, now), F.calcOutput(name, r), 1e-8, 1e-9, twist ? "torque-moved-as-built-there" : "output-moved-as-built-there"); } }
   vec["mesh_coords"] = x0; um = u; um *= 0.9; solve(um); { MISOInputs r = all(); r.insert_or_assign("state", um); if (!curved || S.calcResidualNorm(r) < 1e-8) { same(c, S.flux(um), B, 1e-6, "moved-and-back"); c.count("moves-back"); } }
   try { S.createOutput("temperature_of_the_moon", json::object()); c.check(false, "unknown-output-refused"); } catch (const miso::MISOException &) { c.count("refusals"); }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   run("slab", 400, slab); run("general", 500, general);
   int rc = finish(); MPI_Finalize(); return rc;
}
