// The steady magnetostatic solver from options to outputs and total derivatives (property C28).
#include "integcheck.hpp"
#include "solvecheck.hpp"
#include "magnetostatic.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic; using namespace sc;
static const double mu0 = 4e-7 * M_PI;
struct Magn : miso::MagnetostaticSolver
{
   Magn(const json &o, std::unique_ptr<Mesh> m) : MagnetostaticSolver(MPI_COMM_WORLD, o, std::move(m)) { }
   using PDESolver::mesh; using PDESolver::fields;
   Vector coords() { Vector x(getFieldSize("mesh_coords")); getMeshCoordinates(x); return x; }
};
static json base(Case &c, bool dg, int p, int n)
{
   auto &g = c.rng; json o = common(c, n); o["space-dis"] = {{"basis-type", g.pick(dg ? std::vector<std::string>{"dg", "DG", "L2", "l2"} : std::vector<std::string>{"h1", "H1", "CG", "cg"})}, {"degree", p}};
   if (g.coin()) { o["space-dis"]["sipg-penalty"] = g.uni(20, 60); } else { o["space-dis"]["sipg-penalty"] = 4.0 * (p + 1) * (p + 1); }
   auto t = g.pick(std::vector<std::string>{"hypreboomeramg", "hypreilu", "none"}); o["lin-prec"] = {{"type", t}, {"printlevel", 0}, {"ilu-type", 0}, {"lev-fill", 1}, {"ilu-reorder", 0}}; c.count("preconditioner-" + t);
   return o;
}
/// fields across layers: nu (A' + m) = q, q' = -J
static void slab(Case &c)
{
   Mute mute; auto &g = c.rng; int L = c.in("layers", g.irand(1, 4)), p = c.in("order", g.irand(1, 3)); bool dg = c.in("dg", g.coin(0.4)), tensor = c.in("tensor", g.coin());
   std::vector<double> x{g.uni(-1, 1)}; int nx = 0; std::vector<int> per; for (int i = 0; i < L; ++i) { x.push_back(x.back() + g.uni(0.3, 1.2)); per.push_back(g.irand(1, 2)); nx += per.back(); }
   std::vector<double> grid{x[0]}; std::vector<int> lay; for (int i = 0; i < L; ++i) { for (int j = 0; j < per[i]; ++j) { grid.push_back(x[i] + (x[i + 1] - x[i]) * (j + 1) / per[i]); lay.push_back(i); } }
   int ny = g.irand(1, 2); double ly = g.uni(0.5, 2); auto sm = layers(c, 2, grid, lay, ny, ly, 1, tensor, {});
   // ends: 0 essential, 1 weak, 2 natural
   int kind[2]; do { for (int &q : kind) { q = g.irand(0, 2); } } while (kind[0] == 2 && kind[1] == 2); double wall[2] = {g.uni(-1, 1), g.uni(-1, 1)};
   bool units = c.in("physical-units", g.coin()); std::vector<double> nu, rho, sig, J(L, 0.0), m(L, 0.0); json comps = json::object(), cur = json::object(), mag = json::object(); MISOInputs in; double T0 = 273.15; bool temp = g.coin(); if (temp) { T0 = g.uni(250, 400); }
   bool weak = dg || kind[0] == 1 || kind[1] == 1; std::map<std::string, double> dens; std::vector<int> coils; std::vector<double> loss;
   for (int i = 0; i < L; ++i)
   {
      std::string n = "m" + std::to_string(i); double mur = (units ? 1.0 : 1e6) * g.logu(1, 500); nu.push_back(1 / (mur * mu0)); rho.push_back(g.uni(0.5, 8)); sig.push_back(g.uni(0.5, 6)); json mat = {{"name", n}, {"rho", rho[i]}, {"mu_r", mur}, {"sigma", sig[i]}};
      double a = g.uni(0.5, 1), b = g.uni(0.1, 0.5); mat["core_loss"]["CAL2"] = {{"T0", 200.0}, {"T1", 500.0}, {"kh_T0", {a}}, {"kh_T1", {a}}, {"ke_T0", {b}}, {"ke_T1", {b}}}; loss.push_back(a); loss.push_back(b);
      if (!weak && g.coin(0.4)) { double al = g.uni(-0.2, 0), Tr = g.uni(280, 300), Br = g.uni(0.3, 1.3); mat["alpha_B_r"] = al; mat["T_ref"] = Tr; mat["B_r_T_ref"] = Br; mag[n]["y"].push_back(i + 1); m[i] = Br * (1 + al / 100 * (T0 - Tr)); c.count("magnet-layers"); }
      else if (p > 1 && g.coin()) { std::string grp = g.pick(std::vector<std::string>{"phaseA", "phaseB"}); bool neg = g.coin(0.4); if (!dens.count(grp)) { dens[grp] = g.uni(-1, 1) * (units ? 1e5 : 1); in.emplace("current_density:" + grp, dens[grp]); } cur[grp][neg ? "-z" : "z"].push_back(i + 1); J[i] = dens[grp] * (neg ? -1 : 1); coils.push_back(i); c.count("current-layers"); }
      json cj = {{"material", mat}}; if (g.coin()) { cj["attr"] = i + 1; } else { cj["attrs"] = {i + 1}; } comps["c" + std::to_string(i)] = cj;
   }
   json o = base(c, dg, p, 500); o["components"] = comps; if (!cur.empty()) { o["current"] = cur; } if (!mag.empty()) { o["magnets"] = mag; } json bc = json::object(); for (int s = 0; s < 2; ++s) { if (kind[s] < 2) { bc[kind[s] == 0 ? "essential" : "weak-essential"].push_back(s + 1); c.count(kind[s] == 0 ? "essential-ends" : "weak-ends"); } else { c.count("natural-ends"); } } o["bcs"] = bc;
   // A_i = a + s t - J t^2 / (2 nu)
   auto w = [&](int i) { return x[i + 1] - x[i]; }; DenseMatrix M(2 * L); Vector rhs(2 * L); M = 0.0; rhs = 0.0;
   if (kind[0] < 2) { M(0, 0) = 1; rhs(0) = wall[0]; } else { M(0, 1) = 1; rhs(0) = -m[0]; }
   for (int i = 0; i + 1 < L; ++i) { int r = 2 * i + 1; double k = std::max(nu[i], nu[i + 1]); M(r, 2 * i) = 1; M(r, 2 * i + 1) = w(i); M(r, 2 * i + 2) = -1; rhs(r) = J[i] / (2 * nu[i]) * w(i) * w(i); M(r + 1, 2 * i + 1) = nu[i] / k; M(r + 1, 2 * i + 3) = -nu[i + 1] / k; rhs(r + 1) = (J[i] * w(i) + nu[i + 1] * m[i + 1] - nu[i] * m[i]) / k; }
   { int r = 2 * L - 1, a = 2 * L - 2; double q = J[L - 1] / nu[L - 1]; if (kind[1] < 2) { M(r, a) = 1; M(r, a + 1) = w(L - 1); rhs(r) = wall[1] + q / 2 * w(L - 1) * w(L - 1); } else { M(r, a + 1) = 1; rhs(r) = q * w(L - 1) - m[L - 1]; } }
   DenseMatrixInverse inv(M); Vector A(2 * L); inv.Mult(rhs, A); if (!(norm(A) < 100)) { c.trivial = true; return; }
   auto at = [&](int l, double X) { double t = X - x[l]; return A(2 * l) + A(2 * l + 1) * t - J[l] / (2 * nu[l]) * t * t; }; auto slope = [&](int l, double X) { return A(2 * l + 1) - J[l] / nu[l] * (X - x[l]); };
   Magn S(o, std::move(sm)); int n = S.getStateSize(); if (n > 500) { c.trivial = true; return; }
   Vector u(n), dbc(n), guess = rvec(g, n, -1, 1), tv(S.getFieldSize("temperature")), pk(S.getFieldSize("peak_flux")); double Bp = g.uni(0.2, 1.5); auto bval = [&](const Vector &q) { return wall[0] + (wall[1] - wall[0]) * (q(0) - x.front()) / (x.back() - x.front()); };
   if (temp) { tv = T0; in.emplace("temperature", tv); c.count("temperatures-given"); } pk = Bp;
   if (g.coin()) { S.setState(std::function<double(const Vector &)>(bval), u); c.count("values-set"); } else { FunctionCoefficient fc(bval); auto &f = S.fields.at("dirichlet_bc"); f.project(fc, dbc); in.emplace("dirichlet_bc", dbc); c.count("values-as-inputs"); }
   u = guess; S.solveForState(in, u);
   auto &gf = S.fields.at("state"); gf.distributeSharedDofs(u); double worst = 0, sc = 1 + norm(A);
   for (int e = 0; e < S.mesh().GetNE(); ++e) { auto &T = *S.mesh().GetElementTransformation(e); auto &ir = gf.space().GetFE(e)->GetNodes(); int l = S.mesh().GetAttribute(e) - 1; for (int i = 0; i < ir.GetNPoints(); ++i) { T.SetIntPoint(&ir.IntPoint(i)); Vector q; T.Transform(ir.IntPoint(i), q); worst = std::max(worst, std::fabs(gf.gridFunc().GetValue(T, ir.IntPoint(i)) - at(l, q(0)))); } }
   c.near(worst, 0, 1e-7 * sc, "potential-of-layers"); c.count("slabs"); if (!coils.empty()) { c.count("slabs-with-currents"); } if (!mag.empty()) { c.count("slabs-with-magnets"); }
   // outputs: energies, fluxes, losses, weights
   MISOInputs now(in); now.insert_or_assign("state", u); now.insert_or_assign("peak_flux", pk); std::vector<int> sel; json op = json::object(); for (int i = 0; i < L; ++i) { if (g.coin()) { sel.push_back(i); } } if (sel.empty() || g.coin(0.4)) { sel.clear(); for (int i = 0; i < L; ++i) { sel.push_back(i); } } else { for (int i : sel) { op["attributes"].push_back(i + 1); } c.count("restricted-outputs"); }
   auto make = [&](const std::string &name, json q) { if (q.empty() && g.coin()) { S.createOutput(name); } else { S.createOutput(name, q); } return S.calcOutput(name, now); };
   auto sum = [&](auto f) { double r = 0; for (int i : sel) { for (int k = 0; k < 3; ++k) { double t = k == 0 ? 0.5 - std::sqrt(0.15) : k == 1 ? 0.5 : 0.5 + std::sqrt(0.15); r += w(i) * ly * (k == 1 ? 4.0 / 9 : 2.5 / 9) * f(i, x[i] + t * w(i)); } } return r; };
   double vol = sum([](int, double) { return 1.0; }), en = sum([&](int i, double X) { return 0.5 * nu[i] * std::pow(slope(i, X), 2); }), big = 0; for (int i = 0; i < L; ++i) { big = std::max(big, nu[i] * sc * sc); }
   c.near(make("energy", op), en, 1e-7 * big, "energy-of-layers"); c.rel(make("volume", op), vol, 1e-11, 0, "volume-of-layers"); c.rel(make("mass", op), sum([&](int i, double) { return rho[i]; }), 1e-11, 0, "mass-of-layers");
   bool one = true; double lo = 1e300, hi = 0; for (int i : sel) { double a = slope(i, x[i]), b = slope(i, x[i + 1]); one = one && a * b > 0; lo = std::min({lo, std::fabs(a), std::fabs(b)}); hi = std::max({hi, std::fabs(a), std::fabs(b)}); if (a * b <= 0) { lo = 0; } }
   double av = make("average_flux_magnitude", op); if (one) { c.near(av, sum([&](int i, double X) { return std::fabs(slope(i, X)); }) / vol, 1e-6 * (1 + hi), "average-flux-of-layers"); c.count("one-way-fluxes"); } c.check(av >= lo - 1e-6 * (1 + hi) && av <= hi + 1e-6 * (1 + hi), "average-flux-within-the-range");
   json o2 = op; if (g.coin()) { o2["rho"] = g.uni(5, 30) / (1 + 0.1 * std::max(hi, norm(A))); } double mx = make("max_flux_magnitude", o2); c.check(mx >= lo - 1e-6 * (1 + hi) && mx <= hi + 1e-6 * (1 + hi), "aggregate-flux-within-the-range");
   {  double a = 1e300, b = -1e300; for (int i : sel) { for (int k = 0; k <= 50; ++k) { double v = at(i, x[i] + w(i) * k / 50); a = std::min(a, v); b = std::max(b, v); } } double v = make("max_state", o2); c.check(v >= a - 1e-6 * sc && v <= b + 1e-6 * sc, "aggregate-potential-within-the-range"); }
   {  json cl = make("core_loss", op); double f = 50.0; MISOInputs q(now); q.insert_or_assign("frequency", f); c.rel(S.calcOutput("core_loss", q), sum([&](int i, double) { return rho[i] * Bp * Bp * (loss[2 * i] * f + loss[2 * i + 1] * f * f); }), 1e-9, 1e-13, "core-loss-of-layers"); }
   if (!coils.empty())
   {  // losses of the windings are those of the current-carrying attributes
      double wl = g.uni(1, 3), I = g.uni(1, 3), r = g.uni(0.2, 0.9), k = g.irand(1, 4), V = 0, ir = 0, sv = 0, f = g.uni(20, 60), st = g.uni(0.5, 2), nt = g.irand(1, 9), ns = g.irand(1, 9); for (int i : coils) { V += w(i); ir += w(i) / sig[i]; sv += w(i) * sig[i]; }
      MISOInputs q(now); q.insert_or_assign("wire_length", wl); q.insert_or_assign("rms_current", I); q.insert_or_assign("strand_radius", r); q.insert_or_assign("strands_in_hand", k); q.insert_or_assign("frequency", f); q.insert_or_assign("stack_length", st); q.insert_or_assign("num_turns", nt); q.insert_or_assign("num_slots", ns);
      S.createOutput("dc_loss", json::object()); S.createOutput("ac_loss", json::object()); c.rel(S.calcOutput("dc_loss", q), wl / (M_PI * r * r * k) * I * I * std::sqrt(2.0) * ir / V, 1e-10, 0, "dc-loss-of-the-windings"); c.rel(S.calcOutput("ac_loss", q), 2 * k * nt * ns * M_PI * std::pow(r, 4) * std::pow(2 * M_PI * f, 2) / 8 * sv * Bp * Bp * st / V, 1e-9, 0, "ac-loss-of-the-windings"); c.count("winding-losses");
   }
   // projections of the flux
   S.createOutput("flux_density"); S.createOutput("flux_magnitude"); Vector B(S.getOutputSize("flux_density")), Bm(S.getOutputSize("flux_magnitude")); S.calcOutput("flux_density", now, B); S.calcOutput("flux_magnitude", now, Bm); auto &fb = S.fields.at("flux_density"), &fm = S.fields.at("flux_magnitude"); c.check(B.Size() == fb.space().GetTrueVSize() && Bm.Size() == fm.space().GetTrueVSize(), "flux-sizes"); fb.distributeSharedDofs(B); fm.distributeSharedDofs(Bm); double wb = 0, wm = 0;
   for (int e = 0; e < S.mesh().GetNE(); ++e) { auto &T = *S.mesh().GetElementTransformation(e); auto &ir = fm.space().GetFE(e)->GetNodes(); int l = S.mesh().GetAttribute(e) - 1; bool way = slope(l, x[l]) * slope(l, x[l + 1]) > 0; for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); Vector q, v; T.Transform(ip, q); double s = slope(l, q(0)); fb.gridFunc().GetVectorValue(T, ip, v); wb = std::max({wb, std::fabs(v(0)), std::fabs(v(1) + s)}); if (way) { wm = std::max(wm, std::fabs(fm.gridFunc().GetValue(T, ip) - std::fabs(s))); } } }
   c.near(wb, 0, 1e-6 * sc, "flux-of-layers"); c.near(wm, 0, 1e-6 * sc, "flux-magnitude-of-layers"); c.count("flux-projections");
}
/// anything in the plane: saturating materials, currents, magnets
static void general(Case &c)
{
   Mute mute; auto &g = c.rng; int order; auto sm = serial(c, 2, order); bool dg = c.in("dg", g.coin(0.35)); int p = c.in("order", g.irand(1, 2)); json o = base(c, dg, p, 400); o["nonlin-solver"]["maxiter"] = 40;
   json comps = json::object(), cur = json::object(), mag = json::object(); int na = sm->attributes.Max(); MISOInputs in; std::vector<std::string> scal; bool curved = false; bool wc = c.in("currents", g.coin(0.7)), wm = c.in("magnets", g.coin(0.5)), sat = c.in("saturating", g.coin(0.6));
   for (int i = 1; i <= na; ++i)
   {
      std::string n = "m" + std::to_string(i); json mat = {{"name", n}, {"rho", g.uni(0.5, 8)}, {"mu_r", 1 / (mu0 * g.uni(0.3, 3))}};
      if (wm && g.coin(0.6)) { mat["alpha_B_r"] = g.uni(-20, 20); mat["T_ref"] = g.uni(-2, 2); mat["B_r_T_ref"] = g.uni(0.3, 1); mag[n][g.pick(std::vector<std::string>{"x", "y", "north", "cw"})].push_back(i); }
      else if (sat && g.coin(0.7))
      {  // reluctivity growing with the flux, smooth
         bool lg = g.coin(); int deg = g.irand(2, 3), k = deg + g.irand(2, 4); double top = 40; std::vector<double> cps(k), kn(k + deg + 1); for (int j = 0; j < k + deg + 1; ++j) { kn[j] = j <= deg ? 0 : j >= k ? top : top * (j - deg + g.uni(-0.2, 0.2)) / (k - deg); }
         if (lg) { double v = g.uni(-1, 0.3); for (auto &q : cps) { q = v; v += g.uni(0.05, 0.5); } } else { double h = 0, s = g.uni(2, 6); for (auto &q : cps) { q = h; h += s; s += g.uni(0.5, 5); } }
         mat["reluctivity"] = {{"model", lg ? "lognu" : "bh"}, {"cps", cps}, {"knots", kn}, {"degree", deg}}; curved = true; c.count(lg ? "lognu-materials" : "bh-materials");
      }
      if (wc && g.coin(0.6)) { std::string grp = g.coin() ? "phaseA" : "phaseB"; cur[grp][g.coin() ? "z" : "-z"].push_back(i); if (!in.count("current_density:" + grp)) { in.emplace("current_density:" + grp, g.uni(-3, 3)); scal.push_back("current_density:" + grp); } }
      comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", mat}};
   }
   o["components"] = comps; if (!cur.empty()) { o["current"] = cur; } if (!mag.empty()) { o["magnets"] = mag; } int nb = sm->bdr_attributes.Max(); auto some = [&] { std::vector<int> r; for (int i = 1; i <= nb; ++i) { if (g.coin()) { r.push_back(i); } } if (r.empty()) { r.push_back(sm->bdr_attributes[g.irand(0, sm->bdr_attributes.Size() - 1)]); } return r; };
   auto touches = [&](const std::vector<int> &v) { for (int a : v) { if (sm->bdr_attributes.Find(a) >= 0) { return true; } } return false; };
   json bc = json::object(); bool fixed = false; std::vector<int> ess; if (g.coin(0.8)) { ess = some(); bc["essential"] = ess; fixed = touches(ess); } if (!fixed || g.coin(0.3)) { std::vector<int> a = fixed ? some() : std::vector<int>(sm->bdr_attributes.begin(), sm->bdr_attributes.end()); bc["weak-essential"] = a; } o["bcs"] = bc;
   int pt = g.irand(1, 2); if (g.coin()) { o["external-fields"]["temperature"] = {{"basis-type", "h1"}, {"degree", pt}, {"num-states", 1}}; c.count("external-temperatures"); }
   Magn S(o, std::unique_ptr<Mesh>(new Mesh(*sm))); int n = S.getStateSize(); if (n > 300) { c.trivial = true; return; }
   for (auto &q : {"state", "residual", "adjoint", "dirichlet_bc"}) { c.check(S.getFieldSize(q) == n, "field-size", q); } Vector x0 = S.coords(); c.check(x0.Size() == S.mesh().GetNodes()->Size(), "coordinates-size"); std::map<std::string, Vector> vec; Vector u(n); errors(c, S, u);
   vec["dirichlet_bc"] = rvec(g, n); vec["mesh_coords"] = x0; if (!mag.empty() || g.coin()) { vec["temperature"] = rvec(g, S.getFieldSize("temperature"), -2, 2); }
   auto all = [&] { MISOInputs r(in); for (auto &q : vec) { r.insert_or_assign(q.first, q.second); } return r; }; auto solve = [&](Vector &y) { MISOInputs r = all(); S.solveForState(r, y); };
   std::vector<char> mark(n, 0); Vector guess = rvec(g, n); guess *= 0.3; u = guess; solve(u);
   {  MISOInputs r = all(); r.insert_or_assign("state", u); Vector res(n); S.calcResidual(r, res); r.insert_or_assign("state", guess); double start = S.calcResidualNorm(r); bool ok = res.Norml2() <= 1e-8 * (1 + start); if (!ok && curved) { c.count("newton-did-not-converge"); c.trivial = true; return; } c.check(ok, "solution-satisfies-residual", std::to_string(res.Norml2())); if (curved) { c.count("saturating-solves"); }
      if (!dg && !ess.empty()) { Array<int> et, mk(S.mesh().bdr_attributes.Max()); mk = 0; for (int a : ess) { if (a <= mk.Size()) { mk[a - 1] = 1; } } S.fields.at("state").space().GetEssentialTrueDofs(mk, et); double w = 0; for (int i : et) { mark[i] = 1; w = std::max(w, std::fabs(u(i) - vec["dirichlet_bc"](i))); } c.near(w, 0, 1e-9, "essential-values"); if (et.Size()) { c.count("essential-solves"); } } }
   {  Vector y = rvec(g, n); y *= 0.2; solve(y); MISOInputs r = all(); r.insert_or_assign("state", y); if (!curved || S.calcResidualNorm(r) < 1e-8) { if (!dg || !curved) { same(c, y, u, 1e-8, "independent-of-the-guess"); } c.count("solves"); } solve(u); }
   // outputs and their total derivatives
   std::string name = g.pick(std::vector<std::string>{"energy", "average_flux_magnitude", "max_flux_magnitude", "max_state", "flux_magnitude", "force", "force_x", "torque"}); json opt = json::object(); bool many = name == "flux_magnitude", push = name[0] == 'f' && !many, twist = name == "torque"; Vector weight;
   if (name == "max_state" || name == "max_flux_magnitude") { opt["rho"] = g.uni(1, 4); }
   if (push || twist) { opt["attributes"] = {sm->attributes[0]}; opt["axis"] = twist ? std::vector<double>{0, 0, 1} : std::vector<double>{g.uni(-1, 1), g.uni(-1, 1)}; opt["about"] = {g.uni(-1, 1), g.uni(-1, 1)}; }
   else if (!many && g.coin(0.5)) { opt["attributes"] = std::vector<int>{sm->attributes[g.irand(0, sm->attributes.Size() - 1)]}; } if (opt.empty() && g.coin()) { S.createOutput(name); } else { S.createOutput(name, opt); } c.count("output-" + name); if (many) { weight = rvec(g, S.getOutputSize(name)); }
   std::vector<std::string> wrt{"mesh_coords"}; if (std::count(mark.begin(), mark.end(), 1) && !bc.contains("weak-essential")) { wrt.push_back("dirichlet_bc"); } if (!mag.empty()) { wrt.push_back("temperature"); c.count("magnets"); }
   totals(c, S, name, all, vec, in, wrt, scal, u, mark, order, *sm, weight, 1e-2, curved && o["lin-prec"]["type"] != "none", curved);
   {  // where there is no flux at all, products stay finite
      MISOInputs r = all(); Vector z(n), one(1); z = 0.0; one = 1.0; if (many) { one = weight; } r.insert_or_assign("state", z); for (std::string w : {"state", "mesh_coords"}) { Vector b(w == "state" ? n : x0.Size()); b = 0.0; S.outputVectorJacobianProduct(name, r, one, w, b); bool fin = true; for (int i = 0; i < b.Size(); ++i) { fin = fin && std::isfinite(b(i)); } c.check(fin, "finite-without-flux-" + w, name); } }
   if (push)
   {  // forces along different directions live side by side
      auto value = [&](const std::string &q) { MISOInputs r = all(); r.insert_or_assign("state", u); return S.calcOutput(q, r); }; double f0 = value(name); json op = opt; double s = g.uni(0.5, 2); op["axis"] = {g.uni(-1, 1), g.uni(-1, 1)}; S.createOutput("force_other", op); double f1 = value("force_other"); auto a = opt["axis"].get<std::vector<double>>(), b = op["axis"].get<std::vector<double>>(); op["axis"] = {a[0] + s * b[0], a[1] + s * b[1]}; S.createOutput("force_sum", op); double scl = 1 + std::fabs(f0) + std::fabs(f1);
      c.near(value("force_sum"), f0 + s * f1, 1e-10 * scl, "forces-add-up"); c.near(value(name), f0, 1e-11 * scl, "forces-live-side-by-side"); c.near(value("force_other"), f1, 1e-11 * scl, "forces-live-side-by-side"); c.count("several-forces");
   }
   if (twist)
   {  auto value = [&](const std::string &q) { MISOInputs r = all(); r.insert_or_assign("state", u); return S.calcOutput(q, r); }; double t0 = value(name); json op = opt; auto a = opt["about"].get<std::vector<double>>(); std::vector<double> b{g.uni(-1, 1), g.uni(-1, 1)}; op["about"] = b; S.createOutput("torque_elsewhere", op); double t1 = value("torque_elsewhere"); json fo = opt; fo["axis"] = {a[1] - b[1], b[0] - a[0]}; 
      // about another point: the moment of the force about it
      S.createOutput("force_moment", fo); double f = value("force_moment"), scl = 1 + std::fabs(t0) + std::fabs(t1); c.near(t1, t0 - f, 1e-10 * scl, "torque-about-another-point"); c.near(value(name), t0, 1e-11 * scl, "torques-live-side-by-side"); c.count("several-torques"); }
   // moved and back
   Vector xm(x0), um(n); double hm = 1e300; for (int e = 0; e < sm->GetNE(); ++e) { hm = std::min(hm, sm->GetElementSize(e, 1)); } for (int i = 0; i < xm.Size(); ++i) { xm(i) += 0.02 * hm * g.uni(-1, 1) / order; }
   vec["mesh_coords"] = xm; um = u; solve(um);
   {  std::unique_ptr<Mesh> m2(new Mesh(*sm)); m2->EnsureNodes(); *m2->GetNodes() = xm; Magn F(o, std::move(m2)); Vector y(u); MISOInputs r = all(); r.erase("mesh_coords"); F.solveForState(r, y); c.count("moves");
      MISOInputs at = all(), there(r); at.insert_or_assign("state", um); there.insert_or_assign("state", um); double left = S.calcResidualNorm(at); { Vector a(n), b(n); S.calcResidual(at, a); F.calcResidual(there, b); at.insert_or_assign("state", guess); double start = S.calcResidualNorm(at); a -= b; c.near(a.Norml2(), 0, 1e-10 * (1 + start + b.Norml2()), "residual-moved-as-built-there"); } there.insert_or_assign("state", y); if (!curved || (!dg && left < 1e-8 && F.calcResidualNorm(there) < 1e-8)) { same(c, um, y, 1e-7, "moved-as-built-there"); }
      MISOInputs now = all(); now.insert_or_assign("state", um); F.createOutput(name, opt); r.insert_or_assign("state", um); if (many) { Vector a(weight.Size()), b(weight.Size()); S.calcOutput(name, now, a); F.calcOutput(name, r, b); same(c, a, b, 1e-9, "output-moved-as-built-there"); } else { c.rel(S.calcOutput(name, now), F.calcOutput(name, r), 1e-8, 1e-9, twist ? "torque-moved-as-built-there" : "output-moved-as-built-there"); } }
   vec["mesh_coords"] = x0; um = u; um *= 0.9; solve(um);
   { MISOInputs r = all(); r.insert_or_assign("state", um); double left = S.calcResidualNorm(r); if (!curved || (!dg && left < 1e-8)) { same(c, um, u, 1e-7, "moved-and-back"); } if (curved && left < 1e-8) { r.insert_or_assign("state", guess); double start = S.calcResidualNorm(r); r.insert_or_assign("state", u); c.near(S.calcResidualNorm(r), 0, 2e-8 * (1 + start), "the-earlier-solution-solves-again"); } } 
   try { S.createOutput("temperature_of_the_moon", json::object()); c.check(false, "unknown-output-refused"); } catch (const miso::MISOException &) { c.count("refusals"); }
   if (!curved) { inverted(c, S, all, vec, u, solve, *sm); }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   run("slab", 500, slab); run("general", 400, general);
   int rc = finish(); MPI_Finalize(); return rc;
}
