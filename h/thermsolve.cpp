// The steady thermal solver from options to outputs and total derivatives (property C27).
#include "integcheck.hpp"
#include <fcntl.h>
#include <unistd.h>
#include "solvecheck.hpp"
#include "material_library.hpp"
#include "thermal.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic; using namespace sc;
struct Therm : miso::ThermalSolver
{
   Therm(const json &o, std::unique_ptr<Mesh> m) : ThermalSolver(MPI_COMM_WORLD, o, std::move(m)) { }
   using PDESolver::mesh; using PDESolver::fields;
   Vector coords() { Vector x(getFieldSize("mesh_coords")); getMeshCoordinates(x); return x; }
};
static json base(Case &c, bool dg, int p, int n)
{
   auto &g = c.rng; json o = common(c, n); o["space-dis"] = {{"basis-type", g.pick(dg ? std::vector<std::string>{"dg", "DG", "L2", "l2"} : std::vector<std::string>{"h1", "H1", "CG", "cg"})}, {"degree", p}};
   if (dg && g.coin()) { o["space-dis"]["sipg-penalty"] = g.uni(20, 60); } else if (dg) { o["space-dis"]["sipg-penalty"] = 4.0 * (p + 1) * (p + 1); }
   auto t = g.pick(std::vector<std::string>{"hypreboomeramg", "hypreilu", "none"}); o["lin-prec"] = {{"type", t}, {"printlevel", 0}, {"ilu-type", 0}, {"lev-fill", 1}, {"ilu-reorder", 0}}; c.count("preconditioner-" + t);
   return o;
}
/// walls of layers: the temperatures follow from thermal resistances in series
static void slab(Case &c)
{
   Mute mute; auto &g = c.rng; int dim = c.in("dim", g.coin(0.75) ? 2 : 3), L = c.in("layers", g.irand(1, 4)), p = c.in("order", g.irand(1, dim == 2 ? 3 : 1)); bool dg = c.in("dg", dim == 2 && g.coin()), tensor = c.in("tensor", g.coin());
   std::vector<double> x{g.uni(-1, 1)}, k; std::vector<int> per; int nx = 0; for (int i = 0; i < L; ++i) { x.push_back(x.back() + g.uni(0.3, 1.2)); k.push_back(g.logu(0.2, 20)); per.push_back(g.irand(1, dim == 2 ? 2 : 1)); nx += per.back(); }
   int ny = g.irand(1, 2); double ly = g.uni(0.5, 2), lz = dim == 3 ? g.uni(0.5, 2) : 1;
   std::vector<double> grid{x[0]}; std::vector<int> lay; for (int i = 0; i < L; ++i) { for (int j = 0; j < per[i]; ++j) { grid.push_back(x[i] + (x[i + 1] - x[i]) * (j + 1) / per[i]); lay.push_back(i); } }
   // interfaces with a resistance or a fluid of their own
   struct Face { int kind = 0; double h = 0, t = 0; std::string n; }; std::vector<Face> ifc(L > 0 ? L - 1 : 0); json ifs = json::object();
   if (dg) { for (int i = 0; i + 1 < L; ++i) { auto &f = ifc[i]; f.kind = g.irand(0, 2); f.h = g.uni(0.5, 5); f.t = g.uni(-2, 2); f.n = "i" + std::to_string(i); if (!f.kind) { continue; } ifs[f.kind == 1 ? "thermal_contact_resistance" : "convection"][f.n] = f.kind == 1 ? json{{"attrs", {10 + i}}, {"h", f.h}} : json{{"attrs", {10 + i}}, {"h", f.h}, {"fluid_temp", f.t}}; c.count(f.kind == 1 ? "contact-resistances" : "fluid-gaps"); } }
   std::vector<std::pair<int, int>> cuts; { int at = 0; for (int i = 0; i + 1 < L; ++i) { at += per[i]; if (ifc[i].kind) { cuts.push_back({at, 10 + i}); } } }
   auto sm = layers(c, dim, grid, lay, ny, ly, lz, tensor, cuts);
   // conditions at the two ends: 0 essential, 1 weak, 2 convection, 3 outflux
   int kind[2]; do { for (int &q : kind) { q = g.irand(0, 3); } } while (kind[0] == 3 && kind[1] == 3); double h = g.uni(0.5, 5), tf = g.uni(-2, 2), fl = g.uni(-2, 2), wall[2] = {g.uni(-2, 2), g.uni(-2, 2)};
   json o = base(c, dg, p, 500); std::vector<int> at[4]; for (int s = 0; s < 2; ++s) { at[kind[s]].push_back(s + 1); } json bc = json::object(); MISOInputs in;
   bool later = g.coin();   // the scalar data as options or as inputs
   if (!at[0].empty()) { bc["essential"] = at[0]; c.count("essential-ends"); } if (!at[1].empty()) { bc["weak-essential"] = at[1]; c.count("weak-ends"); }
   if (!at[2].empty()) { bc["convection"] = {{"attrs", at[2]}, {"h", later ? 7.0 : h}, {"fluid_temp", later ? 9.0 : tf}}; c.count("convective-ends"); if (later) { in.emplace("h", h); in.emplace("fluid_temp", tf); } }
   if (!at[3].empty()) { bc["outflux"] = {{"attrs", at[3]}, {"flux", later ? 7.0 : fl}}; c.count("flux-ends"); if (later) { in.emplace("outflux", fl); } }
   o["bcs"] = bc; if (!ifs.empty()) { o["interfaces"] = ifs; }
   json comps = json::object(); std::vector<std::string> lib; for (auto &q : miso::material_library.items()) { auto &m = q.value(); if (m.contains("kappa") && m["kappa"].is_number() && m["kappa"].get<double>() > 0.5 && m.contains("rho") && m["rho"].is_number()) { lib.push_back(q.key()); } } for (size_t q = lib.size(); q > 1; --q) { std::swap(lib[q - 1], lib[g.irand(0, int(q) - 1)]); }
   for (int i = 0; i < L; ++i)
   {
      json m = {{"name", "m" + std::to_string(i)}, {"kappa", k[i]}, {"rho", 1.0}};
      if (!lib.empty() && g.coin(0.35))   // a material of the library, whole or in part
      {
         std::string n = lib.back(); lib.pop_back(); double kl = miso::material_library[n]["kappa"].get<double>(); int how = g.irand(0, 3);
         if (how == 0) { m = n; k[i] = kl; c.count("library-materials"); } else if (how == 1) { m = {{"name", n}}; k[i] = kl; c.count("library-materials"); } else if (how == 2) { m = {{"name", n}, {"rho", 3.0}}; k[i] = kl; c.count("library-materials-amended"); } else { m = {{"name", n}, {"kappa", k[i]}}; c.count("library-materials-amended"); }
      }
      comps["c" + std::to_string(i)] = {{"attrs", {i + 1}}, {"material", m}};
   }
   o["components"] = comps;
   // piecewise linear: T_i = a_i + s_i (x - x_i)
   DenseMatrix A(2 * L); Vector rhs(2 * L); A = 0.0; rhs = 0.0; auto w = [&](int i) { return x[i + 1] - x[i]; };
   { if (kind[0] <= 1) { A(0, 0) = 1; rhs(0) = wall[0]; } else if (kind[0] == 2) { A(0, 0) = h; A(0, 1) = -k[0]; rhs(0) = h * tf; } else { A(0, 1) = k[0]; rhs(0) = fl; } }
   for (int i = 0; i + 1 < L; ++i)
   {
      int r = 2 * i + 1, a = 2 * i, n = 2 * i + 2; auto &f = ifc[i];
      if (f.kind == 0) { A(r, a) = 1; A(r, a + 1) = w(i); A(r, n) = -1; A(r + 1, a + 1) = k[i]; A(r + 1, n + 1) = -k[i + 1]; }
      else if (f.kind == 1) { A(r, a + 1) = k[i]; A(r, a) = f.h; A(r, a + 1) += f.h * w(i); A(r, n) = -f.h; A(r + 1, a + 1) = k[i]; A(r + 1, n + 1) = -k[i + 1]; }
      else { A(r, a) = f.h; A(r, a + 1) = f.h * w(i) + k[i]; rhs(r) = f.h * f.t; A(r + 1, n) = f.h; A(r + 1, n + 1) = -k[i + 1]; rhs(r + 1) = f.h * f.t; }
   }
   { int r = 2 * L - 1, a = 2 * L - 2; if (kind[1] <= 1) { A(r, a) = 1; A(r, a + 1) = w(L - 1); rhs(r) = wall[1]; } else if (kind[1] == 2) { A(r, a) = h; A(r, a + 1) = h * w(L - 1) + k[L - 1]; rhs(r) = h * tf; } else { A(r, a + 1) = k[L - 1]; rhs(r) = -fl; } }
   DenseMatrixInverse inv(A); Vector T(2 * L); inv.Mult(rhs, T); if (!(norm(T) < 200)) { c.trivial = true; return; }
   Therm S(o, std::move(sm)); int n = S.getStateSize(); if (n > 500) { c.trivial = true; return; }
   Vector u(n), dbc(n), guess = rvec(g, n, -3, 3); auto bval = [&](const Vector &q) { return wall[0] + (wall[1] - wall[0]) * (q(0) - x.front()) / (x.back() - x.front()); };
   if (g.coin()) { S.setState(std::function<double(const Vector &)>(bval), u); c.count("values-set"); } else { FunctionCoefficient fc(bval); auto &f = S.fields.at("dirichlet_bc"); f.project(fc, dbc); in.emplace("dirichlet_bc", dbc); c.count("values-as-inputs"); }
   u = guess; S.solveForState(in, u);
   // the temperature at every node of every element
   auto &gf = S.fields.at("state"); gf.distributeSharedDofs(u); double worst = 0, sc = 1 + norm(T);
   for (int e = 0; e < S.mesh().GetNE(); ++e) { auto &Tr = *S.mesh().GetElementTransformation(e); auto &ir = gf.space().GetFE(e)->GetNodes(); int l = S.mesh().GetAttribute(e) - 1; for (int i = 0; i < ir.GetNPoints(); ++i) { Tr.SetIntPoint(&ir.IntPoint(i)); Vector q; Tr.Transform(ir.IntPoint(i), q); double ex = T(2 * l) + T(2 * l + 1) * (q(0) - x[l]); worst = std::max(worst, std::fabs(gf.gridFunc().GetValue(Tr, ir.IntPoint(i)) - ex)); } }
   c.near(worst, 0, 1e-8 * sc, "temperatures-of-layers"); c.count("slabs"); if (!ifs.empty()) { c.count("slabs-with-interfaces"); }
   // outputs
   MISOInputs now(in); now.insert_or_assign("state", u);
   S.createOutput("thermal_flux_left", {{"attributes", {1}}}); S.createOutput("thermal_flux_right", {{"attributes", {2}}}); double area = ly * lz, qs = 0; for (int i = 0; i < L; ++i) { qs = std::max(qs, std::fabs(k[i] * T(2 * i + 1))); }
   c.near(S.calcOutput("thermal_flux_left", now), k[0] * T(1) * area, 1e-6 * (qs * area + 1), "flux-through-the-left-end"); c.near(S.calcOutput("thermal_flux_right", now), -k[L - 1] * T(2 * L - 1) * area, 1e-6 * (qs * area + 1), "flux-through-the-right-end");
   S.createOutput("average_state"); double sum = 0; for (int i = 0; i < L; ++i) { sum += w(i) * (T(2 * i) + 0.5 * w(i) * T(2 * i + 1)); } c.near(S.calcOutput("average_state", now), sum / (x[L] - x[0]), 1e-8 * sc, "average-of-layers");
   int one = g.irand(0, L - 1); S.createOutput("average_state_of_a_layer", {{"attributes", {one + 1}}}); c.near(S.calcOutput("average_state_of_a_layer", now), T(2 * one) + 0.5 * w(one) * T(2 * one + 1), 1e-8 * sc, "average-of-one-layer");
   if (g.coin()) { S.createOutput("max_state"); } else { S.createOutput("max_state", {{"rho", g.uni(5, 40)}}); } double mx = S.calcOutput("max_state", now), hi = -1e9, lo = 1e9; for (int i = 0; i < L; ++i) { for (double t : {T(2 * i), T(2 * i) + w(i) * T(2 * i + 1)}) { hi = std::max(hi, t); lo = std::min(lo, t); } } c.check(mx <= hi + 1e-7 * sc && mx >= lo - 1e-7 * sc, "aggregate-within-the-range");
}
/// anything: weak forms, loads, derivatives of outputs of solves
static void general(Case &c)
{
   Mute mute; auto &g = c.rng; int dim = c.in("dim", g.coin(0.8) ? 2 : 3), order; auto sm = serial(c, dim, order); bool dg = c.in("dg", g.coin(0.35)); int p = c.in("order", g.irand(1, dim == 2 ? 2 : 1));
   json o = base(c, dg, p, 400); json comps = json::object(); int na = sm->attributes.Max(); for (int i = 1; i <= na; ++i) { comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", {{"name", "m" + std::to_string(i)}, {"kappa", g.uni(0.3, 4)}, {"rho", 1.0}}}}; } o["components"] = comps;
   int nb = sm->bdr_attributes.Max(); auto some = [&] { std::vector<int> r; for (int i = 1; i <= nb; ++i) { if (g.coin()) { r.push_back(i); } } if (r.empty()) { r.push_back(sm->bdr_attributes[g.irand(0, sm->bdr_attributes.Size() - 1)]); } return r; };
   auto touches = [&](const std::vector<int> &v) { for (int a : v) { if (sm->bdr_attributes.Find(a) >= 0) { return true; } } return false; };
   json bc = json::object(); bool fixed = false; std::vector<int> ess; std::vector<std::string> scal; MISOInputs in;
   if (g.coin(0.6)) { ess = some(); bc["essential"] = ess; fixed = fixed || touches(ess); } if (g.coin(0.4)) { auto a = some(); bc["weak-essential"] = a; fixed = fixed || touches(a); }
   if (!fixed || g.coin(0.5)) { std::vector<int> a = fixed ? some() : std::vector<int>(sm->bdr_attributes.begin(), sm->bdr_attributes.end()); bc["convection"] = {{"attrs", a}, {"h", 2.0}, {"fluid_temp", 0.5}}; if (g.coin(0.7)) { in.emplace("h", g.uni(0.5, 4)); in.emplace("fluid_temp", g.uni(-2, 2)); scal = {"h", "fluid_temp"}; } }
   if (g.coin(0.5)) { bc["outflux"] = {{"attrs", some()}, {"flux", 0.7}}; if (g.coin(0.7)) { in.emplace("outflux", g.uni(-2, 2)); } }
   int po = g.irand(1, 3); if (g.coin()) { o["external-fields"]["other"] = {{"basis-type", "h1"}, {"degree", po}, {"num-states", 1}}; }
   o["bcs"] = bc; Therm S(o, std::unique_ptr<Mesh>(new Mesh(*sm))); int n = S.getStateSize(); if (n > 350) { c.trivial = true; return; }
   // fields
   for (auto &q : {"state", "residual", "adjoint", "dirichlet_bc", "thermal_load"}) { c.check(S.getFieldSize(q) == n, "field-size", q); } c.check(S.getFieldSize("nothing-of-that-name") == 0, "unknown-field-size"); Vector x0 = S.coords(); c.check(x0.Size() == S.mesh().GetNodes()->Size(), "coordinates-size");
   std::map<std::string, Vector> vec; Vector u(n); errors(c, S, u);
   vec["dirichlet_bc"] = rvec(g, n, -2, 2); if (g.coin(0.7)) { vec["thermal_load"] = rvec(g, n); c.count("loads"); } vec["mesh_coords"] = x0;
   auto all = [&] { MISOInputs r(in); for (auto &q : vec) { r.insert_or_assign(q.first, q.second); } return r; };
   auto solve = [&](Vector &y) { MISOInputs r = all(); S.solveForState(r, y); };
   std::vector<char> mark(n, 0); Vector guess = rvec(g, n, -2, 2); u = guess; solve(u);
   {  MISOInputs r = all(); r.insert_or_assign("state", u); Vector res(n); S.calcResidual(r, res); r.insert_or_assign("state", guess); double start = S.calcResidualNorm(r); c.check(res.Norml2() <= 1e-8 * (1 + start), "solution-satisfies-residual", std::to_string(res.Norml2()));
      if (!dg && !ess.empty()) { Array<int> et, mk(S.mesh().bdr_attributes.Max()); mk = 0; for (int a : ess) { if (a <= mk.Size()) { mk[a - 1] = 1; } } S.fields.at("state").space().GetEssentialTrueDofs(mk, et); double w = 0; for (int i : et) { mark[i] = 1; w = std::max(w, std::fabs(u(i) - vec["dirichlet_bc"](i))); } c.near(w, 0, 1e-9, "essential-values"); if (et.Size()) { c.count("essential-solves"); } } }
   {  Vector y = rvec(g, n, -5, 5); solve(y); same(c, y, u, 1e-8, "independent-of-the-guess"); c.count("solves"); }
   // outputs and their total derivatives
   std::string name = g.pick(std::vector<std::string>{"average_state", "max_state", "thermal_flux"}); json opt = json::object(); if (name == "max_state") { opt["rho"] = g.uni(1, 4); }
   if (g.coin(0.5)) { opt["attributes"] = std::vector<int>{name == "thermal_flux" ? sm->bdr_attributes[0] : sm->attributes[0]}; } if (opt.empty() && g.coin()) { S.createOutput(name); } else { S.createOutput(name, opt); } c.count("output-" + name);
   std::vector<std::string> wrt; if (std::count(mark.begin(), mark.end(), 1) && !bc.contains("weak-essential")) { wrt.push_back("dirichlet_bc"); } if (vec.count("thermal_load")) { wrt.push_back("thermal_load"); } if (name != "thermal_flux") { wrt.push_back("mesh_coords"); }
   totals(c, S, name, all, vec, in, wrt, scal, u, mark, order, *sm);
   // outputs of a field other than the state
   if (S.fields.count("other"))
   {
      auto &f = S.fields.at("other"); int no = f.space().GetTrueVSize(); c.check(S.getFieldSize("other") == no, "external-field-size"); Vector q = rvec(g, no), one(1); one = 1.0; MISOInputs now = all(); now.insert_or_assign("state", u); now.insert_or_assign("other", q); std::vector<int> at; json op = {{"state", "other"}}; if (g.coin()) { at = {sm->attributes[0]}; op["attributes"] = at; }
      double num = 0, den = 0; f.distributeSharedDofs(q); S.fields.at("mesh_coords").distributeSharedDofs(x0); for (int e = 0; e < S.mesh().GetNE(); ++e) { if (!at.empty() && S.mesh().GetAttribute(e) != at[0]) { continue; } auto &T = *S.mesh().GetElementTransformation(e); auto &ir = IntRules.Get(T.GetGeometryType(), 2 * f.space().GetFE(e)->GetOrder() + T.OrderW() + 2); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); double w = ip.weight * T.Weight(); den += w; num += w * f.gridFunc().GetValue(T, ip); } }
      S.createOutput("average_state_other", op); c.near(S.calcOutput("average_state_other", now), num / den, 1e-11, "average-of-a-named-field"); Vector d = rvec(g, no), b(no); b = 0.0; S.outputVectorJacobianProduct("average_state_other", now, one, "other", b); Vector q0(q);
      derivative(c, b * d, [&](double s) { q = q0; q.Add(s, d); MISOInputs n2 = all(); n2.insert_or_assign("state", u); n2.insert_or_assign("other", q); double v = S.calcOutput("average_state_other", n2); q = q0; return v; }, "derivative-of-a-named-average", 1e-2);
      op["rho"] = g.uni(1, 10); S.createOutput("max_state_other", op); double mx = S.calcOutput("max_state_other", now), lo = 1e9, hi = -1e9; for (int e = 0; e < S.mesh().GetNE(); ++e) { if (!at.empty() && S.mesh().GetAttribute(e) != at[0]) { continue; } auto &T = *S.mesh().GetElementTransformation(e); auto &ir = IntRules.Get(T.GetGeometryType(), 40); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); double v = f.gridFunc().GetValue(T, ip); lo = std::min(lo, v); hi = std::max(hi, v); } } double slack = 0.02 * (hi - lo); c.check(mx <= hi + slack && mx >= lo - slack, "named-aggregate-within-the-range"); c.count("named-fields");
   }
   // moved and back
   Vector xm(x0), um(n); double hm = 1e300; for (int e = 0; e < sm->GetNE(); ++e) { hm = std::min(hm, sm->GetElementSize(e, 1)); } for (int i = 0; i < xm.Size(); ++i) { xm(i) += 0.02 * hm * g.uni(-1, 1) / order; }
   vec["mesh_coords"] = xm; um = guess; solve(um);
   {  std::unique_ptr<Mesh> m2(new Mesh(*sm)); m2->EnsureNodes(); *m2->GetNodes() = xm; Therm F(o, std::move(m2)); Vector y(guess); MISOInputs r = all(); r.erase("mesh_coords"); F.solveForState(r, y); same(c, um, y, 1e-8, "moved-as-built-there"); c.count("moves");
      MISOInputs now = all(); now.insert_or_assign("state", um); F.createOutput(name, opt); r.insert_or_assign("state", um); c.rel(S.calcOutput(name, now), F.calcOutput(name, r), 1e-9, 1e-9, "output-moved-as-built-there"); }
   vec["mesh_coords"] = x0; um = rvec(g, n); solve(um); same(c, um, u, 1e-8, "moved-and-back");
   // what it refuses
   try { S.createOutput("temperature_of_the_moon", json::object()); c.check(false, "unknown-output-refused"); } catch (const miso::MISOException &) { c.count("refusals"); }
   inverted(c, S, all, vec, u, solve, *sm);
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   run("slab", 500, slab); run("general", 300, general);
   int rc = finish(); MPI_Finalize(); return rc;
}
