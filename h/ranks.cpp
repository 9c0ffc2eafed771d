// C31: what is computed on several ranks is what one rank computes.  Run under mpirun;
// every case sets the same problem up on all ranks together (WORLD) and on each rank
// alone (SELF) and compares quantities that do not depend on the partition.
#include <sys/prctl.h>
#include <csignal>
#include "adept.h"
#include "sbp_fe.hpp"
#include "solvecheck.hpp"
#include "data_logging.hpp"
#include "finite_element_dual.hpp"
#include "thermal.hpp"
#include "magnetostatic.hpp"
#include "mesh_warper.hpp"
#include "flow_residual.hpp"
#include "euler_integ.hpp"
#include "matrix_operators.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic; using namespace sc;
static int me, np; static const MPI_Comm W = MPI_COMM_WORLD, O = MPI_COMM_SELF;
static double gsum(MPI_Comm c, double a) { double b; MPI_Allreduce(&a, &b, 1, MPI_DOUBLE, MPI_SUM, c); return b; }
static double gmax(MPI_Comm c, double a) { double b; MPI_Allreduce(&a, &b, 1, MPI_DOUBLE, MPI_MAX, c); return b; }
static bool all(bool ok) { int a = ok, b; MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, W); return b; }
static double gdot(MPI_Comm c, const Vector &a, const Vector &b) { return gsum(c, InnerProduct(a, b)); }
/// a smooth random field of m components, the same on every rank
struct Fun
{
   int m, d; double mid; std::vector<double> v;
   Fun(Rng &g, int m_ = 1, int d_ = 2, double size = 1, double mid_ = 0) : m(m_), d(d_), mid(mid_) { for (int i = 0; i < m; ++i) { v.push_back(size * g.uni(-1, 1)); v.push_back(size * g.uni(0.3, 1)); v.push_back(g.uni(0, 6)); for (int k = 0; k < d; ++k) { v.push_back(g.uni(-3, 3)); } } }
   double operator()(const Vector &x, int i) const { const double *p = &v[i * (3 + d)]; double a = p[2]; for (int k = 0; k < d; ++k) { a += p[3 + k] * x(k); } return mid + p[0] + p[1] * sin(a); }
};
/// true vector of the projection of f onto the space
static Vector project(ParFiniteElementSpace &s, const Fun &f)
{
   ParGridFunction q(&s); Vector t(s.GetTrueVSize());
   if (f.m == 1) { FunctionCoefficient k([&](const Vector &x) { return f(x, 0); }); q.ProjectCoefficient(k); } else { VectorFunctionCoefficient k(f.m, [&](const Vector &x, Vector &y) { for (int i = 0; i < f.m; ++i) { y(i) = f(x, i); } }); q.ProjectCoefficient(k); }
   q.GetTrueDofs(t); return t;
}
/// numbers that tell a vector of the space, whatever the partition
struct Probe { std::vector<Fun> f; Probe(Rng &g, int m, int d) { for (int i = 0; i < 4; ++i) { f.emplace_back(g, m, d); } } };
static Vector sig(ParFiniteElementSpace &s, const Probe &p, const Vector &v)
{ Vector r(p.f.size() + 1); MPI_Comm c = s.GetComm(); for (size_t i = 0; i < p.f.size(); ++i) { Vector q = project(s, p.f[i]); r(i) = gdot(c, q, v); } r(p.f.size()) = std::sqrt(gdot(c, v, v)); return r; }
static void agree(Case &c, const Vector &a, const Vector &b, double tol, const std::string &o, double floor = 1e-6)
{ double e = 0, s = floor; for (int i = 0; i < a.Size(); ++i) { double d = std::fabs(a(i) - b(i)); if (!(d <= e)) { e = d; } s = std::max(s, std::fabs(b(i))); } e = all(e <= tol * s) ? std::min(e, tol * s) : 2 * tol * s + e; c.near(gmax(W, e), 0, tol * s, o); }
static void agree(Case &c, double a, double b, double tol, const std::string &o, double floor = 1e-6) { Vector x(1), y(1); x = a; y = b; agree(c, x, y, tol, o, floor); }
/// a serial mesh with elements for everyone
static std::unique_ptr<Mesh> plenty(Case &c, int dim, int &order, bool simplex = false, bool curved = true)
{
   auto &g = c.rng; std::unique_ptr<Mesh> sm; bool tensor = !simplex && g.coin(0.4); c.in("dim", dim);
   do { sm = !tensor ? vmesh::random_mesh(c, dim, dim == 2 ? 4 : 2) : dim == 2 ? std::make_unique<Mesh>(Mesh::MakeCartesian2D(g.irand(2, 4), g.irand(2, 4), Element::QUADRILATERAL, true, g.uni(0.5, 2), g.uni(0.5, 2), false)) : std::make_unique<Mesh>(Mesh::MakeCartesian3D(2, g.irand(1, 2), g.irand(2, 3), Element::HEXAHEDRON, g.uni(0.5, 2), g.uni(0.5, 2), g.uni(0.5, 2), false)); } while (sm->GetNE() < 3 * np);
   int nb = g.irand(1, 4), na = g.irand(1, 3); for (int b = 0; b < sm->GetNBE(); ++b) { sm->GetBdrElement(b)->SetAttribute(g.irand(1, nb)); } for (int e = 0; e < sm->GetNE(); ++e) { sm->SetAttribute(e, g.irand(1, na)); } sm->SetAttributes();
   order = curved ? c.in("mesh-order", g.coin(0.6) ? 1 : 2) : 1; double h = 1e300; for (int e = 0; e < sm->GetNE(); ++e) { h = std::min(h, sm->GetElementSize(e, 1)); }
   if (order > 1 || (curved && g.coin())) { sm->SetCurvature(order, false, dim, g.coin() ? Ordering::byVDIM : Ordering::byNODES); auto &n = *sm->GetNodes(); for (int i = 0; i < n.Size(); ++i) { n(i) += 0.03 * h / order * g.uni(-1, 1); } }
   return sm;
}
static double smallest(Mesh &m) { double h = 1e300; for (int e = 0; e < m.GetNE(); ++e) { h = std::min(h, m.GetElementSize(e, 1)); } return h; }
/// the partition must really be one
static bool split(Case &c, ParMesh &m) { int lo; int ne = m.GetNE(); MPI_Allreduce(&ne, &lo, 1, MPI_INT, MPI_MIN, W); if (lo == 0) { c.count("ranks-without-elements"); } else { c.count("partitions"); } return true; }
template <class B> struct On : B
{
   On(MPI_Comm c, const json &o, std::unique_ptr<Mesh> m) : B(c, o, std::move(m)) { }
   using B::mesh; using B::fields; using B::addLogger; ParFiniteElementSpace &sp(const std::string &n) { return fields.at(n).space(); }
};
/// one solver, on all ranks and on one: residuals, products, solves, outputs, adjoints
struct Ask { std::map<std::string, Fun> vec; std::map<std::string, double> scal; std::vector<std::string> wrt, swrt; std::string out; json opt = json::object(); bool nonlinear = false, soft = false; double move = 0; };
template <class S> struct Side
{
   S s; MPI_Comm comm; std::map<std::string, Vector> v; Vector u; MISOInputs in; 
   Side(MPI_Comm c, const json &o, Mesh &m, const Ask &a, const Fun &f0) : s(c, o, std::unique_ptr<Mesh>(new Mesh(m))), comm(c)
   {
      for (auto &p : a.vec) { if (p.first == "mesh_coords") { v[p.first] = s.fields.at(p.first).gridFunc().GetTrueVector(); auto &sp = s.sp(p.first); s.fields.at(p.first).gridFunc().GetTrueDofs(v[p.first]); Vector d = project(sp, p.second); v[p.first].Add(a.move, d); } else { v[p.first] = project(s.sp(p.first), p.second); } }
      for (auto &p : a.scal) { in.emplace(p.first, p.second); } for (auto &p : v) { in.emplace(p.first, p.second); } u = project(s.sp("state"), f0);
   }
   MISOInputs with(Vector &x) { MISOInputs r(in); r.insert_or_assign("state", x); return r; }
};
template <class S> static void judge(Case &c, const json &o, Mesh &m, const Ask &a)
{
   auto &g = c.rng; int dim = m.Dimension(); Fun f0(g, 1, dim), fd(g, 1, dim), fp(g, 1, dim), fe(g, 1, dim); Side<S> P(W, o, m, a, f0), R(O, o, m, a, f0); split(c, P.s.mesh()); Probe pb(g, 1, dim); Probe px(g, dim, dim);
   for (std::string n : {"state", "residual", "adjoint", "dirichlet_bc", "mesh_coords"}) { agree(c, gsum(W, P.s.getFieldSize(n)), R.s.getFieldSize(n), 0, "sizes-add-up"); }
   agree(c, sig(P.s.sp("state"), pb, P.u), sig(R.s.sp("state"), pb, R.u), 1e-11, "projections");
   // state set from a function, measured against one
   auto err = [&](Side<S> &X, Vector &y) { std::function<double(const Vector &)> q = [&](const Vector &x) { return fe(x, 0); }; return X.s.calcStateError(q, y); };
   agree(c, err(P, P.u), err(R, R.u), 1e-11, "errors"); agree(c, P.s.calcStateError(Vector(project(P.s.sp("state"), fe)), P.u), R.s.calcStateError(Vector(project(R.s.sp("state"), fe)), R.u), 1e-11, "errors-against-vectors");
   auto vecs = [&](auto f, const std::string &n, double tol, const std::string &or_, double floor = 1e-6) { Vector x = f(P), y = f(R); agree(c, sig(P.s.sp(n), n == "mesh_coords" ? px : pb, x), sig(R.s.sp(n), n == "mesh_coords" ? px : pb, y), tol, or_, floor); };
   // residuals
   vecs([&](Side<S> &X) { Vector r(X.u.Size()); auto q = X.with(X.u); X.s.calcResidual(q, r); return r; }, "state", 1e-10, "residual"); { auto p = P.with(P.u), q = R.with(R.u); agree(c, P.s.calcResidualNorm(p), R.s.calcResidualNorm(q), 1e-10, "residual-norm"); c.count("residuals"); }
   // products
   { auto p = P.with(P.u), q = R.with(R.u); P.s.linearize(p); R.s.linearize(q); }
   auto products = [&](const std::string &tag) {
      vecs([&](Side<S> &X) { Vector d = project(X.s.sp("state"), fd), r(d.Size()); r = 0.0; X.s.jacobianVectorProduct(d, "state", r); return r; }, "state", 1e-9, "product" + tag); vecs([&](Side<S> &X) { Vector d = project(X.s.sp("state"), fp), r(d.Size()); r = 0.0; X.s.vectorJacobianProduct(d, "state", r); return r; }, "state", 1e-9, "transposed-product" + tag);
      for (auto &w : a.wrt) { vecs([&](Side<S> &X) { Vector d = project(X.s.sp("state"), fp), r(X.s.getFieldSize(w)); r = 0.0; X.s.vectorJacobianProduct(d, w, r); return r; }, w, 1e-9, "transposed-product-" + w + tag); }
      for (auto &w : a.swrt) { Vector x = project(P.s.sp("state"), fp), y = project(R.s.sp("state"), fp); double p = P.s.vectorJacobianProduct(x, w), q = R.s.vectorJacobianProduct(y, w), t = gsum(W, p), tol = 1e-9 * (1e-6 + std::fabs(q)); c.check(all(std::fabs(p - q) <= tol) || all(std::fabs(t - q) <= tol), "transposed-product-scalar" + tag); } };
   products(""); c.count("products");
   // solves
   Vector x(P.u), y(R.u); { auto p = P.in, q = R.in; P.s.solveForState(p, x); R.s.solveForState(q, y); } auto good = [&](Side<S> &X, Vector &z) { auto q = X.with(z); double e = X.s.calcResidualNorm(q); Vector k(z); k = X.u; auto q0 = X.with(k); return e <= 1e-7 * (1 + X.s.calcResidualNorm(q0)); };
   bool gr = all(good(R, y)), gp = all(good(P, x)); if (!gr) { c.count("not-converged-alone"); return; } if (!gp && a.soft) { c.count("not-converged-together"); return; } c.check(gp, "solve-converges"); if (!gp) { return; }
   double st = a.nonlinear ? 1e-5 : 1e-6; agree(c, sig(P.s.sp("state"), pb, x), sig(R.s.sp("state"), pb, y), st, "solution", 1e-3); agree(c, err(P, x), err(R, y), st, "error-of-the-solution", 1e-3); c.count("solves");
   // at one state: that of the reference, by its functionals; both sides go on from a projected state
   Vector *up = &P.u, *ur = &R.u; P.s.createOutput(a.out, a.opt); R.s.createOutput(a.out, a.opt); int no = P.s.getOutputSize(a.out); bool many = a.out.find("flux_magnitude") == 0 || a.out.find("flux_density") == 0; c.count("output-" + a.out);
   if (many) { Probe po(g, a.out == "flux_density" ? 2 : 1, dim); auto out = [&](Side<S> &X) { Vector q(X.s.getOutputSize(a.out)); auto i = X.with(X.u); X.s.calcOutput(a.out, i, q); return sig(X.s.sp(a.out), po, q); }; agree(c, out(P), out(R), 1e-10, "output"); agree(c, gsum(W, no), R.s.getOutputSize(a.out), 0, "output-sizes-add-up"); }
   else { auto p = P.with(*up), q = R.with(*ur); agree(c, P.s.calcOutput(a.out, p), R.s.calcOutput(a.out, q), 1e-10, "output"); auto p2 = P.with(x), q2 = R.with(y); agree(c, P.s.calcOutput(a.out, p2), R.s.calcOutput(a.out, q2), 10 * st, "output-of-the-solution", 1e-3); }
   std::vector<std::string> w2{"state"}; for (auto &w : a.wrt) { if (w == "mesh_coords" && a.out != "thermal_flux") { w2.push_back(w); } }
   Fun fw(g, a.out == "flux_density" ? 2 : 1, dim);
   for (auto &w : w2) { vecs([&](Side<S> &X) { Vector one(many ? X.s.getOutputSize(a.out) : 1), b(X.s.getFieldSize(w)); one = 1.3; if (many) { one = project(X.s.sp(a.out), fw); } b = 0.0; auto i = X.with(X.u); X.s.outputVectorJacobianProduct(a.out, i, one, w, b); return b; }, w, 1e-9, "output-derivative-" + w); }
   if (!many) { try { Vector d = project(P.s.sp("state"), fd), e = project(R.s.sp("state"), fd), p(1), q(1); p = 0.0; q = 0.0; auto i = P.with(*up), j = R.with(*ur); P.s.outputJacobianVectorProduct(a.out, i, d, "state", p); R.s.outputJacobianVectorProduct(a.out, j, e, "state", q); agree(c, gsum(W, p(0)), q(0), 1e-9, "forward-products-add-up"); c.count("outputs"); } catch (const miso::NotImplementedException &) { c.count("forward-products-refused"); } }
   // adjoints of the state the Jacobian was assembled at
   {  auto adj = [&](Side<S> &X) { Vector b = project(X.s.sp("state"), fp), psi(b.Size()); psi = 0.0; auto i = X.with(X.u); X.s.linearize(i); X.s.solveForAdjoint(i, b, psi); return psi; }; Vector ap = adj(P), ar = adj(R);
      auto ok = [&](Side<S> &X, Vector &psi) { Vector b = project(X.s.sp("state"), fp), t(b.Size()); t = 0.0; auto i = X.with(X.u); X.s.linearize(i); X.s.vectorJacobianProduct(psi, "state", t); t -= b; return std::sqrt(gdot(X.comm, t, t)) <= 1e-7 * (std::sqrt(gdot(X.comm, b, b)) + 1e-3 * std::sqrt(gdot(X.comm, psi, psi)) + 1e-6); };
      if (!all(ok(R, ar))) { c.count("adjoint-not-converged-alone"); } else if (bool k = all(ok(P, ap)); !k && a.soft) { c.count("adjoint-not-converged-together"); } else { c.check(k, "adjoint-solves-its-system"); agree(c, sig(P.s.sp("state"), pb, ap), sig(R.s.sp("state"), pb, ar), 1e-5, "adjoint", 1e-3); c.count("adjoints"); } }
   products("-again");
}
static json options(Case &c, int p, bool nl)
{
   auto &g = c.rng; json o = common(c, 400); o["space-dis"] = {{"basis-type", "h1"}, {"degree", p}}; auto t = g.pick(std::vector<std::string>{"hypreboomeramg", "none", "none", "hypreilu"}); o["lin-prec"] = {{"type", t}, {"printlevel", 0}, {"ilu-type", 0}, {"lev-fill", 1}, {"ilu-reorder", 0}}; c.in("prec", t);
   if (nl) { o["nonlin-solver"]["maxiter"] = 40; o["nonlin-solver"]["type"] = c.in("newton", g.pick(std::vector<std::string>{"newton", "relaxednewton", "inexactnewton"})); } return o;
}
static std::vector<int> some(Rng &g, Mesh &m) { std::vector<int> r; for (int a : m.bdr_attributes) { if (g.coin()) { r.push_back(a); } } if (r.empty()) { r.push_back(m.bdr_attributes[g.irand(0, m.bdr_attributes.Size() - 1)]); } return r; }
static void thermal(Case &c)
{
   Mute mute; auto &g = c.rng; int dim = g.coin(0.7) ? 2 : 3, order, p = c.in("order", g.irand(1, dim == 2 ? 3 : 1)); auto sm = plenty(c, dim, order); json o = options(c, p, false), comps = json::object(); Ask a;
   for (int i = 1; i <= sm->attributes.Max(); ++i) { comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", {{"name", "m" + std::to_string(i)}, {"kappa", g.uni(0.3, 4)}, {"rho", 1.0}}}}; } o["components"] = comps;
   json bc = json::object(); bool fixed = false; if (g.coin(0.7)) { bc["essential"] = some(g, *sm); fixed = true; c.count("essential"); } if (!fixed || g.coin()) { std::vector<int> q = fixed ? some(g, *sm) : std::vector<int>(sm->bdr_attributes.begin(), sm->bdr_attributes.end()); bc["convection"] = {{"attrs", q}, {"h", 2.0}, {"fluid_temp", 0.5}}; a.scal["h"] = g.uni(0.5, 4); a.scal["fluid_temp"] = g.uni(-2, 2); a.swrt = {"h", "fluid_temp"}; }
   if (g.coin()) { bc["outflux"] = {{"attrs", some(g, *sm)}, {"flux", g.uni(-1, 1)}}; } if (g.coin(0.3)) { bc["weak-essential"] = some(g, *sm); } o["bcs"] = bc;
   a.vec.emplace("dirichlet_bc", Fun(g, 1, dim)); a.vec.emplace("thermal_load", Fun(g, 1, dim)); a.vec.emplace("mesh_coords", Fun(g, dim, dim)); a.move = g.coin(0.3) ? 0 : 0.01 * smallest(*sm); a.wrt = {"mesh_coords", "thermal_load"};
   a.out = g.pick(std::vector<std::string>{"average_state", "max_state", "thermal_flux"}); if (a.out == "max_state") { a.opt["rho"] = g.uni(1, 4); } if (g.coin(0.5)) { a.opt["attributes"] = std::vector<int>{a.out == "thermal_flux" ? sm->bdr_attributes[0] : sm->attributes[0]}; } if (a.out == "thermal_flux") { a.wrt = {"thermal_load", "mesh_coords"}; }
   a.soft = o["lin-prec"]["type"] != "none"; judge<On<miso::ThermalSolver>>(c, o, *sm, a);
}
static void magnetic(Case &c)
{
   Mute mute; auto &g = c.rng; int order, p = c.in("order", g.irand(1, 2)); auto sm = plenty(c, 2, order); bool sat = c.in("saturating", g.coin()); json o = options(c, p, sat), comps = json::object(), cur = json::object(), mag = json::object(); Ask a; static const double mu0 = 4e-7 * M_PI;
   for (int i = 1; i <= sm->attributes.Max(); ++i)
   {
      std::string n = "m" + std::to_string(i); json mat = {{"name", n}, {"rho", g.uni(0.5, 8)}, {"mu_r", 1 / (mu0 * g.uni(0.3, 3))}};
      if (g.coin(0.3)) { mat["alpha_B_r"] = g.uni(-20, 20); mat["T_ref"] = g.uni(-2, 2); mat["B_r_T_ref"] = g.uni(0.3, 1); mag[n][g.pick(std::vector<std::string>{"x", "y", "north", "cw"})].push_back(i); }
      else if (sat) { int deg = g.irand(2, 3), k = deg + g.irand(2, 4); double top = 40; std::vector<double> cps(k), kn(k + deg + 1); for (int j = 0; j < k + deg + 1; ++j) { kn[j] = j <= deg ? 0 : j >= k ? top : top * (j - deg + g.uni(-0.2, 0.2)) / (k - deg); } double h = 0, s = g.uni(2, 6); for (auto &q : cps) { q = h; h += s; s += g.uni(0.5, 5); } mat["reluctivity"] = {{"model", "bh"}, {"cps", cps}, {"knots", kn}, {"degree", deg}}; a.nonlinear = true; }
      if (g.coin(0.6)) { std::string grp = g.coin() ? "phaseA" : "phaseB"; cur[grp][g.coin() ? "z" : "-z"].push_back(i); if (!a.scal.count("current_density:" + grp)) { a.scal["current_density:" + grp] = g.uni(-3, 3); a.swrt.push_back("current_density:" + grp); } }
      comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", mat}};
   }
   o["components"] = comps; if (!cur.empty()) { o["current"] = cur; } if (!mag.empty()) { o["magnets"] = mag; c.count("magnets"); } o["bcs"] = {{"essential", some(g, *sm)}}; if (a.nonlinear) { c.count("saturating"); }
   a.vec.emplace("dirichlet_bc", Fun(g, 1, 2)); a.vec.emplace("mesh_coords", Fun(g, 2, 2)); a.move = g.coin(0.3) ? 0 : 0.01 * smallest(*sm); a.wrt = {"mesh_coords"}; if (!mag.empty()) { a.vec.emplace("temperature", Fun(g, 1, 2)); a.wrt.push_back("temperature"); }
   a.out = g.pick(std::vector<std::string>{"energy", "average_flux_magnitude", "max_flux_magnitude", "max_state", "flux_magnitude", "force", "torque"}); if (a.out == "max_state" || a.out == "max_flux_magnitude") { a.opt["rho"] = g.uni(1, 4); }
   if (a.out == "force" || a.out == "torque") { a.opt["attributes"] = {sm->attributes[0]}; a.opt["axis"] = a.out == "torque" ? std::vector<double>{0, 0, 1} : std::vector<double>{g.uni(-1, 1), g.uni(-1, 1)}; a.opt["about"] = {g.uni(-1, 1), g.uni(-1, 1)}; } else if (a.out != "flux_magnitude" && g.coin()) { a.opt["attributes"] = std::vector<int>{sm->attributes[0]}; }
   a.soft = o["lin-prec"]["type"] != "none"; judge<On<miso::MagnetostaticSolver>>(c, o, *sm, a);
}
/// norms and projections of fields, pairings of duals
static void fields(Case &c)
{
   auto &g = c.rng; int dim = g.irand(2, 3), order; struct K { const char *n; int lo, hi; bool vec, sbp; }; static const std::vector<K> kinds{{"h1", 1, 3, false, false}, {"l2", 0, 3, false, false}, {"nd", 1, 2, true, false}, {"rt", 0, 1, true, false}, {"csbp", 0, 3, false, true}, {"dsbp", 0, 3, false, true}}; K k = g.pick(kinds); if (k.sbp) { dim = 2; } auto sm = plenty(c, dim, order, k.sbp); int p = g.irand(k.lo, dim == 3 ? std::min(k.hi, 2) : k.hi), vd = k.vec ? 1 : g.irand(1, 3), m = k.vec ? dim : vd; c.in("kind", k.n); c.in("degree", p); c.in("states", vd);
   Fun f(g, m, dim), e(g, m, dim), l(g, m, dim); Probe pb(g, m, dim); bool tied = k.vec && dim == 3 && (p > 1 || k.n[0] == 'r'); json o{{"degree", p}, {"basis-type", k.n}}; double pw = g.pick(std::vector<double>{2, 1, 3, infinity()}); int comp = g.irand(-1, m - 1); 
   auto of = [&](MPI_Comm cm) {
      ParMesh pm(cm, *sm); if (cm == W) { split(c, pm); } pm.EnsureNodes(); FiniteElementState u(pm, o, vd, "u"); Vector t(u.space().GetTrueVSize()), back(t.Size()), r(pb.f.size() + 8); r = 0.0;
      if (m == 1) { u.project([&](const Vector &x) { return f(x, 0); }, t); } else { u.project(std::function<void(const Vector &, Vector &)>([&](const Vector &x, Vector &y) { for (int i = 0; i < m; ++i) { y(i) = f(x, i); } }), t); }
      Vector s = sig(u.space(), pb, t); for (int i = 0; i < s.Size(); ++i) { r(i) = tied ? 0 : s(i); /* bases of a face follow its orientation */ } int n = s.Size(); u.distributeSharedDofs(t); u.setTrueVec(back); back -= t; r(n++) = gmax(cm, norm(back)); r(n++) = miso::calcLpNorm(u, pw); r(n++) = gsum(cm, t.Size());
      if (m == 1) { r(n++) = miso::calcLpError(u, std::function<double(const Vector &)>([&](const Vector &x) { return e(x, 0); }), pw); } else { std::function<void(const Vector &, Vector &)> q = [&](const Vector &x, Vector &y) { for (int i = 0; i < m; ++i) { y(i) = e(x, i); } }; r(n++) = miso::calcLpError(u, q, pw); r(n++) = miso::calcLpError(u, q, pw, comp); }
      miso::FiniteElementDual d(pm, u.space(), "d"); Vector dt = project(u.space(), l); d.distributeSharedDofs(dt); Vector dl(dt.Size()); d.setTrueVec(dl); dl -= dt; r(n++) = gmax(cm, norm(dl)); r(n++) = gsum(cm, InnerProduct(d.localVec(), u.gridFunc())) - gdot(cm, dt, t); return r; };
   Vector a = of(W), b = of(O); agree(c, a, b, 1e-11, "field"); c.count(std::string("fields-") + k.n); for (int i = 0; i < a.Size(); ++i) { c.check(std::isfinite(a(i)), "finite"); }
}
/// extension of a moved surface into the volume
static void warp(Case &c)
{
   Mute mute; auto &g = c.rng; int dim = g.coin(0.7) ? 2 : 3, order; auto sm = plenty(c, dim, order); if (sm->GetNodes()) { sm->SetCurvature(order, false, dim, Ordering::byVDIM); } json o = common(c, 400); o["lin-solver"]["type"] = o["adj-solver"]["type"] = c.in("solver", g.coin(0.7) ? "pcg" : "gmres"); o["space-dis"] = {{"degree", order}, {"basis-type", "H1"}}; o["lin-prec"] = {{"type", "hypreboomeramg"}, {"printlevel", 0}}; o["nonlin-solver"]["abort"] = false; o["bcs"]["essential"] = "all"; double h = smallest(*sm); Fun f(g, dim, dim, 0.1 * h), q(g, dim, dim), b(g, dim, dim); std::vector<Fun> pr; for (int i = 0; i < 4; ++i) { pr.emplace_back(g, dim, dim); }
   auto of = [&](MPI_Comm cm) {
      miso::MeshWarper w(cm, o, std::unique_ptr<Mesh>(new Mesh(*sm))); Vector x0, s, r(40); r = 0.0; int n = 0; Array<int> idx; w.getInitialVolumeCoords(x0); w.getInitialSurfaceCoords(s); w.getSurfCoordIndices(idx); r(n++) = gsum(cm, x0.Size()); r(n++) = gsum(cm, s.Size()); bool same = idx.Size() == s.Size() && w.getSurfaceCoordsSize() == s.Size() && w.getVolumeCoordsSize() == x0.Size(); for (int i = 0; same && i < s.Size(); ++i) { same = x0(idx[i]) == s(i); } r(n++) = -gmax(cm, !same);
      auto at = [&](const Fun &F, int i) { Vector p(dim); int k = i / dim; for (int d = 0; d < dim; ++d) { p(d) = x0(k * dim + d); } return F(p, i % dim); };
      auto sum = [&](const Vector &v, bool surf) { for (auto &F : pr) { double t = 0; for (int i = 0; i < v.Size(); ++i) { t += v(i) * at(F, surf ? idx[i] : i); } r(n++) = gsum(cm, t); } };
      for (int i = 0; i < s.Size(); ++i) { s(i) += at(f, idx[i]); } Vector x(x0); for (int i = 0; i < s.Size(); ++i) { x(idx[i]) = s(i); } MISOInputs in{{"surf_mesh_coords", s}}; w.solveForState(in, x); sum(x, false); Vector y(x0), z(x0.Size()); for (int i = 0; i < y.Size(); ++i) { y(i) += 0.1 * at(q, i); } MISOInputs lin{{"surf_mesh_coords", s}, {"state", y}}; w.calcResidual(lin, z); sum(z, false); r(n++) = w.calcResidualNorm(lin);
      w.linearize(lin); z = 0.0; w.jacobianVectorProduct(y, "state", z); sum(z, false); z = 0.0; w.vectorJacobianProduct(y, "state", z); sum(z, false); Vector bar(x0.Size()), psi(x0.Size()), sb(s.Size()); for (int i = 0; i < bar.Size(); ++i) { bar(i) = at(b, i); } psi = 0.0; w.solveForAdjoint(lin, bar, psi); sum(psi, false); sb = 0.0; w.vectorJacobianProduct(psi, "surf_mesh_coords", sb); sum(sb, true); r(n++) = 1; return r; };
   Vector a = of(W), r = of(O); agree(c, a, r, 1e-7, "extension"); c.count("warps");
}
static adept::Stack &stack() { return miso::getDiffStack(); }
/// the flow residual on several ranks
template <int D, bool EV> static void flow_(Case &c)
{
   auto &g = c.rng; Quiet quiet; int order; bool dsbp = D == 2 && c.in("dsbp", g.coin(0.4)); int p = c.in("degree", D == 3 ? g.irand(0, 1) : g.irand(0, 3)); auto sm = plenty(c, D, order, true, false); bool visc = !EV && !dsbp && D > 1 && c.in("viscous", g.coin(0.4)); double mach = g.uni(0.1, 1.5), aoa = g.uni(-20, 20); constexpr int ns = D + 2; bool steady = g.coin();
   json o = {{"flow-param", {{"entropy-state", EV}, {"mach", mach}, {"aoa", aoa}, {"roll-axis", 0}, {"pitch-axis", 1}, {"viscous", visc}, {"Re", g.logu(1, 200)}, {"Pr", 0.75}, {"mu", 1.0}}}, {"space-dis", {{"degree", p}, {"lps-coeff", g.coin(0.3) ? 0.0 : g.uni(0.2, 2)}, {"iface-coeff", g.uni(0.2, 2)}, {"basis-type", dsbp ? "dsbp" : "csbp"}, {"flux-fun", !EV && g.coin(0.3) ? "Euler" : "IR"}}}, {"time-dis", {{"steady", steady}}}, {"lin-prec", {{"type", "hypreilu"}, {"lev-fill", 1}, {"ilu-type", 0}, {"ilu-reorder", 1}, {"printlevel", 0}}}};
   { std::vector<int> wall = some(g, *sm), far; for (int a : sm->bdr_attributes) { if (std::find(wall.begin(), wall.end(), a) == wall.end()) { far.push_back(a); } } o["bcs"]["slip-wall"] = wall; if (!far.empty()) { o["bcs"]["far-field"] = far; } }
   Fun f(g, ns, D, 0.05), fd(g, ns, D), fw(g, ns, D); Probe pb(g, ns, D); double t = g.uni(0, 2), dt = g.uni(0, 0.3), cfl = g.uni(0.2, 2); std::vector<int> on = some(g, *sm);
   auto of = [&](MPI_Comm cm) {
      ParMesh pm(cm, *sm); if (cm == W) { split(c, pm); } std::map<std::string, FiniteElementState> fl; fl.emplace("state", FiniteElementState(pm, o["space-dis"], ns, "state")); auto &fes = fl.at("state").space(); miso::MISOResidual res(miso::FlowResidual<D, EV>(o, fes, fl, stack())); Vector u = project(fes, f), r(u.Size()), out(80); out = 0.0; int n = 0; auto put = [&](const Vector &v) { Vector s = sig(fes, pb, v); for (int i = 0; i < s.Size(); ++i) { out(n++) = s(i); } };
      for (int i = 0; i < u.Size() / ns; ++i) { double *q = &u(i * ns); q[0] = 1 + q[0]; double k = 0; for (int d = 0; d < D; ++d) { double v = (d ? 0.3 : 0.6) * mach + q[d + 1]; q[d + 1] = q[0] * v; k += v * v; } q[D + 1] = (1 + q[D + 1]) / 1.4 / 0.4 + 0.5 * q[0] * k; if (EV) { double w[5]; miso::calcEntropyVars<double, D, false>(q, w); for (int s = 0; s < ns; ++s) { q[s] = w[s]; } } }
      MISOInputs in{{"state", u}, {"time", t}}; r = 1e9; evaluate(res, in, r); put(r); out(n++) = calcEntropy(res, in); Vector w(u), zero(u.Size()); zero = 0.0; if (!EV) { for (int i = 0; i < u.Size() / ns; ++i) { double q[5]; miso::calcEntropyVars<double, D, false>(&u(i * ns), q); for (int s = 0; s < ns; ++s) { w(i * ns + s) = q[s]; } } }
      MISOInputs ch{{"state", u}, {"state_dot", zero}, {"time", t}, {"dt", dt}}; out(n++) = calcEntropyChange(res, ch); auto &fr = miso::getConcrete<miso::FlowResidual<D, EV>>(res); auto &gf = fl.at("state").gridFunc(); gf.SetFromTrueDofs(u); out(n++) = fr.minCFLTimeStep(cfl, gf);
      void (*ex)(const Vector &, Vector &) = [](const Vector &x, Vector &z) { constexpr int ns = D + 2; z.SetSize(ns); z(0) = 1 + 0.1 * sin(x(0)); for (int d = 0; d < D; ++d) { z(d + 1) = 0.2 * cos(x(d)); } z(D + 1) = 2; if (EV) { double q[5]; for (int s = 0; s < ns; ++s) { q[s] = z(s); } miso::calcEntropyVars<double, D, false>(q, z.GetData()); } }; out(n++) = fr.calcConservativeVarsL2Error(gf, ex, -1); out(n++) = fr.calcConservativeVarsL2Error(gf, ex, 1);
      auto *M = getMassMatrix(res, o); Vector d = project(fes, fd); M->Mult(d, r); put(r); if (!dsbp) { getJacobian(res, in, "state").Mult(d, r); put(r); }
      for (std::string q : {"drag", "lift"}) { miso::MISOOutput J = fr.constructOutput(q, json{{"boundaries", on}}); setInputs(J, in); out(n++) = calcOutput(J, in); calcOutputPartial(J, "state", in, r); put(r); Vector b(u.Size()), one(1); one = 0.7; b = 0.0; vectorJacobianProduct(J, one, "state", b); put(b); } miso::MISOOutput E = fr.constructOutput("entropy", json()); out(n++) = calcOutput(E, in); out(n++) = 1; return out; };
   Vector a = of(W), b = of(O); agree(c, a, b, 1e-9, "flow"); c.count(dsbp ? "discontinuous-flows" : "continuous-flows"); if (visc) { c.count("viscous-flows"); }
}
static void flow(Case &c) { bool e = c.in("entropy-variables", c.rng.coin(0.35)); if (c.rng.coin(0.8)) { e ? flow_<2, true>(c) : flow_<2, false>(c); } else { e ? flow_<3, true>(c) : flow_<3, false>(c); } }
/// a residual whose parts are coupled across ranks
struct Coupled
{
   MPI_Comm comm; int n, total; double k; std::vector<double> w;
   friend int getSize(const Coupled &r) { return r.n; } friend void setInputs(Coupled &, const MISOInputs &) { } friend void setOptions(Coupled &, const json &) { }
   friend void evaluate(Coupled &r, const MISOInputs &in, Vector &y) { Vector u; miso::setVectorFromInputs(in, "state", u, false, true); double s = 0; for (int i = 0; i < r.n; ++i) { s += r.w[i] * u(i); } s = gsum(r.comm, s); for (int i = 0; i < r.n; ++i) { y(i) = u(i) * u(i) * u(i) + r.k * s * s + r.w[i] * u(i); } }
   friend Operator &getJacobian(Coupled &, const MISOInputs &, const std::string &) { throw miso::NotImplementedException("none"); } friend double calcEntropy(Coupled &, const MISOInputs &) { return 0; } friend double calcEntropyChange(Coupled &, const MISOInputs &) { return 0; }
   friend Operator *getMassMatrix(Coupled &, const json &) { return nullptr; } friend Solver *getPreconditioner(Coupled &) { return nullptr; } friend MPI_Comm getMPIComm(const Coupled &r) { return r.comm; }
};
static void jacfree(Case &c)
{
   auto &g = c.rng; int total = c.in("unknowns", g.irand(np, 12)); double k = g.uni(0.2, 2), big = g.logu(0.1, 1e3), scale = g.coin(0.3) ? 0.0 : g.uni(0.5, 2); std::vector<double> w(total), u(total), d(total); std::vector<int> owner(total); for (int i = 0; i < total; ++i) { w[i] = g.uni(-1, 1); u[i] = g.uni(-1, 1); d[i] = big * (i < np ? g.logu(1e-3, 1) : g.uni(-1, 1)); owner[i] = i < np ? i : g.irand(0, np - 1); } (void)scale;
   auto of = [&](MPI_Comm cm) {
      Coupled r; r.comm = cm; r.total = total; r.k = k; r.n = 0; std::vector<double> ul, dl; for (int i = 0; i < total; ++i) { if (cm == O || owner[i] == me) { r.w.push_back(w[i]); ul.push_back(u[i]); dl.push_back(d[i]); ++r.n; } } Vector x(r.n), v(r.n), y(r.n); for (int i = 0; i < r.n; ++i) { x(i) = ul[i]; v(i) = dl[i]; }
      miso::MISOResidual res(std::move(r)); miso::JacobianFree J(res); MISOInputs in{{"state", x}}; J.setState(x); J.Mult(v, y); Vector s(3); s = 0.0; double a = 0, b = 0; int at = 0; for (int i = 0; i < total; ++i) { if (cm == O || owner[i] == me) { a += y(at) * (1 + 0.1 * i); b += y(at) * std::cos(i); ++at; } } s(0) = gsum(cm, a); s(1) = gsum(cm, b); s(2) = std::sqrt(gdot(cm, y, y)); return s; };
   Vector a = of(W), b = of(O); agree(c, a, b, 2e-5, "jacobian-free-product"); c.count("jacobian-free");
}
/// every rank saves and reads its own part
static void logging(Case &c)
{
   Mute mute; auto &g = c.rng; int step = g.irand(0, 99); double t = g.uni(0, 9); int n = g.irand(0, 20) + 3 * me; Vector v(n), r(n); Rng own(g.next() + me); for (int i = 0; i < n; ++i) { v(i) = own.uni(-1, 1); } bool ok = true; std::string f = "f" + std::to_string(c.idx); double tr = -1;
   // the draws above differ by rank only in their number of values
   auto both = [&](auto &&log) { MPI_Barrier(W); log.saveState(v, f, step, t, me); MPI_Barrier(W); r = 7.0; log.readState(f, step, me, tr, r); ok = ok && r.Size() == n && tr == t; for (int i = 0; i < n; ++i) { ok = ok && r(i) == v(i); } MPI_Barrier(W); };
   if (g.coin()) { both(miso::BinaryLogger()); c.count("binary"); } else { both(miso::ASCIILogger()); c.count("ascii"); } c.check(all(ok), "every-rank-reads-its-own");
   // a solver logs the part of each rank under its own number
   if (g.coin(0.3)) { int order; auto sm = plenty(c, 2, order); json o = options(c, 1, false); o["lin-prec"]["type"] = "none"; json comps; for (int i = 1; i <= sm->attributes.Max(); ++i) { comps["c" + std::to_string(i)] = {{"attrs", {i}}, {"material", {{"name", "m" + std::to_string(i)}, {"kappa", 1.0}, {"rho", 1.0}}}}; } o["components"] = comps; o["bcs"] = {{"essential", std::vector<int>(sm->bdr_attributes.begin(), sm->bdr_attributes.end())}};
      On<miso::ThermalSolver> S(W, o, std::unique_ptr<Mesh>(new Mesh(*sm))); miso::LoggingOptions lo; lo.initial_state = false; S.addLogger(miso::BinaryLogger(), std::move(lo)); Vector u = project(S.sp("state"), Fun(g, 1, 2)), x; MISOInputs in; S.solveForState(in, u); MPI_Barrier(W); x.SetSize(u.Size()); miso::BinaryLogger().readState("state", 1, me, tr, x); bool same = x.Size() == u.Size(); for (int i = 0; same && i < x.Size(); ++i) { same = x(i) == u(i); } c.check(all(same), "solver-logs-every-rank"); c.count("logged-solves"); MPI_Barrier(W); }
}
int main(int argc, char **argv)
{
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); MPI_Comm_rank(W, &me); MPI_Comm_size(W, &np); init(argc, argv, me);
   if (np < 2 && G().only_idx < 0) { std::cerr << "needs several ranks\n"; MPI_Abort(W, 77); }
   G().on_exception = [] { finish(); MPI_Abort(W, 9); };   // the other ranks would wait for this one
   G().counters["ranks-" + std::to_string(np)] = 1;
   run("thermal", 60, thermal); run("magnetic", 60, magnetic); run("fields", 150, fields); run("warp", 40, warp); run("flow", 60, flow); run("jacfree", 60, jacfree); run("logging", 60, logging);
   int rc = finish(); MPI_Finalize(); return rc;
}
