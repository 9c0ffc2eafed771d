// Judging a steady PDE solver through its public interface: solves, outputs, total
// derivatives, moved meshes, refusals (properties C27, C28).
#ifndef SOLVECHECK_HPP
#define SOLVECHECK_HPP
#include "integcheck.hpp"
#include <fcntl.h>
#include <unistd.h>
namespace sc
{
using namespace ic;
/// silences what the solvers, mfem and hypre print
struct Mute { Quiet q; int keep; Mute() { fflush(stdout); keep = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Mute() { fflush(stdout); dup2(keep, 1); close(keep); } };
inline json common(Case &c, int n)
{
   auto &g = c.rng; json lin = {{"type", g.coin(0.6) ? "gmres" : "fgmres"}, {"printlevel", -1}, {"maxiter", n}, {"abstol", 1e-15}, {"reltol", 1e-14}, {"kdim", n}};
   return {{"silent", true}, {"print-options", false}, {"paraview", {{"log", false}}}, {"lin-solver", lin}, {"adj-solver", lin}, {"nonlin-solver", {{"type", "newton"}, {"printlevel", -1}, {"maxiter", 6}, {"reltol", 1e-12}, {"abstol", 1e-12}, {"abort", false}}}};
}
/// a serial mesh with random attributes, straight or curved
inline std::unique_ptr<Mesh> serial(Case &c, int dim, int &order)
{
   auto &g = c.rng; bool tensor = c.in("tensor", g.coin(0.35)); std::unique_ptr<Mesh> sm;
   if (!tensor) { sm = vmesh::random_mesh(c, dim, dim == 2 ? 3 : 1); }
   else if (dim == 2) { sm.reset(new Mesh(Mesh::MakeCartesian2D(g.irand(1, 3), g.irand(1, 3), Element::QUADRILATERAL, true, g.uni(0.5, 2), g.uni(0.5, 2), false))); }
   else { sm.reset(new Mesh(Mesh::MakeCartesian3D(g.irand(1, 2), 1, g.irand(1, 2), Element::HEXAHEDRON, g.uni(0.5, 2), g.uni(0.5, 2), g.uni(0.5, 2), false))); }
   int nb = g.irand(1, 4), na = g.irand(1, 3); for (int b = 0; b < sm->GetNBE(); ++b) { sm->GetBdrElement(b)->SetAttribute(g.irand(1, nb)); } for (int e = 0; e < sm->GetNE(); ++e) { sm->SetAttribute(e, g.irand(1, na)); } sm->SetAttributes();
   order = c.in("mesh-order", g.coin(0.6) ? 1 : 2); double h = 1e300; for (int e = 0; e < sm->GetNE(); ++e) { h = std::min(h, sm->GetElementSize(e, 1)); }
   double amp = g.coin(0.2) ? 0 : g.uni(0.01, 0.05) * h / order;
   if (order > 1 || g.coin()) { sm->SetCurvature(order, false, dim, g.coin() ? Ordering::byVDIM : Ordering::byNODES); auto &n = *sm->GetNodes(); for (int i = 0; i < n.Size(); ++i) { n(i) += amp * g.uni(-1, 1); } }
   else if (amp > 0) { for (int v = 0; v < sm->GetNV(); ++v) { for (int k = 0; k < dim; ++k) { sm->GetVertex(v)[k] += amp * g.uni(-1, 1); } } }
   return sm;
}
/// layers across x: columns between the values of grid, column i of attribute lay[i] + 1; ends 1 (left) and
/// 2 (right), other sides 3; (column, attribute) of interior boundaries in cuts (plane meshes only)
inline std::unique_ptr<Mesh> layers(Case &c, int dim, const std::vector<double> &grid, const std::vector<int> &lay, int ny, double ly, double lz, bool tensor, const std::vector<std::pair<int, int>> &cuts)
{
   auto &g = c.rng; int nx = lay.size(); Mesh b = dim == 2 ? Mesh::MakeCartesian2D(nx, ny, tensor ? Element::QUADRILATERAL : Element::TRIANGLE, true, nx, ly, false) : Mesh::MakeCartesian3D(nx, ny, 1, tensor ? Element::HEXAHEDRON : Element::TETRAHEDRON, nx, ly, lz, false);
   std::unique_ptr<Mesh> sm(new Mesh(dim, b.GetNV(), b.GetNE(), b.GetNBE() + int(cuts.size()) * ny, dim));
   for (int v = 0; v < b.GetNV(); ++v) { double q[3] = {0, 0, 0}; for (int d = 0; d < dim; ++d) { q[d] = b.GetVertex(v)[d]; } bool edge = q[1] < 1e-9 || q[1] > ly - 1e-9; if (dim == 2 && !edge) { q[1] += g.uni(-0.1, 0.1) * ly; } q[0] = grid[int(q[0] + 0.5)]; sm->AddVertex(q); }
   for (int e = 0; e < b.GetNE(); ++e) { Array<int> v; b.GetElementVertices(e, v); double m = 0; for (int i : v) { m += b.GetVertex(i)[0] / v.Size(); } int a = lay[std::min(nx - 1, std::max(0, int(m)))] + 1; if (dim == 2) { if (tensor) { sm->AddQuad(v.GetData(), a); } else { sm->AddTriangle(v.GetData(), a); } } else { if (tensor) { sm->AddHex(v.GetData(), a); } else { sm->AddTet(v.GetData(), a); } } }
   for (int e = 0; e < b.GetNBE(); ++e) { Array<int> v; b.GetBdrElementVertices(e, v); double lo = 1e9, hi = -1e9; for (int i : v) { lo = std::min(lo, b.GetVertex(i)[0]); hi = std::max(hi, b.GetVertex(i)[0]); } int a = hi < 1e-9 ? 1 : lo > nx - 1e-9 ? 2 : 3; if (dim == 2) { sm->AddBdrSegment(v.GetData(), a); } else if (tensor) { sm->AddBdrQuad(v.GetData(), a); } else { sm->AddBdrTriangle(v.GetData(), a); } }
   for (auto &k : cuts) { for (int e = 0; e < b.GetNEdges(); ++e) { Array<int> v; b.GetEdgeVertices(e, v); if (std::fabs(b.GetVertex(v[0])[0] - k.first) < 1e-9 && std::fabs(b.GetVertex(v[1])[0] - k.first) < 1e-9) { sm->AddBdrSegment(v.GetData(), k.second); } } }
   sm->FinalizeTopology(); sm->Finalize(false, false); if (g.coin(0.3)) { sm->SetCurvature(g.irand(1, 2), false, dim, g.coin() ? Ordering::byVDIM : Ordering::byNODES); } return sm;
}
/// states set from, and errors measured against, functions, coefficients and vectors
template <class S> void errors(Case &c, S &s, Vector &u)
{
   auto &g = c.rng; int n = u.Size(); double a = g.uni(-2, 2), b = g.uni(-2, 2), d = g.uni(-2, 2); std::function<double(const Vector &)> f = [=](const Vector &x) { return a + b * x(0) * x(0) + d * sin(x(1)); }; FunctionCoefficient fc(f);
   Vector v(n), w(n); auto &st = s.fields.at("state"); { ParGridFunction gf(&st.space()); gf.ProjectCoefficient(fc); gf.GetTrueDofs(w); } v = 1e9; s.setState(f, v); same(c, v, w, 1e-13, "state-from-a-function");
   { Vector q(n); s.fields.at("dirichlet_bc").setTrueVec(q); same(c, q, w, 1e-13, "boundary-values-follow-the-state"); }
   v = 1e9; s.setState(static_cast<Coefficient *>(&fc), v); same(c, v, w, 1e-13, "state-from-a-coefficient"); v = 1e9; s.setState(std::function<void(Vector &)>([&](Vector &y) { y = w; y *= 2.0; }), v); w *= 2; same(c, v, w, 1e-13, "state-from-a-vector-function");
   {  // set once more: the boundary values follow again
      double a2 = g.uni(-2, 2), b2 = g.uni(-2, 2); std::function<double(const Vector &)> f2 = [=](const Vector &x) { return a2 * x(0) + b2 * cos(x(1)); }; FunctionCoefficient fc2(f2); Vector z(n), q(n), y(n); { ParGridFunction gf(&st.space()); gf.ProjectCoefficient(fc2); gf.GetTrueDofs(z); } v = 1e9; if (g.coin()) { s.setState(f2, v); } else { s.setState(static_cast<Coefficient *>(&fc2), v); } same(c, v, z, 1e-13, "state-set-again"); s.fields.at("dirichlet_bc").setTrueVec(q); same(c, q, z, 1e-13, "boundary-values-follow-again");
      s.setState(f, y, "adjoint"); s.fields.at("dirichlet_bc").setTrueVec(q); same(c, q, z, 1e-13, "another-field-leaves-boundary-values"); c.count("states-set-again"); }
   auto want = [&](const Vector &y) { ParGridFunction gf(&st.space()); gf.SetFromTrueDofs(y); double e2 = 0; for (int e = 0; e < s.mesh().GetNE(); ++e) { auto &T = *s.mesh().GetElementTransformation(e); auto &ir = IntRules.Get(T.GetGeometryType(), 2 * st.space().GetFE(e)->GetOrder() + 3); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); double q = gf.GetValue(T, ip) - fc.Eval(T, ip); e2 += ip.weight * T.Weight() * q * q; } } return std::sqrt(e2); };
   auto one = [&] { v = rvec(g, n); double x = want(v); c.rel(s.calcStateError(f, v), x, 1e-11, 1e-12, "error-against-a-function"); }; auto two = [&] { v = rvec(g, n); double x = want(v); c.rel(s.calcStateError(static_cast<Coefficient *>(&fc), v), x, 1e-11, 1e-12, "error-against-a-coefficient"); }; if (g.coin()) { one(); two(); } else { two(); one(); }
   { Vector ex = rvec(g, n), df(v); df -= ex; c.rel(s.calcStateError(ex, v), df.Norml2(), 1e-12, 1e-13, "error-against-a-vector"); } c.count("errors");
}
/// the same for a vector field
template <class S> void vector_errors(Case &c, S &s, int n)
{
   auto &g = c.rng; auto &st = s.fields.at("state"); int D = s.mesh().Dimension(); std::vector<double> k; for (int i = 0; i < D * 3; ++i) { k.push_back(g.uni(-2, 2)); } std::function<void(const Vector &, Vector &)> f = [=](const Vector &x, Vector &y) { y.SetSize(D); for (int d = 0; d < D; ++d) { y(d) = k[3 * d] + k[3 * d + 1] * x(d) * x(0) + k[3 * d + 2] * sin(x((d + 1) % D)); } }; VectorFunctionCoefficient fc(D, f);
   auto want = [&](const Vector &y) { ParGridFunction gf(&st.space()); gf.SetFromTrueDofs(y); double e2 = 0; Vector a(D), b(D); for (int e = 0; e < s.mesh().GetNE(); ++e) { auto &T = *s.mesh().GetElementTransformation(e); auto &ir = IntRules.Get(T.GetGeometryType(), 2 * st.space().GetFE(e)->GetOrder() + 3); for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); gf.GetVectorValue(T, ip, a); fc.Eval(b, T, ip); a -= b; e2 += ip.weight * T.Weight() * (a * a); } } return std::sqrt(e2); };
   Vector v(n), w(n); { ParGridFunction gf(&st.space()); gf.ProjectCoefficient(fc); gf.GetTrueDofs(w); } v = 1e9; s.setState(f, v); same(c, v, w, 1e-13, "state-from-a-function"); v = 1e9; s.setState(static_cast<VectorCoefficient *>(&fc), v); same(c, v, w, 1e-13, "state-from-a-coefficient");
   auto one = [&] { v = rvec(g, n); double x = want(v); c.rel(s.calcStateError(f, v), x, 1e-11, 1e-12, "error-against-a-function"); }; auto two = [&] { v = rvec(g, n); double x = want(v); c.rel(s.calcStateError(static_cast<VectorCoefficient *>(&fc), v), x, 1e-11, 1e-12, "error-against-a-coefficient"); }; if (g.coin()) { one(); two(); } else { two(); one(); } c.count("vector-errors");
}
/// d output(solve(x), x)/dx by the adjoint against differences of solves; vector outputs are weighed
template <class S, class A> void totals(Case &c, S &s, const std::string &name, A all, std::map<std::string, Vector> &vec, MISOInputs &in, const std::vector<std::string> &wrt, const std::vector<std::string> &scal, const Vector &u, const std::vector<char> &ess, int order, Mesh &sm, const Vector &weight = Vector(), double floor = 1e-3, bool soft = false, bool graded = false, double rough = 1e-3)
{
   auto &g = c.rng; int n = u.Size(); bool many = weight.Size() > 0; auto of = [&](const MISOInputs &q) { if (!many) { return s.calcOutput(name, q); } Vector o(weight.Size()); s.calcOutput(name, q, o); return o * weight; };
   auto value = [&] { Vector y(u); MISOInputs r = all(); s.solveForState(r, y); MISOInputs q = all(); q.insert_or_assign("state", y); return of(q); };
   MISOInputs now = all(); now.insert_or_assign("state", u); double J = of(now); Vector bar(n), psi = rvec(g, n), t0(n); bar = 0.0; Vector one(1); one = 1.0; if (many) { one = weight; } s.outputVectorJacobianProduct(name, now, one, "state", bar); { t0 = 0.0; s.linearize(now); s.vectorJacobianProduct(psi, "state", t0); t0 -= bar; } Vector kept(bar); s.solveForAdjoint(now, bar, psi); same(c, bar, kept, 0, "adjoint-keeps-its-right-hand-side"); c.count("adjoints");
   {  Vector t(n); t = 0.0; s.linearize(now); s.vectorJacobianProduct(psi, "state", t); t -= bar; double off = norm(t), tol = 1e-8 * (norm(bar) + 1e-3 * norm(psi)) + 1e-11 + (graded ? 1e-11 * norm(t0) : 0.0);
      // a weak preconditioner may leave the (singular or strongly graded) system unsolved: nothing to judge
      if (soft && !(off <= tol)) { c.count("adjoints-not-converged"); return; } c.near(off, 0, tol, "adjoint-satisfies-the-transposed-system"); }
   double h = 1e300; for (int e = 0; e < sm.GetNE(); ++e) { h = std::min(h, sm.GetElementSize(e, 1)); } double fl = (graded ? 30 : 1) * (std::fabs(J) + floor);
   for (auto &w : wrt)
   {
      bool x = w == "mesh_coords"; Vector keep(vec[w]), d = rvec(g, keep.Size()); if (x) { d *= h / order; } Vector t(keep.Size()), m(psi); t = 0.0; if (x) { s.outputVectorJacobianProduct(name, now, one, w, t); }
      if (w == "dirichlet_bc") { t = psi; for (int i = 0; i < n; ++i) { if (!ess[i]) { t(i) = 0; } } for (int i = 0; i < n; ++i) { if (!ess[i]) { d(i) = 0; } } } else { m *= -1; s.linearize(now); s.vectorJacobianProduct(m, w, t); }
      derivative(c, t * d, [&](double e) { vec[w] = keep; vec[w].Add(e, d); double v = value(); vec[w] = keep; return v; }, "total-" + w, fl, 2e-2, rough); c.count("totals-" + w);
   }
   for (auto &w : scal)
   {
      double keep = std::get<double>(in.at(w)), size = std::max(1.0, std::fabs(keep)); Vector m(psi); m *= -1; s.linearize(now); double t = s.vectorJacobianProduct(m, w);
      derivative(c, t * size, [&](double e) { in.insert_or_assign(w, keep + e * size); double v = value(); in.insert_or_assign(w, keep); return v; }, "total-" + w.substr(0, w.find(':')), fl, 2e-2, rough); c.count("totals-scalar");
   }
}
/// a folded mesh is refused before anything is solved, and the solver serves on
template <class S, class A, class F> void inverted(Case &c, S &s, A all, std::map<std::string, Vector> &vec, const Vector &u, F solve, Mesh &sm)
{
   auto &g = c.rng; Vector keep(vec["mesh_coords"]), y = rvec(g, u.Size()), y0(y); int dim = s.mesh().Dimension(); auto &fs = s.fields.at("mesh_coords").space(); int k = g.irand(0, dim - 1);
   // a reflection of every node
   for (int i = 0; i < fs.GetNDofs(); ++i) { vec["mesh_coords"](fs.DofToVDof(i, k)) *= -1; }
   try { solve(y); c.check(false, "inverted-mesh-refused"); } catch (const miso::MISOException &) { c.count("inverted-meshes"); }
   same(c, y, y0, 0, "refused-solve-leaves-the-state"); vec["mesh_coords"] = keep; y = rvec(g, u.Size()); solve(y); same(c, y, u, 1e-8, "solves-after-a-refusal");
}
}
#endif
