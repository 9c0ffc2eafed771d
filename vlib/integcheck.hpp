// Shared machinery for judging integrators, residual forms, loads and outputs:
// random (curved) meshes whose node coordinates are an input field, named random
// fields and scalars, pointwise reference integrals, and directional derivatives
// by extrapolated central differences with their own error estimate.
#ifndef INTEGCHECK_HPP
#define INTEGCHECK_HPP
#include "mfem.hpp"
#include "miso_input.hpp"
#include "miso_integrator.hpp"
#include "miso_nonlinearform.hpp"
#include "miso_linearform.hpp"
#include "functional_output.hpp"
#include "miso_output.hpp"
#include "miso_load.hpp"
#include "finite_element_state.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
namespace ic
{
using namespace vh;
using namespace mfem;
using json = nlohmann::json;
using miso::FiniteElementState; using miso::MISOInputs;
using Fields = std::map<std::string, FiniteElementState>;
struct Quiet { std::streambuf *b; Quiet() : b(std::cout.rdbuf(nullptr)) { } ~Quiet() { std::cout.rdbuf(b); } };
inline Vector rvec(Rng &g, int n, double a = -1, double b = 1) { Vector v(n); for (int i = 0; i < n; ++i) { v(i) = g.uni(a, b); } return v; }
inline double norm(const Vector &v) { double s = 0; for (int i = 0; i < v.Size(); ++i) { s = std::max(s, std::fabs(v(i))); } return s; }
inline void same(Case &c, const Vector &a, const Vector &b, double tol, const std::string &o, const std::string &m = "")
{
   if (!c.check(a.Size() == b.Size(), o, m + " size")) { return; }
   double s = 1 + norm(b), w = 0; int at = 0; for (int i = 0; i < a.Size(); ++i) { double e = std::fabs(a(i) - b(i)); if (!(e <= w)) { w = e; at = i; } }
   c.near(a.Size() ? a(at) : 0, a.Size() ? b(at) : 0, tol * s, o, m + " entry " + std::to_string(at));
}
/// a directional derivative with its own error estimate
struct Deriv { double d, err, scale; };
template <class F> Deriv differ(F &&f, double h = 4e-3)
{
   double f0 = std::fabs(f(0.0));
   auto D = [&](double s) { double a = f(s), b = f(-s); f0 = std::max({f0, std::fabs(a), std::fabs(b)}); return (a - b) / (2 * s); };
   double d1 = D(h), d2 = D(h / 2), d4 = D(h / 4), r1 = (4 * d2 - d1) / 3, r2 = (4 * d4 - d2) / 3;
   return {(16 * r2 - r1) / 15, std::fabs(r2 - r1), f0};
}
/// the analytic directional derivative a against the extrapolated differences
template <class F> void derivative(Case &c, double a, F &&f, const std::string &oracle, double floor = 0, double h = 4e-3, double rough = 1e-3)
{
   Deriv D = differ(f, h); double sc = std::max({std::fabs(D.d), floor, 1e-300});
   double round = 2e-13 * D.scale / h; double tol = 1e-7 * sc + 3 * D.err + round;
   if (!(D.err <= rough * sc + round)) { c.count("rough-differences"); return; }   // no reference here: nearby kink or strong nonlinearity
   if (rough < 1e-3) { Deriv D2 = differ(f, h / 3); if (!(std::fabs(D2.d - D.d) <= 3 * rough * sc + 3 * round + tol)) { c.count("rough-differences"); return; } }   // strongly nonlinear: two steps must agree
   // a kink within the first steps is not a wrong derivative: shorter steps decide
   for (double k : {5.0, 25.0})
   {
      if (std::fabs(a - D.d) <= tol) { break; }
      Deriv S = differ(f, h / k); double r = 2e-13 * S.scale / (h / k); if (S.err <= 1e-3 * sc + r) { D = S; tol = 1e-7 * sc + 3 * S.err + r; c.count("decided-by-shorter-steps"); }
   }
   c.near(a, D.d, tol, oracle); c.count("derivatives");
}
struct Env
{
   Case &c; Rng &g; int dim, na, nb, mo; bool tensor; std::unique_ptr<ParMesh> mesh; Fields fields; std::map<std::string, Vector> tv; std::map<std::string, double> sc;
   /// shape: -1 any, 0 simplices, 1 quadrilaterals or hexahedra; order: of the mesh (0: random 1..2)
   Env(Case &c_, int d, int shape = -1, int order = 0, int nmax = 3, bool mesh_field = true, bool want_internal = false, int n3 = 1) : c(c_), g(c_.rng), dim(d)
   {
      tensor = c.in("tensor", shape < 0 ? g.coin(0.35) : shape == 1); std::unique_ptr<Mesh> sm;
      if (!tensor) { sm = vmesh::random_mesh(c, dim, dim == 2 ? nmax : std::min(nmax, n3)); }
      else if (dim == 2) { sm.reset(new Mesh(Mesh::MakeCartesian2D(g.irand(1, nmax), g.irand(1, nmax), Element::QUADRILATERAL, true, g.uni(0.5, 2), g.uni(0.5, 2), false))); }
      else { sm.reset(new Mesh(Mesh::MakeCartesian3D(g.irand(1, 2), n3 > 1 ? g.irand(1, 2) : 1, g.irand(1, 2), Element::HEXAHEDRON, g.uni(0.5, 2), g.uni(0.5, 2), g.uni(0.5, 2), false))); }
      if (want_internal && dim == 2) { internal_boundaries(sm); }
      na = g.irand(1, 4); nb = g.irand(1, 5);
      for (int e = 0; e < sm->GetNE(); ++e) { sm->SetAttribute(e, g.irand(1, na)); }
      for (int b = 0; b < sm->GetNBE(); ++b) { sm->GetBdrElement(b)->SetAttribute(g.irand(1, nb)); }
      sm->SetAttributes(); mesh.reset(new ParMesh(MPI_COMM_WORLD, *sm)); na = mesh->attributes.Max(); nb = mesh->bdr_attributes.Max();
      mo = c.in("mesh-order", order ? order : g.coin(0.6) ? 1 : 2); mesh->SetCurvature(mo, false, dim, Ordering::byNODES);
      double size = 1e300; for (int e = 0; e < mesh->GetNE(); ++e) { size = std::min(size, mesh->GetElementSize(e, 1)); }
      double amp = g.coin(0.15) ? 0 : g.uni(0.01, 0.06) * size / mo; auto &n = *dynamic_cast<ParGridFunction *>(mesh->GetNodes()); { Vector t; n.GetTrueDofs(t); for (int i = 0; i < t.Size(); ++i) { t(i) += amp * g.uni(-1, 1); } n.SetFromTrueDofs(t); }
      hmesh = size / mo;
      if (mesh_field)
      {
         fields.emplace(std::piecewise_construct, std::forward_as_tuple("mesh_coords"), std::forward_as_tuple(*mesh, *n.ParFESpace(), "mesh_coords"));
         auto &m = fields.at("mesh_coords"); m.gridFunc() = n; mesh->NewNodes(m.gridFunc(), false); tv["mesh_coords"].SetSize(m.space().GetTrueVSize()); m.setTrueVec(tv["mesh_coords"]);
      }
   }
   double hmesh; bool internal = false;
   /// rebuild with some interior edges as boundary elements
   void internal_boundaries(std::unique_ptr<Mesh> &sm)
   {
      std::set<int> bnd; for (int b = 0; b < sm->GetNBE(); ++b) { bnd.insert(sm->GetBdrElementEdgeIndex(b)); }
      std::vector<Array<int>> in; for (int e = 0; e < sm->GetNEdges(); ++e) { if (!bnd.count(e) && g.coin(0.6)) { Array<int> v; sm->GetEdgeVertices(e, v); in.push_back(v); } }
      std::unique_ptr<Mesh> m(new Mesh(2, sm->GetNV(), sm->GetNE(), sm->GetNBE() + int(in.size()), 2));
      for (int i = 0; i < sm->GetNV(); ++i) { m->AddVertex(sm->GetVertex(i)); }
      for (int i = 0; i < sm->GetNE(); ++i) { Array<int> v; sm->GetElementVertices(i, v); if (v.Size() == 3) { m->AddTriangle(v.GetData(), 1); } else { m->AddQuad(v.GetData(), 1); } }
      for (int b = 0; b < sm->GetNBE(); ++b) { Array<int> v; sm->GetBdrElementVertices(b, v); m->AddBdrSegment(v.GetData(), 1); }
      for (auto &v : in) { m->AddBdrSegment(v.GetData(), 1); }
      m->FinalizeTopology(); m->Finalize(false, false); sm = std::move(m); internal = !in.empty();
   }
   /// a field of random true values in [a, b]: "h1", "l2", "nd" or "rt"
   FiniteElementState &add(const std::string &name, const std::string &kind, int order, double a = -1, double b = 1, int vdim = 1)
   {
      FiniteElementState::Options o; o.order = order; o.name = name; o.num_states = vdim;
      if (kind == "l2") { o.coll.reset(new L2_FECollection(order, dim)); } else if (kind == "nd") { o.coll.reset(new ND_FECollection(order, dim)); } else if (kind == "rt") { o.coll.reset(new RT_FECollection(order - 1, dim)); } else { o.coll.reset(new H1_FECollection(order, dim)); }
      fields.emplace(std::piecewise_construct, std::forward_as_tuple(name), std::forward_as_tuple(*mesh, std::move(o)));
      auto &f = fields.at(name); tv[name] = rvec(g, f.space().GetTrueVSize(), a, b); f.distributeSharedDofs(tv[name]); return f;
   }
   void randomize(const std::string &n, double a = -1, double b = 1) { tv[n] = rvec(g, tv[n].Size(), a, b); fields.at(n).distributeSharedDofs(tv[n]); }
   FiniteElementState &at(const std::string &n) { return fields.at(n); }
   MISOInputs inputs() { MISOInputs in; for (auto &p : tv) { in.emplace(p.first, p.second); } for (auto &p : sc) { in.emplace(p.first, p.second); } return in; }
   /// bring every field to its current true values (the reference reads fields)
   void sync() { for (auto &p : tv) { if (fields.count(p.first)) { fields.at(p.first).distributeSharedDofs(p.second); } } }
   /// attributes, at least one of which some element (or boundary element) has
   std::vector<int> bmarks() { return pick(mesh->bdr_attributes, nb); }
   std::vector<int> emarks() { return pick(mesh->attributes, na); }
   std::vector<int> pick(const Array<int> &have, int n) { std::vector<int> r{have[g.irand(0, have.Size() - 1)]}; for (int i = 1; i <= n; ++i) { if (i != r[0] && g.coin()) { r.push_back(i); } } return r; }
   /// a direction in the named field, small for node coordinates
   Vector direction(const std::string &n) { double s = n == "mesh_coords" ? 2 * hmesh : 1.0; return rvec(g, tv[n].Size(), -s, s); }
   /// f(value of the input n moved by s along d)
   template <class F> auto moved(const std::string &n, const Vector &d, F f) { return [this, n, &d, f](double s) { Vector k(tv[n]); tv[n].Add(s, d); sync(); double v = f(); tv[n] = k; sync(); return v; }; }
   template <class F> auto moved(const std::string &n, F f, double size = 1) { return [this, n, f, size](double s) { double k = sc[n]; sc[n] += s * size; double v = f(); sc[n] = k; return v; }; }
   /// sum over (marked) elements of f at the points of the rule of the order order(el, T)
   template <class O, class F> double integrate(FiniteElementState &on, const std::vector<int> &m, O &&order, F &&f)
   {
      double s = 0; sync();
      for (int e = 0; e < mesh->GetNE(); ++e)
      {
         if (!m.empty() && std::find(m.begin(), m.end(), mesh->GetAttribute(e)) == m.end()) { continue; }
         auto &T = *mesh->GetElementTransformation(e); auto &el = *on.space().GetFE(e); auto &ir = IntRules.Get(el.GetGeomType(), order(el, T));
         for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); double w = ip.weight * T.Weight(); s += w * f(T, ip); }
      }
      return s;
   }
   double val(const std::string &n, ElementTransformation &T) { return at(n).gridFunc().GetValue(T, T.GetIntPoint()); }
   Vector vval(const std::string &n, ElementTransformation &T) { Vector v; at(n).gridFunc().GetVectorValue(T, T.GetIntPoint(), v); return v; }
   Vector grad(const std::string &n, ElementTransformation &T) { Vector v; at(n).gridFunc().GetGradient(T, v); return v; }
   Vector curl(const std::string &n, ElementTransformation &T) { Vector v; at(n).gridFunc().GetCurl(T, v); return v; }
   /// |curl A|: of an edge field in 3-D, of the out-of-plane potential in 2-D
   double bmag(const std::string &n, ElementTransformation &T) { return dim == 3 ? curl(n, T).Norml2() : grad(n, T).Norml2(); }
};
/// rule orders the integrators document
inline int ord_curl(const FiniteElement &el, ElementTransformation &) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - 2 : 2 * el.GetOrder(); }

/// derivatives of a scalar output: partials with respect to fields and scalars,
/// forward and transposed products, accumulation, agreement of all of them
template <class Out> void output(Env &E, Out &O, const std::vector<std::string> &wrt, double expect, bool has_expect = true, double vtol = 1e-11)
{
   auto &c = E.c; auto &g = E.g; MISOInputs in = E.inputs(); double v = calcOutput(O, in), f = std::max(std::fabs(v), 1e-8);
   if (has_expect) { c.rel(v, expect, vtol, 1e-13, "value"); }
   c.check(std::isfinite(v), "value-is-finite");
   auto value = [&] { MISOInputs i2 = E.inputs(); return double(calcOutput(O, i2)); };
   for (auto &w : wrt)
   {
      if (E.tv.count(w))
      {
         Vector d = E.direction(w), b0 = rvec(g, d.Size(), -f, f), b(b0), s(1); s(0) = g.uni(0.5, 2) * (g.coin() ? 1 : -1);
         MISOInputs i2 = E.inputs(); calcOutput(O, i2); setInputs(O, i2); vectorJacobianProduct(O, s, w, b); b -= b0; double bd = (b * d) / s(0);
         derivative(c, bd, E.moved(w, d, value), "transposed-product-wrt-" + w, f); MISOInputs i3 = E.inputs(); calcOutput(O, i3); setInputs(O, i3);
         if (d.Size() > 1) { c.rel(jacobianVectorProduct(O, d, w), bd, 1e-9, 1e-9 * f * (1 + norm(b) * norm(d) / f), "products-agree-wrt-" + w); }
      }
   }
   MISOInputs i4 = E.inputs(); c.rel(calcOutput(O, i4), v, 1e-12, 1e-13, "value-is-repeatable");
}
}  // namespace ic
#endif
