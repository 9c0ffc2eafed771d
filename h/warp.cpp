// Mesh warper: volume coordinates from surface coordinates by linear elasticity,
// its residual, products and adjoint (property C25).
#include "integcheck.hpp"
#include <fcntl.h>
#include <unistd.h>
#include "mesh_warper.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace ic;
struct Mute { Quiet q; int keep; Mute() { fflush(stdout); keep = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Mute() { fflush(stdout); dup2(keep, 1); close(keep); } };
/// the serial mesh of a case, with or without nodes of its own
static std::unique_ptr<Mesh> make(Case &c, int dim, int &order)
{
   auto &g = c.rng; bool tensor = c.in("tensor", g.coin(0.4)); std::unique_ptr<Mesh> sm;
   if (!tensor) { sm = vmesh::random_mesh(c, dim, dim == 2 ? 4 : 2); }
   else if (dim == 2) { sm.reset(new Mesh(Mesh::MakeCartesian2D(g.irand(1, 5), g.irand(1, 4), Element::QUADRILATERAL, true, g.uni(0.5, 2), g.uni(0.5, 2), false))); }
   else { sm.reset(new Mesh(Mesh::MakeCartesian3D(g.irand(1, 3), g.irand(1, 3), g.irand(2, 3), Element::HEXAHEDRON, g.uni(0.5, 2), g.uni(0.5, 2), g.uni(0.5, 2), false))); }
   int nb = g.irand(1, 4); for (int b = 0; b < sm->GetNBE(); ++b) { sm->GetBdrElement(b)->SetAttribute(g.irand(1, nb)); }
   for (int e = 0; e < sm->GetNE(); ++e) { sm->SetAttribute(e, g.irand(1, 3)); } sm->SetAttributes();
   order = c.in("order", g.coin(0.6) ? 1 : 2); double h = 1e300; for (int e = 0; e < sm->GetNE(); ++e) { h = std::min(h, sm->GetElementSize(e, 1)); }
   double amp = g.coin(0.2) ? 0 : g.uni(0.01, 0.08) * h / order;
   if (order > 1 || g.coin()) { sm->SetCurvature(order, false, dim, Ordering::byVDIM); auto &n = *sm->GetNodes(); for (int i = 0; i < n.Size(); ++i) { n(i) += amp * g.uni(-1, 1); } }
   else if (amp > 0) { for (int v = 0; v < sm->GetNV(); ++v) { for (int k = 0; k < dim; ++k) { sm->GetVertex(v)[k] += amp * g.uni(-1, 1); } } }
   return sm;
}
/// dense elasticity on the nodes of the mesh, boundary nodes apart
struct Ref
{
   std::unique_ptr<ParMesh> mesh; ParFiniteElementSpace *fes; int n, dim; Vector x0; DenseMatrix K, Eii; Array<int> bnd, inner; std::vector<char> isb;
   explicit Ref(Mesh &sm)
   {
      mesh.reset(new ParMesh(MPI_COMM_WORLD, sm)); mesh->EnsureNodes(); auto &nd = *dynamic_cast<ParGridFunction *>(mesh->GetNodes()); fes = nd.ParFESpace(); dim = mesh->Dimension(); nd.GetTrueDofs(x0); n = x0.Size(); K.SetSize(n); K = 0.0;
      for (int e = 0; e < mesh->GetNE(); ++e)
      {
         auto &T = *mesh->GetElementTransformation(e); auto &el = *fes->GetFE(e); int nd_ = el.GetDof(); DenseMatrix D(nd_, dim); Array<int> vd; fes->GetElementVDofs(e, vd); auto &ir = IntRules.Get(el.GetGeomType(), 2 * T.OrderGrad(&el));
         for (int p = 0; p < ir.GetNPoints(); ++p)
         {
            auto &ip = ir.IntPoint(p); T.SetIntPoint(&ip); double w = ip.weight * T.Weight(); el.CalcPhysDShape(T, D);
            for (int i = 0; i < nd_; ++i) { for (int j = 0; j < nd_; ++j) { double dot = 0; for (int k = 0; k < dim; ++k) { dot += D(i, k) * D(j, k); }
               for (int a = 0; a < dim; ++a) { for (int b = 0; b < dim; ++b) { K(vd[a * nd_ + i], vd[b * nd_ + j]) += w * (D(i, a) * D(j, b) + (a == b ? dot : 0) + D(i, b) * D(j, a)); } } } }
         }
      }
      isb.assign(n, 0); for (int b = 0; b < mesh->GetNBE(); ++b) { Array<int> vd; fes->GetBdrElementVDofs(b, vd); for (int v : vd) { isb[v] = 1; } }
      for (int i = 0; i < n; ++i) { (isb[i] ? bnd : inner).Append(i); }
      Eii.SetSize(inner.Size()); for (int i = 0; i < inner.Size(); ++i) { for (int j = 0; j < inner.Size(); ++j) { Eii(i, j) = K(inner[i], inner[j]); } } if (inner.Size()) { Eii.Invert(); }
   }
   /// interior rows of K (x - x0), surface rows x - surface
   Vector residual(const Vector &x, const Vector &surf) const { Vector d(x), r(n); d -= x0; K.Mult(d, r); for (int i = 0; i < bnd.Size(); ++i) { r(bnd[i]) = x(bnd[i]) - surf(i); } return r; }
   Vector extend(const Vector &surf) const
   {
      Vector x(x0), d(n), r(n); d = 0.0; for (int i = 0; i < bnd.Size(); ++i) { x(bnd[i]) = surf(i); d(bnd[i]) = surf(i) - x0(bnd[i]); }
      if (inner.Size()) { K.Mult(d, r); Vector b(inner.Size()), y(inner.Size()); for (int i = 0; i < b.Size(); ++i) { b(i) = r(inner[i]); } Eii.Mult(b, y); for (int i = 0; i < y.Size(); ++i) { x(inner[i]) = x0(inner[i]) - y(i); } }
      return x;
   }
   /// d (bar . x)/d surface
   Vector total(const Vector &bar, Vector *psi = nullptr) const
   {
      Vector s(bnd.Size()), p(n); p = 0.0; if (inner.Size()) { Vector b(inner.Size()), y(inner.Size()); for (int i = 0; i < b.Size(); ++i) { b(i) = bar(inner[i]); } Eii.MultTranspose(b, y); for (int i = 0; i < y.Size(); ++i) { p(inner[i]) = y(i); } }
      Vector kt(n); K.MultTranspose(p, kt); for (int i = 0; i < bnd.Size(); ++i) { s(i) = bar(bnd[i]) - kt(bnd[i]); p(bnd[i]) = s(i); } if (psi) { *psi = p; } return s;
   }
};
static json options(Case &c, const ParMesh &m, int order)
{
   auto &g = c.rng; json o = {{"silent", true}, {"print-options", false}, {"space-dis", {{"basis-type", g.coin() ? "h1" : "H1"}, {"degree", order}}},
      {"lin-solver", {{"type", "pcg"}, {"printlevel", -1}, {"maxiter", 400}, {"abstol", 1e-15}, {"reltol", 1e-15}}}, {"adj-solver", {{"type", "pcg"}, {"printlevel", -1}, {"maxiter", 400}, {"abstol", 1e-15}, {"reltol", 1e-15}}},
      {"nonlin-solver", {{"type", "newton"}, {"printlevel", -1}, {"maxiter", g.irand(1, 3)}, {"reltol", 1e-13}, {"abstol", 1e-13}}}, {"lin-prec", {{"printlevel", -1}}}};
   if (g.coin(0.6)) { o["bcs"]["essential"] = "all"; } else { std::vector<int> a; for (int i = 1; i <= m.bdr_attributes.Max(); ++i) { a.push_back(i); } o["bcs"]["essential"] = a; }
   if (g.coin(0.3)) { o["lin-solver"]["type"] = "gmres"; o["lin-solver"]["kdim"] = 400; c.count("gmres"); }
   return o;
}
static void warp(Case &c, int dim)
{
   auto &g = c.rng; Mute mute; int order; auto sm = make(c, dim, order); Ref R(*sm); if (R.n > 500) { c.trivial = true; return; }
   json o = options(c, *R.mesh, order); std::unique_ptr<Mesh> given(new Mesh(*sm)); miso::MeshWarper W(MPI_COMM_WORLD, o, std::move(given));
   // sizes, indices and initial coordinates
   int ns = R.bnd.Size(); c.check(W.getSurfaceCoordsSize() == ns, "surface-size"); c.check(W.getVolumeCoordsSize() == R.n, "volume-size"); c.check(W.getStateSize() == R.n && W.getFieldSize("state") == R.n, "state-size");
   Array<int> idx; W.getSurfCoordIndices(idx); bool same_idx = idx.Size() == ns; std::set<int> uniq; for (int i : idx) { same_idx = same_idx && i >= 0 && i < R.n && R.isb[i]; uniq.insert(i); }
   if (!c.check(same_idx && int(uniq.size()) == ns, "surface-indices")) { return; }
   R.bnd = idx;   // the order of the surface coordinates is the warper's
   Vector s0(ns), v0(R.n); W.getInitialSurfaceCoords(s0); W.getInitialVolumeCoords(v0); same(c, v0, R.x0, 1e-14, "initial-volume"); Vector sx(ns); for (int i = 0; i < ns; ++i) { sx(i) = R.x0(idx[i]); } same(c, s0, sx, 1e-14, "initial-surface");
   double L = norm(R.x0) + 1; int rounds = g.irand(1, 3); bool fresh = true;
   for (int round = 0; round < rounds; ++round)
   {
      // surfaces: unmoved, rigid or affine, or random
      int kind = c.in("kind", g.irand(0, 3)); Vector s(s0); DenseMatrix A(dim); Vector t(dim); A = 0.0; t = 0.0; Vector affine(R.x0);
      if (kind == 1 || kind == 2)
      {
         for (int i = 0; i < dim; ++i) { t(i) = g.uni(-1, 1); if (kind == 2) { for (int j = 0; j < dim; ++j) { A(i, j) = g.uni(-0.2, 0.2); } } }
         for (int k = 0; k < R.n / dim; ++k) { for (int i = 0; i < dim; ++i) { double d = t(i); for (int j = 0; j < dim; ++j) { d += A(i, j) * R.x0(k * dim + j); } affine(k * dim + i) += d; } }
         for (int i = 0; i < ns; ++i) { s(i) = affine(idx[i]); } c.count("affine-motions");
      }
      else if (kind == 3) { for (int i = 0; i < ns; ++i) { s(i) += g.uni(-0.3, 0.3); } c.count("random-motions"); } else { c.count("identities"); }
      Vector x(v0); if (g.coin(0.3)) { x = rvec(g, R.n, -1, 1); c.count("arbitrary-guesses"); } for (int i = 0; i < ns; ++i) { x(idx[i]) = s(i); }
      Vector expect = R.extend(s);
      // the residual of an arbitrary state
      {  Vector y = rvec(g, R.n), so = rvec(g, ns), r(R.n), e = R.residual(y, so); r = 1e9; MISOInputs in{{"surf_mesh_coords", so}, {"state", y}}; W.calcResidual(in, r); same(c, r, e, 1e-11, "residual"); c.rel(W.calcResidualNorm(in), e.Norml2(), 1e-11, 1e-12, "residual-norm"); c.count("residuals"); }
      if (g.coin()) { W.solveForState(x); } else { MISOInputs in{{"surf_mesh_coords", s}}; W.solveForState(in, x); }
      Vector xs(ns), got(ns); for (int i = 0; i < ns; ++i) { got(i) = x(idx[i]); } same(c, got, s, 1e-12, "surface-follows");
      same(c, x, expect, 1e-9, "extension"); if (kind <= 2) { same(c, x, affine, 1e-9, "affine"); } c.count("solves");
      {  MISOInputs in{{"surf_mesh_coords", s}, {"state", x}}; Vector r(R.n); W.calcResidual(in, r); c.check(norm(r) <= 1e-8 * L * (1 + R.K.MaxMaxNorm()), "solution-satisfies-residual"); W.getInitialVolumeCoords(v0); same(c, v0, R.x0, 1e-14, "initial-volume-kept"); }
      // products
      MISOInputs lin{{"surf_mesh_coords", s}, {"state", x}}; bool explicitly = fresh || g.coin(0.7); if (explicitly) { W.linearize(lin); } fresh = false;
      {
         Vector w = rvec(g, R.n), sd = rvec(g, ns), p = rvec(g, R.n), e(R.n), none(ns), y(R.n), y0 = rvec(g, R.n);
         R.K.Mult(w, e); for (int i = 0; i < ns; ++i) { e(idx[i]) = w(idx[i]); } y = y0; W.jacobianVectorProduct(w, "state", y); y -= y0; Vector yi(y), ei(e); same(c, yi, ei, 1e-10, "state-product");
         Vector b(R.n), b0 = rvec(g, R.n); b = b0; W.vectorJacobianProduct(p, "state", b); b -= b0; Vector pk(p), eb(R.n); for (int i = 0; i < ns; ++i) { pk(idx[i]) = 0; } R.K.MultTranspose(pk, eb); for (int i = 0; i < ns; ++i) { eb(idx[i]) += p(idx[i]); } same(c, b, eb, 1e-10, "transposed-state-product");
         y = y0; W.jacobianVectorProduct(sd, "surf_mesh_coords", y); y -= y0; e = 0.0; for (int i = 0; i < ns; ++i) { e(idx[i]) = -sd(i); } same(c, y, e, 1e-12, "surface-product");
         Vector sb(ns), sb0 = rvec(g, ns); sb = sb0; W.vectorJacobianProduct(p, "surf_mesh_coords", sb); sb -= sb0; Vector es(ns); for (int i = 0; i < ns; ++i) { es(i) = -p(idx[i]); } same(c, sb, es, 1e-12, "transposed-surface-product"); c.count("products");
      }
      // adjoint and total derivative
      {
         Vector bar = rvec(g, R.n), keep(bar), psi = rvec(g, R.n), ep; Vector et = R.total(bar, &ep); W.solveForAdjoint(lin, bar, psi); same(c, bar, keep, 0, "adjoint-keeps-its-right-hand-side"); same(c, psi, ep, 1e-8, "adjoint");
         Vector m(psi), tot(ns); m *= -1.0; tot = 0.0; W.vectorJacobianProduct(m, "surf_mesh_coords", tot); same(c, tot, et, 1e-8, "total-derivative"); c.count("adjoints");
         if (g.coin(0.3)) { Vector d = rvec(g, ns); auto J = [&](double h) { Vector z(v0); for (int i = 0; i < ns; ++i) { z(idx[i]) = s(i) + h * d(i); } W.solveForState(z); return bar * z; }; double dd = (J(0.1) - J(-0.1)) / 0.2; c.near(tot * d, dd, 1e-7 * (1 + norm(bar) * R.n), "total-derivative-of-solves"); c.count("resolved-derivatives"); }
      }
   }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   run("plane", 220, [](Case &c) { warp(c, 2); }); run("space", 60, [](Case &c) { warp(c, 3); });
   return finish();
}
