// C34: what the flow integrators' mesh-sensitivity counterparts assemble is the
// derivative of the adjoint-weighted residual with respect to every mesh node.
#include "mfem.hpp"
#include "adept.h"
#include "sbp_fe.hpp"
#include "euler_integ.hpp"
#include "euler_sens_integ.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
#include "eulerref.hpp"
using namespace vh;
using namespace mfem;
using namespace miso;
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : "mfem"); } void mfem_warning(const char *) {} }
static adept::Stack &stack() { static adept::Stack s; return s; }

template <int D, bool EV> static void sens(Case &c)
{
   auto &g = c.rng; const int ns = D + 2;
   int p = c.in("degree", D == 3 ? g.irand(0, 1) : g.irand(0, 4));
   auto mesh = vmesh::random_mesh(c, D, D == 3 ? 2 : 3);
   int curve = c.in("curvature", D > 1 && g.coin(0.5) ? g.irand(2, 3) : 1);
   bool byv = c.in("nodes-by-vdim", g.coin());
   mesh->SetCurvature(curve, false, D, byv ? Ordering::byVDIM : Ordering::byNODES);
   GridFunction &X = *mesh->GetNodes(); FiniteElementSpace &xs = *X.FESpace();
   if (curve > 1) { double h = 1e100; for (int e = 0; e < mesh->GetNE(); ++e) { h = std::min(h, mesh->GetElementSize(e, 1)); } for (int i = 0; i < X.Size(); ++i) { X(i) += 0.02 * h * g.uni(-1, 1); } }
   bool disc = c.in("discontinuous", D == 2 && g.coin(0.4));
   std::unique_ptr<FiniteElementCollection> fec; if (disc) { fec.reset(new DSBPCollection(p, D)); } else { fec.reset(new SBPCollection(p, D)); }
   FiniteElementSpace fes(mesh.get(), fec.get(), ns, Ordering::byVDIM);
   GridFunction u(&fes), psi(&fes);
   double spread = g.coin(0.3) ? 0.5 : 0.1;
   auto fill = [&]() {
      State<D> b = rstate<D>(g, 1.0); double p0 = double(ref::p<D>(b.ql));
      for (int i = 0; i < fes.GetNDofs(); ++i)
      {
         double q[ns], k = 0; q[0] = b.q[0] * (1 + spread * g.uni(-1, 1));
         for (int d = 0; d < D; ++d) { double v = b.q[d + 1] / b.q[0] + spread * g.uni(-1, 1); q[d + 1] = q[0] * v; k += v * v; }
         q[D + 1] = p0 * (1 + spread * g.uni(-1, 1)) / 0.4 + 0.5 * q[0] * k;
         L ql[ns], w[ns]; for (int s = 0; s < ns; ++s) { ql[s] = q[s]; } ref::W<D>(ql, w);
         for (int s = 0; s < ns; ++s) { u(fes.DofToVDof(i, s)) = EV ? double(w[s]) : q[s]; psi(fes.DofToVDof(i, s)) = g.uni(-1, 1); }
      } };
   fill();
   bool wall = c.in("wall", D > 1 && g.coin());
   double a = c.in("factor", g.coin(0.3) ? 1.0 : g.uni(-2, 2));
   Array<int> mark(mesh->bdr_attributes.Size() ? mesh->bdr_attributes.Max() : 0); mark = 1; bool some = wall && g.coin();
   if (some) { for (int &m : mark) { m = g.coin(); } mark[g.irand(0, mark.Size() - 1)] = 1; }
   auto &st = stack();
   NonlinearForm res(&fes);
   if (wall) { res.AddBdrFaceIntegrator(new SlipWallBC<D, EV>(st, fec.get(), a), mark); } else { res.AddDomainIntegrator(new IsmailRoeIntegrator<D, EV>(st, a)); }
   LinearForm dx(&xs);
   if (wall) { dx.AddBdrFaceIntegrator(new SlipWallBCMeshSens<D, EV>(st, u, psi, ns, a), mark); } else { dx.AddDomainIntegrator(new IsmailRoeMeshSensIntegrator<D, EV>(u, psi, ns, a)); }
   GridFunction x0(X); Vector r(fes.GetVSize());
   double size = 0;
   auto functional = [&](const Vector *v, double s) { X = x0; if (v) { X.Add(s, *v); } mesh->NodesUpdated(); res.Mult(u, r); size = 0; for (int i = 0; i < r.Size(); ++i) { size += fabs(r(i) * psi(i)); } double f = psi * r; X = x0; mesh->NodesUpdated(); return f; };
   double hm = 1e100; for (int e = 0; e < mesh->GetNE(); ++e) { hm = std::min(hm, mesh->GetElementSize(e, 1)); }
   Vector first;
   int rounds = g.irand(1, 3);
   for (int k = 0; k < rounds; ++k)
   {
      if (k)
      {
         if (g.coin()) { fill(); c.count("new-states"); }
         else { for (int i = 0; i < X.Size(); ++i) { x0(i) += 0.02 * hm * g.uni(-1, 1); } X = x0; mesh->NodesUpdated(); c.count("moves"); }
      }
      Vector u0(u), p0(psi), xx(X); dx.Assemble();
      bool same = true; for (int i = 0; i < u.Size(); ++i) { same = same && u(i) == u0(i) && psi(i) == p0(i); } for (int i = 0; i < X.Size(); ++i) { same = same && X(i) == xx(i); }
      c.check(same, "inputs-untouched");
      if (!c.check(std::isfinite(dx.Normlinf()), "finite")) { return; }
      functional(nullptr, 0); double sz = size / hm;
      for (int t = 0; t < 3; ++t)
      {
         Vector v(X.Size()); for (int i = 0; i < v.Size(); ++i) { v(i) = g.uni(-1, 1); }
         if (t == 1) { int d = g.irand(0, D - 1); v = 0.0; for (int i = 0; i < xs.GetNDofs(); ++i) { v(xs.DofToVDof(i, d)) = 1; } }   // moved as a whole
         if (t == 2) { int j = g.irand(0, v.Size() - 1); v = 0.0; v(j) = 1; }
         double h = 0.02 * hm, d1 = (functional(&v, h) - functional(&v, -h)) / (2 * h), d2 = (functional(&v, h / 2) - functional(&v, -h / 2)) / h, d3 = (functional(&v, h / 4) - functional(&v, -h / 4)) / (h / 2);
         double e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3, fd = (16 * e2 - e1) / 15, sc = fabs(fd) + 1e-3 * sz + 1e-12;
         if (!(fabs(fd - e2) < 1e-7 * sc)) { c.count("rough-differences"); continue; }
         c.near(dx * v, fd, 1e-6 * sc, wall ? "wall-derivative" : "volume-derivative"); c.count("derivatives");
         if (t == 1) { c.near(dx * v, 0, 1e-9 * (sz * 10 + dx.Normlinf() * v.Size() + 1e-12), "unchanged-when-moved-as-a-whole"); }
      }
   }
   c.count((wall ? "walls-" : "volumes-") + std::to_string(D) + "d" + (EV ? "-entropy" : "")); if (some) { c.count("some-boundaries"); } if (curve > 1) { c.count("curved"); } if (disc) { c.count("broken"); }
   // the boundary form must be used on faces
   if (wall && g.coin(0.2))
   {
      LinearForm b(&xs); b.AddBoundaryIntegrator(new SlipWallBCMeshSens<D, EV>(st, u, psi, ns, a)); bool refused = false;
      try { b.Assemble(); } catch (const MISOException &) { refused = true; }
      c.check(refused, "not-a-plain-boundary-form"); c.count("refusals");
   }
}
template <int D> static void pick(Case &c) { if (c.in("entropy-variables", c.rng.coin())) { sens<D, true>(c); } else { sens<D, false>(c); } }
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv); stack();
   run("sens", 2000, [](Case &c) { int d = c.in("dim", c.rng.coin(0.15) ? 1 : c.rng.irand(2, 3)); if (d == 1) { pick<1>(c); } else if (d == 2) { pick<2>(c); } else { pick<3>(c); } });
   int rc = finish(); MPI_Finalize(); return rc;
}
