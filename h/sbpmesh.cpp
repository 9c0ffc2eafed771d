// C08: continuous and discontinuous SBP collections on arbitrary meshes.
#include "mfem.hpp"
#include "sbp_fe.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
using namespace vh;
using namespace mfem;
typedef long double ld;

struct Pt { double v[3]; };
static bool same(const Pt &a, const Pt &b)
{ double d = 0; for (int k = 0; k < 3; ++k) { d = std::max(d, fabs(a.v[k] - b.v[k])); } return d < 1e-10; }

static void conforming(Case &c)
{
   auto &g = c.rng;
   int w = g.irand(0, 11);
   int dim = w < 3 ? 1 : w < 8 ? 2 : 3;
   int p = c.in("degree", dim == 3 ? g.irand(0, 1) : g.irand(0, 4));
   c.in("dim", dim);
   auto mesh = vmesh::random_mesh(c, dim, 3);
   SBPCollection fec(p, dim);
   FiniteElementSpace fes(mesh.get(), &fec);
   int nd = fes.GetNDofs();
   c.count("dofs", nd);
   c.count(dim == 1 ? "line-meshes" : dim == 2 ? "triangle-meshes" : "tet-meshes");
   std::vector<Pt> pos(nd); std::vector<int> seen(nd, 0);
   Vector Hg(nd); Hg = 0.0;
   double vol = 0, vol2 = 0;
   std::vector<double> moment(dim, 0.0), deriv(dim * dim, 0.0), mref(dim, 0.0);
   Array<int> vd; IsoparametricTransformation tr;
   GridFunction u(&fes);
   double al[3] = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}, a0 = g.uni(-1, 1);
   for (int e = 0; e < mesh->GetNE(); ++e)
   {
      auto &fe = *dynamic_cast<const SBPFiniteElement *>(fes.GetFE(e));
      fes.GetElementDofs(e, vd);
      mesh->GetElementTransformation(e, &tr);
      c.check(vd.Size() == fe.GetDof(), "dof-count-of-an-element");
      if (vd.Size() != fe.GetDof()) { return; }
      vol += mesh->GetElementVolume(e);
      for (int i = 0; i < fe.GetDof(); ++i)
      {
         const IntegrationPoint &ip = fe.GetNodes().IntPoint(i);
         Vector x(pos[0].v, 3); double xb[3] = {0, 0, 0}; Vector xv(xb, dim);
         tr.SetIntPoint(&ip); tr.Transform(ip, xv);
         Pt q{{xb[0], xb[1], xb[2]}};
         int d = vd[i];
         if (d < 0 || d >= nd) { c.check(false, "dof-in-range"); return; }
         if (seen[d]) { c.check(same(q, pos[d]), "shared-dof-is-one-point-in-space", "dof " + std::to_string(d) + " element " + std::to_string(e) + " node " + std::to_string(i)); c.count("shared-dof-visits"); }
         pos[d] = q; seen[d] = 1;
         Hg(d) += fe.getDiagNormEntry(i) * tr.Weight();
      }
   }
   for (int i = 0; i < nd; ++i) { c.check(seen[i], "every-dof-belongs-to-an-element"); vol2 += Hg(i); }
   // no two dofs at one point: continuity
   std::vector<int> ord(nd); for (int i = 0; i < nd; ++i) { ord[i] = i; }
   std::sort(ord.begin(), ord.end(), [&](int a, int b) { return pos[a].v[0] < pos[b].v[0]; });
   for (int i = 0; i < nd; ++i)
   {
      for (int j = i + 1; j < nd && pos[ord[j]].v[0] - pos[ord[i]].v[0] < 1e-9; ++j)
      { c.check(!same(pos[ord[i]], pos[ord[j]]), "one-point-has-one-dof"); }
   }
   c.near(vol2, vol, 1e-12 * vol, "assembled-norm-is-the-volume");
   // boundary elements address the same points
   if (dim > 1)
   {
      for (int b = 0; b < mesh->GetNBE(); ++b)
      {
         const FiniteElement *be = fes.GetBE(b);
         fes.GetBdrElementDofs(b, vd);
         if (vd.Size() != be->GetDof()) { c.check(false, "boundary-dof-count"); break; }
         ElementTransformation *bt = mesh->GetBdrElementTransformation(b);
         for (int i = 0; i < be->GetDof(); ++i)
         {
            double xb[3] = {0, 0, 0}; Vector xv(xb, dim);
            bt->Transform(be->GetNodes().IntPoint(i), xv);
            Pt q{{xb[0], xb[1], xb[2]}};
            if (dim == 2) { c.check(same(q, pos[vd[i]]), p >= 3 ? "degree-" + std::to_string(p) + "-boundary-edge-node-order" : "boundary-dof-is-the-interior-dof", "boundary element " + std::to_string(b) + " node " + std::to_string(i)); c.count("boundary-dofs"); }
         }
      }
   }
   // sum_e 1^T Q_k u = integral of du/dx_k over the mesh, for linear u (p>=1)
   if (p >= 1)
   {
      std::vector<ld> s(dim, 0), r(dim, 0);
      for (int e = 0; e < mesh->GetNE(); ++e)
      {
         auto &fe = *dynamic_cast<const SBPFiniteElement *>(fes.GetFE(e));
         fes.GetElementDofs(e, vd); mesh->GetElementTransformation(e, &tr);
         int n = fe.GetDof(); std::vector<DenseMatrix> adj(n);
         for (int i = 0; i < n; ++i) { tr.SetIntPoint(&fe.GetNodes().IntPoint(i)); adj[i].SetSize(dim); CalcAdjugate(tr.Jacobian(), adj[i]); }
         for (int k = 0; k < dim; ++k)
         {
            for (int i = 0; i < n; ++i)
            {
               ld loc = 0;
               for (int j = 0; j < n; ++j)
               {
                  double v = a0; for (int q = 0; q < dim; ++q) { v += al[q] * pos[vd[j]].v[q]; }
                  loc += fe.getQEntry(k, i, j, adj[i], adj[j]) * v;
               }
               tr.SetIntPoint(&fe.GetNodes().IntPoint(i));
               c.near(loc, fe.getDiagNormEntry(i) * tr.Weight() * al[k], 1e-11, "physical-derivative-of-a-linear-field");
            }
         }
      }
   }
   // interpolated function values: polynomials of degree p are reproduced anywhere
   FunctionCoefficient f([&](const Vector &x) { double t = a0; for (int k = 0; k < dim; ++k) { t += al[k] * x(k); } double r = 1; for (int i = 0; i < p; ++i) { r *= t; } return r; });
   u.ProjectCoefficient(f);
   for (int i = 0; i < nd; ++i)
   {
      double t = a0, r = 1; for (int k = 0; k < dim; ++k) { t += al[k] * pos[i].v[k]; } for (int j = 0; j < p; ++j) { r *= t; }
      c.near(u(i), r, 1e-11, "nodal-projection");
   }
   for (int rep = 0; rep < 5; ++rep)
   {
      int e = g.irand(0, mesh->GetNE() - 1);
      IntegrationPoint ip; double y[3] = {g.u(), dim > 1 ? g.u() : 0, dim > 2 ? g.u() : 0}; double sum = y[0] + y[1] + y[2];
      if (dim > 1 && sum > 1) { for (double &v : y) { v /= sum + 0.05; } }
      ip.Set3(y); mesh->GetElementTransformation(e, &tr); tr.SetIntPoint(&ip);
      double val = u.GetValue(e, ip);
      c.near(val, f.Eval(tr, ip), 1e-10, "interpolant-reproduces-degree-p");
   }
}

static void discontinuous(Case &c)
{
   auto &g = c.rng;
   int p = c.in("degree", g.irand(0, 4));
   auto mesh = vmesh::random_mesh(c, 2, 3);
   DSBPCollection fec(p, 2);
   FiniteElementSpace fes(mesh.get(), &fec);
   static const int N[] = {3, 7, 12, 18, 27};
   c.check(fes.GetNDofs() == N[p] * mesh->GetNE(), "each-element-owns-its-dofs");
   std::vector<int> own(fes.GetNDofs(), 0);
   Array<int> vd; IsoparametricTransformation tr; double area = 0, ref = 0;
   for (int e = 0; e < mesh->GetNE(); ++e)
   {
      fes.GetElementDofs(e, vd); mesh->GetElementTransformation(e, &tr);
      auto &fe = *dynamic_cast<const SBPFiniteElement *>(fes.GetFE(e));
      if (!c.check(vd.Size() == fe.GetDof(), "dof-count-of-an-element")) { return; }
      for (int i = 0; i < vd.Size(); ++i)
      {
         own[vd[i]]++;
         tr.SetIntPoint(&fe.GetNodes().IntPoint(i));
         area += fe.getDiagNormEntry(i) * tr.Weight();
      }
      ref += mesh->GetElementVolume(e);
   }
   for (int i : own) { c.check(i == 1, "dof-owned-once"); }
   c.near(area, ref, 1e-12 * ref, "assembled-norm-is-the-volume");
   c.check(fec.TraceFiniteElementGeometry(Geometry::SEGMENT)->GetOrder() == p, "trace-order");
   // a degree-p projection reproduces polynomials elementwise
   double al[2] = {g.uni(-1, 1), g.uni(-1, 1)}, a0 = g.uni(-1, 1);
   FunctionCoefficient f([&](const Vector &x) { double t = a0 + al[0] * x(0) + al[1] * x(1), r = 1; for (int i = 0; i < p; ++i) { r *= t; } return r; });
   GridFunction u(&fes); u.ProjectCoefficient(f);
   for (int rep = 0; rep < 5; ++rep)
   {
      int e = g.irand(0, mesh->GetNE() - 1);
      IntegrationPoint ip; double a = g.u(), b = g.u(); if (a + b > 1) { a = 1 - a; b = 1 - b; }
      ip.Set2(a, b); mesh->GetElementTransformation(e, &tr); tr.SetIntPoint(&ip);
      c.near(u.GetValue(e, ip), f.Eval(tr, ip), 1e-10, "interpolant-reproduces-degree-p");
   }
   c.count("dg-meshes");
}

/// the element's dof order for every orientation of an edge maps nodes to nodes
static void orientation(Case &c)
{
   int p = c.in("degree", c.idx % 5); bool dg = c.in("discontinuous", c.idx >= 5);
   std::unique_ptr<FiniteElementCollection> fec;
   if (dg) { fec.reset(new DSBPCollection(p, 2)); } else { fec.reset(new SBPCollection(p, 2)); }
   static const int N[] = {3, 7, 12, 18, 27};
   SBPSegmentElement seg(p); SBPTriangleElement tri(p, N[p]); Vector x(N[p]); tri.getNodeCoords(0, x);
   if (p > 0) { Vector y(N[p]); tri.getNodeCoords(1, y); for (int i = 0; i < p; ++i) { c.near(y(3 + i), 0, 1e-14, "first-edge-nodes-come-first"); x(2 + i) = x(3 + i); } }
   const int *fw = fec->DofOrderForOrientation(Geometry::SEGMENT, 1), *bw = fec->DofOrderForOrientation(Geometry::SEGMENT, -1);
   c.check(seg.GetDof() == p + 2, "segment-node-count");
   for (int i = 0; i < p; ++i)
   {
      c.check(fw[i] == i, "forward-edge-keeps-the-order");
      if (bw[i] >= 0 && bw[i] < p) { c.near(x(2 + bw[i]), 1 - x(2 + i), 1e-13, "reversed-edge-mirrors-the-nodes"); }
      else { c.check(false, "reversed-edge-mirrors-the-nodes"); }
   }
   if (p == 0) { c.check(seg.GetDof() == 2, "segment-node-count"); }
}

int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("conforming", 400, conforming);
   run("discontinuous", 150, discontinuous);
   enumerate("orientation", 10, orientation);
   int rc = finish(); MPI_Finalize(); return rc;
}
