// C09: diagonal mass matrix.
#include "mfem.hpp"
#include "sbp_fe.hpp"
#include "diag_mass_integ.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
using namespace vh;
using namespace mfem;

/// high-order geometry: move the nodes smoothly
static void curve(Case &c, Mesh &m, int order)
{
   auto &g = c.rng; int dim = m.Dimension(); double a = g.uni(0, 0.06), w = g.uni(1, 2.5);
   m.SetCurvature(order);
   VectorFunctionCoefficient f(dim, [&](const Vector &x, Vector &y) { y = x; for (int k = 0; k < dim; ++k) { y(k) += a * sin(w * x((k + 1) % dim) + k); } });
   GridFunction y(m.GetNodes()->FESpace()); y.ProjectCoefficient(f); *m.GetNodes() = y;
}

static void mass(Case &c)
{
   auto &g = c.rng;
   int dim = c.in("dim", g.irand(1, 3)), p = c.in("degree", dim == 3 ? g.irand(0, 1) : g.irand(0, 4)), ns = c.in("states", g.irand(1, 5));
   bool vary = c.in("local-time-step", g.coin());
   auto mesh = vmesh::random_mesh(c, dim, 2);
   bool curved = dim > 1 && c.in("curved", g.coin(0.4));
   if (curved) { curve(c, *mesh, 2); }
   SBPCollection fec(p, dim);
   FiniteElementSpace fes(mesh.get(), &fec, ns, Ordering::byVDIM);
   miso::DiagMassIntegrator di(ns, vary);
   IsoparametricTransformation tr; DenseMatrix M; double tot = 0, vol = 0;
   for (int e = 0; e < mesh->GetNE(); ++e)
   {
      auto &fe = *dynamic_cast<const SBPFiniteElement *>(fes.GetFE(e)); int n = fe.GetDof();
      mesh->GetElementTransformation(e, &tr);
      M.SetSize(3); M = 9.0;    // stale contents must not survive
      di.AssembleElementMatrix(fe, tr, M);
      if (!c.check(M.Height() == n * ns && M.Width() == n * ns, "size")) { return; }
      for (int i = 0; i < n * ns; ++i)
      {
         const IntegrationPoint &ip = fe.GetNodes().IntPoint(i % n);
         DenseMatrix J; tr.SetIntPoint(&ip); J = tr.Jacobian();
         double det = J.Det(), ex = fe.getDiagNormEntry(i % n) * det / (vary ? pow(det, 1.0 / dim) : 1.0);
         for (int j = 0; j < n * ns; ++j) { if (i != j) { c.check(M(i, j) == 0, "diagonal"); } }
         c.near(M(i, i), ex, 1e-13 * fabs(ex), "entry-is-norm-times-jacobian", "entry " + std::to_string(i));
         c.check(M(i, i) > 0, "positive");
         if (i < n) { tot += M(i, i); }
      }
      vol += mesh->GetElementVolume(e);
   }
   if (!vary && !curved) { c.near(tot, vol, 1e-12 * vol, "measures-the-volume"); }
   // assembled over the mesh: a diagonal global matrix, per state
   BilinearForm bf(&fes); bf.AddDomainIntegrator(vary ? new miso::DiagMassIntegrator(ns, true) : ns > 1 ? new miso::DiagMassIntegrator(ns) : new miso::DiagMassIntegrator()); bf.Assemble(); bf.Finalize();
   const SparseMatrix &A = bf.SpMat(); double off = 0, s0 = 0; std::vector<double> sum(ns, 0);
   for (int i = 0; i < A.Height(); ++i)
   {
      for (int k = A.GetI()[i]; k < A.GetI()[i + 1]; ++k)
      { if (A.GetJ()[k] != i) { off = std::max(off, fabs(A.GetData()[k])); } else { sum[i % ns] += A.GetData()[k]; } }
   }
   c.check(off == 0, "assembled-matrix-diagonal");
   for (int s = 0; s < ns; ++s) { c.near(sum[s], tot, 1e-12 * tot, "every-state-has-the-same-mass"); }
   c.count("mass-matrices"); if (curved) { c.count("curved-meshes"); } if (vary) { c.count("local-time-step"); }
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("mass", 400, mass);
   int rc = finish(); MPI_Finalize(); return rc;
}
