// Random meshes: arbitrary vertex numbering, arbitrary element vertex order
// (hence every edge/face orientation), perturbed vertices, random attributes.
#ifndef VMESH_HPP
#define VMESH_HPP
#include "mfem.hpp"
#include "vh.hpp"
#include <memory>
namespace vmesh
{
using namespace mfem;
/// simplex mesh of a box with about n cells per direction
inline std::unique_ptr<Mesh> random_mesh(vh::Case &c, int dim, int nmax, bool perturb = true)
{
   auto &g = c.rng;
   int nx = c.in("nx", g.irand(1, dim == 1 ? 6 : nmax)), ny = dim > 1 ? c.in("ny", g.irand(1, nmax)) : 1,
       nz = dim > 2 ? c.in("nz", g.irand(1, std::min(nmax, 2))) : 1;
   double lx = c.in("lx", g.uni(0.5, 2)), ly = g.uni(0.5, 2), lz = g.uni(0.5, 2);
   Mesh base = dim == 1 ? Mesh::MakeCartesian1D(nx, lx)
             : dim == 2 ? Mesh::MakeCartesian2D(nx, ny, Element::TRIANGLE, true, lx, ly, false)
             : Mesh::MakeCartesian3D(nx, ny, nz, Element::TETRAHEDRON, lx, ly, lz, false);
   int nv = base.GetNV();
   std::vector<int> perm(nv); for (int i = 0; i < nv; ++i) { perm[i] = i; }
   for (int i = nv - 1; i > 0; --i) { std::swap(perm[i], perm[g.irand(0, i)]); }
   std::vector<std::array<double, 3>> X(nv);
   double L[3] = {lx, ly, lz}; int N[3] = {nx, ny, nz};
   // shear + interior perturbation
   double sh = perturb ? g.uni(-0.3, 0.3) : 0;
   for (int i = 0; i < nv; ++i)
   {
      const double *v = base.GetVertex(i); std::array<double, 3> x{0, 0, 0};
      for (int k = 0; k < dim; ++k)
      {
         x[k] = v[k];
         bool in = true; for (int q = 0; q < dim; ++q) { if (v[q] < 1e-12 || v[q] > L[q] - 1e-12) { in = false; } }
         double amp = dim == 3 ? 0.08 : 0.15;
         if (perturb && in) { x[k] += amp * g.uni(-1, 1) * L[k] / N[k]; }
      }
      if (dim > 1) { x[0] += sh * x[1]; }
      X[perm[i]] = x;
   }
   auto m = std::make_unique<Mesh>(dim, nv, base.GetNE(), base.GetNBE(), dim);
   for (int i = 0; i < nv; ++i) { m->AddVertex(X[i].data()); }
   std::vector<int> eo(base.GetNE()); for (size_t i = 0; i < eo.size(); ++i) { eo[i] = i; }
   for (int i = (int)eo.size() - 1; i > 0; --i) { std::swap(eo[i], eo[g.irand(0, i)]); }
   for (int e : eo)
   {
      Array<int> v; base.GetElementVertices(e, v);
      std::vector<int> q; for (int i = 0; i < v.Size(); ++i) { q.push_back(perm[v[i]]); }
      if (dim == 2) { int r = g.irand(0, 2); std::rotate(q.begin(), q.begin() + r, q.end()); }
      if (dim == 3)
      {  // a random even permutation keeps the orientation
         for (int k = 0; k < 3; ++k) { int a = g.irand(0, 3), b = g.irand(0, 3), d = g.irand(0, 3); if (a != b && b != d && a != d) { int t = q[a]; q[a] = q[b]; q[b] = q[d]; q[d] = t; } }
      }
      int attr = g.irand(1, 3);
      if (dim == 1) { m->AddSegment(q.data(), attr); }
      else if (dim == 2) { m->AddTriangle(q.data(), attr); }
      else { m->AddTet(q.data(), attr); }
   }
   for (int b = 0; b < base.GetNBE(); ++b)
   {
      Array<int> v; base.GetBdrElementVertices(b, v);
      std::vector<int> q; for (int i = 0; i < v.Size(); ++i) { q.push_back(perm[v[i]]); }
      int attr = base.GetBdrAttribute(b);
      if (dim == 1) { m->AddBdrPoint(q[0], attr); }
      else if (dim == 2) { m->AddBdrSegment(q.data(), attr); }
      else { m->AddBdrTriangle(q.data(), attr); }
   }
   if (dim == 1) { m->FinalizeTopology(); m->Finalize(false, false); }
   else if (dim == 2) { m->FinalizeTriMesh(1, 0, true); }
   else { m->FinalizeTetMesh(1, 0, true); }
   return m;
}
}
#endif
