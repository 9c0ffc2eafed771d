// C10: irrotational / divergence-free projections of edge-element fields.
#include "mfem.hpp"
#include "div_free_projector.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
using namespace vh;
using namespace mfem;

static void fill(Rng &g, Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = g.uni(-1, 1); } }
static double dot(const Vector &a, const Vector &b) { return a * b; }

template <class OP> void rev(OP &op, const Vector &x, const Vector &p, const char *w, Vector &o)
{ op.vectorJacobianProduct(x, p, w, o); }

static void body(Case &c)
{
   auto &g = c.rng; int kind = c.in("mesh", g.irand(0, 3)), p = c.in("degree", g.irand(1, kind < 2 ? 2 : 3));
   int dim = kind < 2 ? 3 : 2; std::unique_ptr<Mesh> sm;
   if (kind == 0 || kind == 2) { sm = vmesh::random_mesh(c, dim, dim == 3 ? 2 : 3); }
   else if (kind == 1) { sm.reset(new Mesh(Mesh::MakeCartesian3D(2, c.in("n", g.irand(1, 2)), 2, Element::HEXAHEDRON, 1, 1.3, 0.8))); }
   else { sm.reset(new Mesh(Mesh::MakeCartesian2D(3, c.in("n", g.irand(1, 3)), Element::QUADRILATERAL, true, 1, 1.4))); }
   ParMesh m(MPI_COMM_WORLD, *sm); m.EnsureNodes(); m.SetCurvature(c.in("geometry", g.irand(1, 2)), false, -1, Ordering::byVDIM);
   auto &xn = dynamic_cast<ParGridFunction &>(*m.GetNodes());
   auto warp = [&](double amp) { double w = g.uni(1, 3); VectorFunctionCoefficient f(dim, [&](const Vector &x, Vector &y) { for (int k = 0; k < dim; ++k) { y(k) = x(k) + amp * sin(w * x((k + 1) % dim) + k); } }); ParGridFunction y(xn); y.ProjectCoefficient(f); xn = y; m.NodesUpdated(); };
   if (g.coin(0.6)) { warp(0.06); }
   ND_FECollection nfec(p, dim); H1_FECollection hfec(p, dim);
   ParFiniteElementSpace nd(&m, &nfec), h1(&m, &hfec);
   int ir = h1.GetElementTransformation(0)->OrderW() + 2 * nd.GetFE(0)->GetOrder();
   miso::IrrotationalProjector irr(h1, nd, ir); miso::DivergenceFreeProjector dfp(h1, nd, ir);
   Array<int> ess, bdr(m.bdr_attributes.Max()); bdr = 1; h1.GetEssentialTrueDofs(bdr, ess);
   const IntegrationRule *rule = &IntRules.Get(m.GetElementBaseGeometry(0), ir);
   for (int pass = 0; pass < 2; ++pass)
   {
      if (pass == 1)
      {  // move the mesh; the operators must follow
         warp(0.05);
         miso::MISOInputs in; in.emplace("mesh_coords", xn);
         setInputs(irr, in); setInputs(dfp, in); c.count("mesh-moves");
      }
      ParGridFunction x(&nd), y(&nd), z(&nd); fill(g, x); if (pass == 0) { c.invec("x", x.GetData(), 3); }
      Vector x0(x); y = 5.0; z = -5.0;
      // a derivative may be the first thing asked of a projector or after a move; it must not wait for a projection to see the mesh
      ParGridFunction w1(&nd); fill(g, w1); int first[2] = {c.in("first-irr", g.irand(0, 2)), c.in("first-div", g.irand(0, 2))}; Vector early[2];
      auto reverse = [&](int op, int what, Vector &bar) { bar.SetSize(what == 1 ? nd.GetVSize() : xn.Size()); bar = 0.0; std::string n = what == 1 ? "in" : "mesh_coords"; if (what == 1) { ParGridFunction t(&nd); t = 0.0; if (op) { dfp.vectorJacobianProduct(x, w1, n, t); } else { irr.vectorJacobianProduct(x, w1, n, t); } bar = t; } else { ParGridFunction t(xn.ParFESpace()); t = 0.0; if (op) { dfp.vectorJacobianProduct(x, w1, n, t); } else { irr.vectorJacobianProduct(x, w1, n, t); } bar = t; } };
      for (int op = 0; op < 2; ++op) { if (first[op]) { reverse(op, first[op], early[op]); c.count("derivatives-asked-first"); } }
      irr.Mult(x, y); dfp.Mult(x, z);
      for (int op = 0; op < 2; ++op) { if (first[op]) { Vector late; reverse(op, first[op], late); double sl = late.Normlinf(); late -= early[op]; c.near(late.Normlinf(), 0, 1e-9 * (1e-3 + sl), op ? "divergence-free-derivative-asked-first" : "irrotational-derivative-asked-first"); } }
      double sc = x.Normlinf();
      { Vector d(x); d -= x0; c.check(d.Normlinf() == 0, "input-untouched"); }
      Vector s(y); s += z; s -= x; c.near(s.Normlinf(), 0, 1e-12 * (sc + y.Normlinf()), "parts-sum-to-the-field");
      // curl of the irrotational part vanishes
      double cn;
      if (dim == 3) { RT_FECollection rfec(p - 1, 3); ParFiniteElementSpace rt(&m, &rfec); miso::DiscreteCurlOperator curl(&nd, &rt); curl.Assemble(); curl.Finalize(); Vector cy(rt.GetVSize()); curl.Mult(y, cy); cn = cy.Normlinf(); }
      else { L2_FECollection lfec(p - 1, 2, BasisType::GaussLegendre, FiniteElement::INTEGRAL); ParFiniteElementSpace l2(&m, &lfec); ParDiscreteLinearOperator curl(&nd, &l2); curl.AddDomainInterpolator(new CurlInterpolator); curl.Assemble(); curl.Finalize(); Vector cy(l2.GetVSize()); curl.Mult(y, cy); cn = cy.Normlinf(); }
      c.near(cn, 0, 1e-10 * (1 + y.Normlinf()), "irrotational-part-is-curl-free");
      // the divergence-free part is orthogonal to every interior gradient
      ParMixedBilinearForm wd(&nd, &h1); { auto *w = new VectorFEWeakDivergenceIntegrator; w->SetIntRule(rule); wd.AddDomainIntegrator(w); } wd.Assemble(); wd.Finalize();
      Vector dv(h1.GetVSize()), dx(h1.GetVSize()); wd.Mult(z, dv); wd.Mult(x, dx);
      std::vector<bool> onb(h1.GetVSize(), false); for (int i : ess) { onb[i] = true; }
      double mx = 0; int nin = 0; for (int i = 0; i < dv.Size(); ++i) { if (!onb[i]) { mx = std::max(mx, fabs(dv(i))); ++nin; } }
      c.near(mx, 0, 1e-9 * (1e-12 + dx.Normlinf()), "divergence-free-part-orthogonal-to-gradients"); c.count("interior-test-functions", nin);
      // gradients of interior potentials are left alone; projections are idempotent
      ParGridFunction psi(&h1), gp(&nd), q(&nd); fill(g, psi); for (int i : ess) { psi(i) = 0; }
      miso::DiscreteGradOperator grad(&h1, &nd); grad.Assemble(); grad.Finalize(); grad.Mult(psi, gp);
      irr.Mult(gp, q); q -= gp; c.near(q.Normlinf(), 0, 1e-9 * (1 + gp.Normlinf()), "gradient-of-an-interior-potential-kept");
      irr.Mult(y, q); q -= y; c.near(q.Normlinf(), 0, 1e-9 * (1 + y.Normlinf()), "irrotational-projection-idempotent");
      dfp.Mult(z, q); q -= z; c.near(q.Normlinf(), 0, 1e-9 * (1 + z.Normlinf()), "divergence-free-projection-idempotent");
      // reverse mode in the field: adjoint of a linear map, accumulating
      for (int op = 0; op < 2; ++op)
      {
         ParGridFunction w(&nd), bar(&nd), v(&nd), out(&nd); fill(g, w); fill(g, v); fill(g, bar); Vector bar0(bar);
         if (op) { dfp.vectorJacobianProduct(x, w, "in", bar); dfp.Mult(v, out); } else { irr.vectorJacobianProduct(x, w, "in", bar); irr.Mult(v, out); }
         Vector d(bar); d -= bar0;
         c.near(dot(d, v), dot(w, out), 1e-8 * (fabs(dot(w, out)) + w.Norml2() * v.Norml2()), op ? "divergence-free-reverse-field" : "irrotational-reverse-field");
      }
      // reverse mode in the mesh against central differences
      if (g.coin(0.5))
      {
         int op = g.irand(0, 1); auto &mf = *xn.ParFESpace();
         ParGridFunction w(&nd), bar(&mf), v(&mf); fill(g, w); fill(g, bar);
         double wx = g.uni(1, 3), ph = g.uni(0, 6);
         VectorFunctionCoefficient vf(dim, [&](const Vector &x, Vector &y) { for (int k = 0; k < dim; ++k) { y(k) = cos(wx * x(k) + ph + k) * (1 + x((k + 1) % dim)); } }); v.ProjectCoefficient(vf);
         Vector bar0(bar);
         if (op) { dfp.vectorJacobianProduct(x, w, "mesh_coords", bar); } else { irr.vectorJacobianProduct(x, w, "mesh_coords", bar); }
         Vector d(bar); d -= bar0; double an = dot(d, v), f[4]; Vector X0(xn); const double h = 1e-3;
         static const double st[4] = {1, -1, 2, -2};
         miso::MISOInputs in; in.emplace("mesh_coords", xn);
         for (int k = 0; k < 4; ++k)
         {
            xn = X0; xn.Add(st[k] * h, v); m.NodesUpdated();
            ParGridFunction out(&nd); if (op) { setInputs(dfp, in); dfp.Mult(x, out); } else { setInputs(irr, in); irr.Mult(x, out); }
            f[k] = dot(w, out);
         }
         xn = X0; m.NodesUpdated(); setInputs(irr, in); setInputs(dfp, in);
         double fd = (8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * h), f2 = (f[0] - f[1]) / (2 * h);
         c.near(an, fd, 1e-7 * (fabs(an) + fabs(fd)) + 3e-2 * fabs(fd - f2) + 1e-8 * w.Norml2() * x.Norml2(), op ? "divergence-free-reverse-mesh" : "irrotational-reverse-mesh");
         c.count("mesh-derivatives");
      }
   }
   c.count("fields", 2);
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("projection", 200, body, 8);
   int rc = finish(); MPI_Finalize(); return rc;
}
