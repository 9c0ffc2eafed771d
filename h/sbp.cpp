// C07 (operators), C08 (collections on meshes): summation-by-parts elements.
#include "mfem.hpp"
#include "sbp_fe.hpp"
#include "vh.hpp"
using namespace vh;
using namespace mfem;
typedef long double ld;

static SBPFiniteElement *make(int dim, int p)
{
   static const int tri[] = {3, 7, 12, 18, 27}, tet[] = {4, 14};
   if (dim == 1) { return new SBPSegmentElement(p); }
   if (dim == 2) { return new SBPTriangleElement(p, tri[p]); }
   return new SBPTetrahedronElement(p, tet[p]);
}
static const int DIMS[12] = {1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3}, DEGS[12] = {0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 0, 1};

static ld fact(int n) { ld r = 1; for (int i = 2; i <= n; ++i) { r *= i; } return r; }
static ld mono_int(int dim, const int *e)
{
   int s = dim; ld r = 1;
   for (int d = 0; d < dim; ++d) { r *= fact(e[d]); s += e[d]; }
   return r / fact(s);
}
/// integral over the boundary of the reference element of x^e n_di
static ld mono_bdr(int dim, const int *e, int di)
{
   // divergence theorem: = integral of d/dx_di x^e
   if (e[di] == 0) { return 0; }
   int f[3] = {e[0], dim > 1 ? e[1] : 0, dim > 2 ? e[2] : 0};
   f[di] -= 1;
   return e[di] * mono_int(dim, f);
}
static std::vector<std::array<int, 3>> monos(int dim, int p)
{
   std::vector<std::array<int, 3>> r;
   for (int a = 0; a <= p; ++a) { for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b) { for (int c = 0; c <= (dim > 2 ? p - a - b : 0); ++c) { r.push_back({a, b, c}); } } }
   return r;
}
static ld ev(const std::array<int, 3> &e, const double *x, int dim)
{ ld r = 1; for (int d = 0; d < dim; ++d) { r *= powl(x[d], e[d]); } return r; }

struct Ops
{
   std::unique_ptr<SBPFiniteElement> fe;
   int dim, p, n;
   std::vector<std::array<double, 3>> x;
   std::vector<DenseMatrix> Q;
   Ops(int d, int pp) : fe(make(d, pp)), dim(d), p(pp), n(fe->GetDof()), x(n), Q(d)
   {
      for (int k = 0; k < dim; ++k)
      {
         Vector c(n); fe->getNodeCoords(k, c);
         for (int i = 0; i < n; ++i) { x[i][k] = c(i); }
         Q[k].SetSize(n);
         fe->getWeakOperator(k, Q[k]);
      }
   }
};

static void operators(Case &c)
{
   int dim = c.in("dim", DIMS[c.idx]), p = c.in("degree", DEGS[c.idx]);
   Ops o(dim, p); int n = o.n; auto &fe = *o.fe;
   const double T = 5e-13;
   const Vector &H = fe.returnDiagNorm();
   c.check(H.Size() == n && fe.GetOrder() == p && fe.GetDim() == dim, "sizes");
   for (int i = 0; i < n; ++i)
   {
      c.check(H(i) > 0, "norm-positive");
      c.check(fe.getDiagNormEntry(i) == H(i), "norm-entry");
      double s = 0; bool in = true;
      for (int k = 0; k < dim; ++k) { s += o.x[i][k]; in = in && o.x[i][k] >= -1e-15; }
      c.check(in && s <= 1 + 1e-14, "node-inside-reference-element");
      const IntegrationPoint &ip = fe.GetNodes().IntPoint(i);
      double q[3] = {ip.x, ip.y, ip.z};
      for (int k = 0; k < dim; ++k) { c.near(q[k], o.x[i][k], 1e-15, "node-coordinates-agree"); }
      IntegrationPoint ip2 = ip;
      c.check(fe.getIntegrationPointIndex(ip2) == i, "node-lookup");
   }
   // quadrature
   for (auto &e : monos(dim, std::max(2 * p - 1, 0)))
   {
      ld s = 0; for (int i = 0; i < n; ++i) { s += (ld)H(i) * ev(e, o.x[i].data(), dim); }
      c.near(s, mono_int(dim, e.data()), T, "norm-is-a-degree-2p-1-quadrature");
   }
   for (int k = 0; k < dim; ++k)
   {
      // accuracy of the derivative
      for (auto &e : monos(dim, p))
      {
         for (int i = 0; i < n; ++i)
         {
            ld s = 0; for (int j = 0; j < n; ++j) { s += (ld)o.Q[k](i, j) * ev(e, o.x[j].data(), dim); }
            ld ex = 0;
            if (e[k] > 0) { auto f = e; f[k]--; ex = e[k] * ev(f, o.x[i].data(), dim); }
            c.near(s / H(i), ex, 2e-11, "derivative-exact-for-degree-p", "node " + std::to_string(i));
         }
      }
      // the boundary operator E = Q + Q^T
      for (int i = 0; i < n; ++i)
      {
         bool bdr = false; double s = 0;
         for (int d = 0; d < dim; ++d) { s += o.x[i][d]; if (fabs(o.x[i][d]) < 1e-13) { bdr = true; } }
         if (fabs(s - 1) < 1e-13) { bdr = true; }
         for (int j = 0; j < n; ++j)
         {
            double E = o.Q[k](i, j) + o.Q[k](j, i);
            // (the degree-0 triangle is reported under its own name)
            const char *nm = dim == 2 && p == 0 && i != j && bdr ? "degree-0-triangle-boundary-operator-not-diagonal" : "boundary-operator-diagonal-and-on-boundary";
            if (i != j || !bdr) { c.near(E, 0, T, nm, std::to_string(i) + "," + std::to_string(j)); }
            c.check(fe.getQ(k, i, j) == o.Q[k](i, j), "entry-accessor");
         }
      }
      for (auto &e : monos(dim, p))
      {
         for (auto &f : monos(dim, p))
         {
            ld s = 0;
            for (int i = 0; i < n; ++i) { s += 2 * (ld)o.Q[k](i, i) * ev(e, o.x[i].data(), dim) * ev(f, o.x[i].data(), dim); }
            int g[3] = {e[0] + f[0], e[1] + f[1], e[2] + f[2]};
            c.near(s, mono_bdr(dim, g, k), T, "boundary-operator-integrates-normal-flux");
         }
      }
      // every view of the operator agrees
      DenseMatrix QT(n), D(n), DT(n);
      fe.getWeakOperator(k, QT, true);
      fe.getStrongOperator(k, D);
      fe.getStrongOperator(k, DT, true);
      for (int i = 0; i < n; ++i)
      {
         Vector row; fe.getStrongOperator(k, i, row);
         for (int j = 0; j < n; ++j)
         {
            double q = o.Q[k](i, j), d = q / H(i);
            c.check(QT(j, i) == q, "transposed-weak-operator");
            c.near(D(i, j), d, 1e-14 * fabs(d), "strong-operator");
            c.near(DT(j, i), d, 1e-14 * fabs(d), "transposed-strong-operator");
            c.near(row(j), d, 1e-14 * fabs(d), "strong-operator-row");
         }
      }
   }
   c.count("elements");
}

static void products(Case &c)
{
   auto &g = c.rng;
   int w = g.irand(0, 11), dim = c.in("dim", DIMS[w]), p = c.in("degree", DEGS[w]), ns = c.in("states", g.irand(1, 5));
   Ops o(dim, p); int n = o.n; auto &fe = *o.fe; const Vector &H = fe.returnDiagNorm();
   DenseMatrix u(ns, n), v(ns, n);
   for (int i = 0; i < ns * n; ++i) { u.Data()[i] = g.uni(-2, 2); }
   c.invec("u", u.Data(), std::min(3, ns * n));
   fe.multNormMatrix(u, v);
   for (int i = 0; i < n; ++i) { for (int s = 0; s < ns; ++s) { c.near(v(s, i), H(i) * u(s, i), 1e-15, "norm-product"); } }
   fe.multNormMatrixInv(v, v);
   for (int i = 0; i < n; ++i) { for (int s = 0; s < ns; ++s) { c.near(v(s, i), u(s, i), 1e-14, "norm-inverse-undoes-norm"); } }
   for (int k = 0; k < dim; ++k)
   {
      DenseMatrix a(ns, n), b(ns, n);
      DenseMatrix a0(ns, n);
      for (int i = 0; i < ns * n; ++i) { a0.Data()[i] = g.uni(-1, 1); }
      a = a0; b = a0;
      fe.multWeakOperator(k, u, a);
      fe.multWeakOperator(k, u, b, true);
      for (int i = 0; i < n; ++i)
      {
         Vector qu(ns), du(ns); qu = 7.0; du = 7.0;
         fe.multWeakOperator(k, i, u, qu);
         fe.multStrongOperator(k, i, u, du);
         for (int s = 0; s < ns; ++s)
         {
            ld f = 0, t = 0, m = 1e-3;
            for (int j = 0; j < n; ++j) { f += (ld)o.Q[k](i, j) * u(s, j); t += (ld)o.Q[k](j, i) * u(s, j); m += fabs(o.Q[k](i, j)) + fabs(o.Q[k](j, i)); }
            c.near(a(s, i), a0(s, i) + f, 1e-13 * (1 + m), "weak-product-accumulates");
            c.near(b(s, i), a0(s, i) - t, 1e-13 * (1 + m), "negated-transposed-product-accumulates");
            c.near(qu(s), f, 1e-13 * (1 + m), "weak-product-at-a-node");
            c.near(du(s), f / H(i), 1e-13 * (1 + m) / H(i), "derivative-at-a-node");
         }
      }
   }
   // projection
   DenseMatrix P(n), Pu(ns, n), PTu(ns, n);
   fe.getProjOperator(P);
   fe.multProjOperator(u, Pu);
   fe.multProjOperator(u, PTu, true);
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j)
      {
         c.near(fe.getProjOperatorEntry(i, j), P(i, j), 2e-13, "filter-entry");
         c.near(H(i) * P(i, j), H(j) * P(j, i), 1e-13, "filter-self-adjoint-in-norm");
      }
      for (int s = 0; s < ns; ++s)
      {
         ld f = 0, t = 0;
         for (int j = 0; j < n; ++j) { f += (ld)P(i, j) * u(s, j); t += (ld)P(j, i) * u(s, j); }
         c.near(Pu(s, i), f, 1e-12, "filter-product");
         c.near(PTu(s, i), t, 1e-12, "transposed-filter-product");
      }
   }
   c.count("operator-products");
}

static void filter(Case &c)
{
   int dim = c.in("dim", DIMS[c.idx]), p = c.in("degree", DEGS[c.idx]);
   Ops o(dim, p); int n = o.n; auto &fe = *o.fe;
   DenseMatrix P(n); fe.getProjOperator(P);
   // removes every polynomial of degree p
   for (auto &e : monos(dim, p))
   {
      for (int i = 0; i < n; ++i)
      { ld s = 0; for (int j = 0; j < n; ++j) { s += (ld)P(i, j) * ev(e, o.x[j].data(), dim); } c.near(s, 0, 2e-12, "filter-annihilates-degree-p"); }
   }
   // its rank is what remains
   DenseMatrix PP(n); Mult(P, P, PP); PP -= P;
   c.near(PP.MaxMaxNorm(), 0, 2e-12, "filter-idempotent");
   double tr = 0; for (int i = 0; i < n; ++i) { tr += P(i, i); }
   c.near(tr, n - (int)monos(dim, p).size(), 1e-11, "filter-rank");
}

static void metric(Case &c)
{
   auto &g = c.rng;
   int w = g.irand(0, 11), dim = c.in("dim", DIMS[w]), p = c.in("degree", DEGS[w]);
   Ops o(dim, p); int n = o.n; auto &fe = *o.fe;
   DenseMatrix A(dim), B(dim);
   for (int i = 0; i < dim * dim; ++i) { A.Data()[i] = g.uni(-2, 2); B.Data()[i] = g.uni(-2, 2); }
   c.invec("adjJi", A.Data(), dim * dim); c.invec("adjJj", B.Data(), dim * dim);
   for (int rep = 0; rep < 10; ++rep)
   {
      int i = g.irand(0, n - 1), j = g.irand(0, n - 1), di = g.irand(0, dim - 1);
      ld s = 0, e = 0, q = 0;
      for (int k = 0; k < dim; ++k) { s += (ld)A(k, di) * o.Q[k](i, j) - (ld)B(k, di) * o.Q[k](j, i); e += (ld)A(k, di) * o.Q[k](i, i); }
      c.near(fe.getSkewEntry(di, i, j, A, B), s, 1e-14, "skew-entry");
      c.near(fe.getSkewEntry(di, j, i, B, A), -s, 1e-14, "skew-entry-antisymmetric");
      c.near(fe.getSymEntry(di, i, A), e, 1e-14, "symmetric-entry");
      q = i == j ? e : s / 2;
      c.near(fe.getQEntry(di, i, j, A, i == j ? A : B), q, 1e-14, "physical-operator-entry");
      // reverse mode against a difference of the (linear) primal
      DenseMatrix Ab(dim), Bb(dim); double bar = g.uni(-2, 2);
      for (int k = 0; k < dim * dim; ++k) { Ab.Data()[k] = k + 1; Bb.Data()[k] = -k; }
      fe.getSkewEntryRevDiff(di, i, j, bar, Ab, Bb);
      for (int k = 0; k < dim * dim; ++k)
      {
         DenseMatrix A1(A), B1(B); A1.Data()[k] += 1; B1.Data()[k] += 1;
         c.near(Ab.Data()[k], k + 1 + bar * (fe.getSkewEntry(di, i, j, A1, B) - s), 2e-13, "reverse-derivative-left");
         c.near(Bb.Data()[k], -k + bar * (fe.getSkewEntry(di, i, j, A, B1) - s), 2e-13, "reverse-derivative-right");
      }
   }
   // affine maps: the physical operator differentiates linear fields exactly
   for (int di = 0; di < dim; ++di)
   {
      for (int i = 0; i < n; ++i)
      {
         ld s = 0, ex = 0; double al[3] = {0.3, -0.7, 0.5};
         for (int j = 0; j < n; ++j)
         { ld v = 0.2; if (p > 0) { for (int k = 0; k < dim; ++k) { v += al[k] * o.x[j][k]; } } s += fe.getQEntry(di, i, j, A, A) * v; }
         if (p > 0) { for (int k = 0; k < dim; ++k) { ex += A(k, di) * al[k]; } }
         // Q_phys u + (boundary part is inside the diagonal): sum_j Q_ij v_j = H_i dv
         c.near(s, ex * fe.getDiagNormEntry(i), 2e-12, dim == 2 && p == 0 ? "degree-0-triangle-derivative-inexact" : "constant-metric-derivative");
      }
   }
   c.count("metric-entries", 10);
}

static void shapes(Case &c)
{
   auto &g = c.rng;
   int w = c.idx % 12, dim = c.in("dim", DIMS[w]), p = c.in("degree", DEGS[w]);
   Ops o(dim, p); int n = o.n; auto &fe = *o.fe;
   Vector sh(n);
   // at the nodes
   int i = g.irand(0, n - 1); c.in("node", i);
   fe.CalcShape(fe.GetNodes().IntPoint(i), sh);
   for (int j = 0; j < n; ++j) { c.check(sh(j) == (i == j), "kronecker-at-nodes"); }
   DenseMatrix dsh(n, dim);
   fe.CalcDShape(fe.GetNodes().IntPoint(i), dsh);
   for (int k = 0; k < dim; ++k)
   {
      for (int j = 0; j < n; ++j)
      { double d = o.Q[k](i, j) / fe.getDiagNormEntry(i); c.near(dsh(j, k), d, 1e-13 * (1 + fabs(d)), "shape-derivatives-are-the-derivative-operator", "node " + std::to_string(i)); }
   }
   // anywhere else: reproduces polynomials of degree p
   IntegrationPoint ip; double y[3] = {g.u(), dim > 1 ? g.u() : 0, dim > 2 ? g.u() : 0};
   double sum = y[0] + y[1] + y[2];
   if (dim > 1 && sum > 1) { for (double &v : y) { v /= (sum + 0.05); } }
   if (g.coin(0.2)) { y[g.irand(0, dim - 1)] = 0.0; }
   ip.Set3(y[0], dim > 1 ? y[1] : 0, dim > 2 ? y[2] : 0);
   c.invec("point", y, dim);
   fe.CalcShape(ip, sh);
   for (auto &e : monos(dim, p))
   {
      ld s = 0; for (int j = 0; j < n; ++j) { s += (ld)sh(j) * ev(e, o.x[j].data(), dim); }
      c.near(s, ev(e, y, dim), 2e-12, "interpolation-exact-for-degree-p");
   }
   bool threw = false, node = false;
   for (auto &x : o.x) { double d = 0; for (int k = 0; k < dim; ++k) { d += pow(x[k] - y[k], 2); } if (d < 1e-20) { node = true; } }
   if (!node)
   {
      try { fe.getIntegrationPointIndex(ip); } catch (const std::exception &) { threw = true; }
      c.check(threw, "lookup-of-a-non-node-refused");
   }
   c.count("shape-evaluations");
}

int main(int argc, char **argv)
{
   init(argc, argv);
   enumerate("operators", 12, operators);
   enumerate("filter", 12, filter);
   run("products", 400, products);
   run("metric", 1500, metric);
   run("shapes", 1500, shapes);
   return finish();
}
