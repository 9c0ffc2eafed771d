// C13: composite operators.  Every operator is applied to random vectors (whose
// targets hold garbage) and compared with dense linear algebra of our own.
#include "mfem.hpp"
#include "matrix_operators.hpp"
#include "mfem_extensions.hpp"
#include "ode.hpp"
#include "vh.hpp"
using namespace mfem;
using vh::Case;
typedef std::vector<double> V;

namespace vt
{
/// coupled blocks: R_i = sum_j K_ij u_j + q_i u_i^2 + p*c_i, block sizes given
struct BRes
{
   std::shared_ptr<Array<int>> off; std::shared_ptr<V> K, q; std::shared_ptr<double> p = std::make_shared<double>(1.0);
   bool hypre = false; std::shared_ptr<std::vector<std::unique_ptr<Operator>>> keep = std::make_shared<std::vector<std::unique_ptr<Operator>>>();
   std::shared_ptr<HYPRE_BigInt> rows{new HYPRE_BigInt[2], std::default_delete<HYPRE_BigInt[]>()};
   std::shared_ptr<long> evals = std::make_shared<long>(0);
   int n() const { return off->Last(); }
   void F(const double *u, double *f) const
   { int N = n(); for (int i = 0; i < N; ++i) { double r = *p * (*q)[i]; for (int j = 0; j < N; ++j) { r += (*K)[i * N + j] * u[j]; } f[i] = r + (*q)[i] * u[i] * u[i]; } }
   double J(const double *u, int i, int j) const { return (*K)[i * n() + j] + (i == j ? 2 * (*q)[i] * u[i] : 0); }
};
int getSize(const BRes &r) { return r.n(); }
MPI_Comm getMPIComm(const BRes &) { return MPI_COMM_WORLD; }
void setInputs(BRes &r, const miso::MISOInputs &in) { miso::setValueFromInputs(in, "p", *r.p); }
void setOptions(BRes &, const nlohmann::json &) { }
void evaluate(BRes &r, const miso::MISOInputs &in, Vector &res)
{ setInputs(r, in); Vector u; miso::setVectorFromInputs(in, "state", u, false, true); r.F(u.GetData(), res.GetData()); ++*r.evals; }
Operator &getJacobian(BRes &, const miso::MISOInputs &, const std::string &) { throw std::runtime_error("not available"); }
Operator &getJacobianBlock(BRes &r, const miso::MISOInputs &in, int b)
{
   Vector u; miso::setVectorFromInputs(in, "state", u, false, true);
   int o = (*r.off)[b], n = (*r.off)[b + 1] - o;
   if (r.hypre)
   {
      SparseMatrix s(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { s.Set(i, j, r.J(u.GetData(), o + i, o + j)); } s.Finalize(0);
      r.rows.get()[0] = 0; r.rows.get()[1] = n;
      HypreParMatrix t(MPI_COMM_WORLD, n, r.rows.get(), &s); r.keep->push_back(std::make_unique<HypreParMatrix>(t));
   }
   else
   {
      auto d = std::make_unique<DenseMatrix>(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { (*d)(i, j) = r.J(u.GetData(), o + i, o + j); }
      r.keep->push_back(std::move(d));
   }
   return *r.keep->back();
}
}
using vt::BRes;
static DenseMatrix rmat(vh::Rng &g, int h, int w) { DenseMatrix m(h, w); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) { m(i, j) = g.uni(-2, 2); } return m; }
static Vector rvec(vh::Rng &g, int n, double s = 1) { Vector v(n); for (int i = 0; i < n; ++i) { v(i) = s * g.uni(-1, 1); } return v; }
static double scal(vh::Rng &g) { return g.coin(0.3) ? (g.coin() ? -1 : 1) * g.logu(1e-15, 1e6) : g.pick(V{0.0, 1.0, -1.0, 0.5, 1e-20, 1e-8, -3.5, 1 + 1e-9}); }
static void poison(vh::Rng &g, Vector &y) { for (int i = 0; i < y.Size(); ++i) { y(i) = g.coin(0.2) ? NAN : 1e3 * g.uni(-1, 1); } }

static void sum(Case &c)
{
   auto &g = c.rng; int w = c.in("w", g.irand(1, 8)), h = c.in("h", g.coin(0.7) ? w : g.irand(1, 8));
   DenseMatrix A = rmat(g, h, w), B = rmat(g, h, w), C = rmat(g, h, w), D = rmat(g, h, w);
   double a = c.in("a", scal(g)), b = c.in("b", scal(g));
   // operators large enough for a small scale to matter, as a stiff residual times a small step
   auto stiffen = [&](double k, DenseMatrix &M) { if (std::fabs(k) > 5e-16 && std::fabs(k) < 1e-4 && g.coin(0.7)) { M *= g.uni(0.5, 2) / std::fabs(k); c.count("small-scales-that-matter"); } };
   stiffen(a, A); stiffen(b, B);
   std::unique_ptr<miso::SumOfOperators> s; bool viaAdd = g.coin();
   if (viaAdd) { s = h == w && g.coin() ? std::make_unique<miso::SumOfOperators>(h) : std::make_unique<miso::SumOfOperators>(h, w); s->Add(a, A, b, B); }
   else { s = std::make_unique<miso::SumOfOperators>(a, A, b, B); }
   c.check(s->Height() == h && s->Width() == w, "size");
   const DenseMatrix *P = &A, *Q = &B;
   for (int rep = 0; rep < 4; ++rep)
   {
      if (rep == 2) { a = c.in("a2", scal(g)); b = c.in("b2", scal(g)); stiffen(a, C); stiffen(b, D); s->Add(a, C, b, D); P = &C; Q = &D; }
      Vector x = rvec(g, w), y(h), x0(x); poison(g, y);
      s->Mult(x, y);
      c.check(y.Size() == h, "result-size");
      for (int i = 0; i < h; ++i)
      {
         double e = 0, m = 0; for (int j = 0; j < w; ++j) { e += (a * (*P)(i, j) + b * (*Q)(i, j)) * x(j); m += std::fabs(a * (*P)(i, j) * x(j)) + std::fabs(b * (*Q)(i, j) * x(j)); }
         c.near(y(i), e, 1e-13 * m + 1e-15, "linear-combination", "a " + std::to_string(a) + " b " + std::to_string(b));
      }
      c.check(x.Size() == w && x(0) == x0(0), "operand-untouched");
      c.count("sums"); if (std::fabs(a) < 1e-10 || std::fabs(b) < 1e-10) { c.count("sums-with-a-vanishing-term"); } if (h != w) { c.count("rectangular-sums"); }
   }
   DenseMatrix E(h + 1, w); bool threw = false; try { miso::SumOfOperators z(1.0, A, 1.0, E); } catch (const miso::MISOException &) { threw = true; } c.check(threw, "incompatible-sizes-refused");
}
static BRes rres(Case &c, int nb)
{
   auto &g = c.rng; BRes r; r.off = std::make_shared<Array<int>>(nb + 1); (*r.off)[0] = 0; for (int i = 0; i < nb; ++i) { (*r.off)[i + 1] = (*r.off)[i] + g.irand(1, 4); }
   int n = c.in("n", r.n()); r.K = std::make_shared<V>(n * n); for (auto &x : *r.K) { x = g.uni(-2, 2); } r.q = std::make_shared<V>(n); for (auto &x : *r.q) { x = g.uni(-1, 1); }
   r.hypre = g.coin(); return r;
}
/// block-diagonal (plus off-diagonal) explicit operator of random blocks
struct Blocks
{
   std::vector<std::unique_ptr<Operator>> own; std::unique_ptr<BlockOperator> op; std::vector<DenseMatrix> d; std::vector<HYPRE_BigInt *> rows;
   DenseMatrix full;
   Blocks(vh::Rng &g, Array<int> &off, bool hypre, bool offdiag)
   {
      int nb = off.Size() - 1; op = std::make_unique<BlockOperator>(off); full.SetSize(off.Last()); full = 0.0;
      for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j)
      {
         if (i != j && (!offdiag || g.coin())) { continue; }
         int h = off[i + 1] - off[i], w = off[j + 1] - off[j]; DenseMatrix m = rmat(g, h, w);
         if (i == j) { for (int q = 0; q < h; ++q) { m(q, q) += 12; } }
         for (int p = 0; p < h; ++p) for (int q = 0; q < w; ++q) { full(off[i] + p, off[j] + q) = m(p, q); }
         if (hypre && i == j)
         {
            SparseMatrix s(h, w); for (int p = 0; p < h; ++p) for (int q = 0; q < w; ++q) { s.Set(p, q, m(p, q)); } s.Finalize(0);
            auto *r = new HYPRE_BigInt[2]; r[0] = 0; r[1] = h; rows.push_back(r);
            HypreParMatrix t(MPI_COMM_WORLD, h, r, &s); own.push_back(std::make_unique<HypreParMatrix>(t));
         }
         else { own.push_back(std::make_unique<DenseMatrix>(m)); }
         op->SetBlock(i, j, own.back().get());
      }
   }
};
static void jacfree(Case &c)
{
   auto &g = c.rng; BRes r = rres(c, c.in("blocks", g.irand(1, 3))); int n = r.n();
   miso::MISOResidual res(r); bool with = g.coin(0.6); c.in("explicit", with);
   Blocks E(g, *r.off, r.hypre, true);
   miso::JacobianFree J = with ? miso::JacobianFree(res, *E.op) : miso::JacobianFree(res);
   double sc = 1;
   for (int rep = 0; rep < 4; ++rep)
   {
      Vector u = rvec(g, n);
      if (rep) { sc = c.in("scale", g.pick(V{0.0, 1.0, -1.0, 0.3, 7.0, 1e-17, 1e-3, 1e-6, 1e-9, -3e-11})); J.setScaling(sc); }
      double p = *r.p;
      if (g.coin()) { p = g.uni(-2, 2); J.setState(miso::MISOInputs{{"state", u}, {"p", p}}); c.check(*r.p == p, "inputs-reach-the-residual"); } else { J.setState(u); }
      Vector ucopy(u); if (g.coin()) { u = NAN; } // the operator keeps its own copy
      for (int k = 0; k < 3; ++k)
      {
         double s = g.pick(V{1.0, 1e-2, 1e2, 1e-3, 0.0}); Vector x = rvec(g, n, s), y(n), x0(x); poison(g, y);
         J.Mult(x, y); double xn = x.Norml2();
         for (int i = 0; i < n; ++i)
         {
            double e = 0, m = 0; for (int j = 0; j < n; ++j) { double v = r.J(ucopy.GetData(), i, j); e += sc * v * x(j); m += std::fabs(v); if (with) { e += E.full(i, j) * x(j); } }
            // forward difference: truncation 1e-5*|x| for ordinary x, rounding 1e-7 relative to unit residuals for tiny x
            double tol = std::fabs(sc) * (2e-5 * xn * (1 + m * 1e-3) + 3e-10 * (1 + m) * std::max(1.0, xn)) + 3e-8 * std::fabs(sc) * (1 + m) * (xn * xn <= 1e-6) + 1e-13 * (1 + std::fabs(e));
            c.near(y(i), e, tol, "jacobian-vector-product", "scale " + std::to_string(sc) + " |x| " + std::to_string(xn));
         }
         c.check(x(0) == x0(0), "operand-untouched");
         c.count("products"); if (std::fabs(sc) < 1e-16) { c.count("products-with-zero-scale"); }
      }
      // diagonal blocks
      int b = g.irand(0, r.off->Size() - 2), o = (*r.off)[b], nb = (*r.off)[b + 1] - o;
      Operator &D = J.getDiagonalBlock(b); c.check(D.Height() == nb && D.Width() == nb, "block-size");
      for (int j = 0; j < nb; ++j)
      {
         Vector x(nb), y(nb); x = 0.0; x(j) = 1; D.Mult(x, y);
         for (int i = 0; i < nb; ++i) { double e = sc * r.J(ucopy.GetData(), o + i, o + j) + (with ? E.full(o + i, o + j) : 0); c.near(y(i), e, 1e-12 * (1 + std::fabs(e)), "diagonal-block"); }
      }
      c.count(r.hypre ? "hypre-blocks" : "dense-blocks");
   }
   // the written matrix is the operator
   Vector u = rvec(g, n); J.setScaling(1.5); J.setState(u); std::string fn = "jf.dat"; J.print(fn); J.print(fn);
   std::ifstream in(fn); std::string line; int i = 0;
   while (std::getline(in, line))
   {
      std::replace(line.begin(), line.end(), ',', ' '); std::istringstream ss(line); double v; int k = 0;
      while (ss >> v) { if (i < n && k < n) { double e = 1.5 * r.J(u.GetData(), k, i) + (with ? E.full(k, i) : 0); c.near(v, e, 3e-5 / std::max(1e-3, u.Norml2()) + 1e-6 * (1 + std::fabs(e)), "printed-matrix"); } ++k; }
      c.check(k == n, "printed-row-length"); ++i;
   }
   c.check(i == n, "printed-columns"); remove(fn.c_str());
}
// M + dt R' for a block mass matrix, via the space-time residual
static void spacetime(Case &c)
{
   auto &g = c.rng; BRes r = rres(c, c.in("blocks", g.irand(1, 3))); int n = r.n();
   miso::MISOResidual res(r); Blocks M(g, *r.off, r.hypre, g.coin());
   miso::MISOResidual st(miso::TimeDependentResidual(res, M.op.get()));
   for (int rep = 0; rep < 3; ++rep)
   {
      Vector u = rvec(g, n), k = rvec(g, n), x = rvec(g, n), y(n), f(n), z(n); double dt = c.in("dt", g.coin(0.2) ? 0.0 : g.logu(1e-3, 1));
      miso::MISOInputs in{{"state", u}, {"state_dot", k}, {"dt", dt}, {"time", 0.5}, {"p", g.uni(-1, 1)}};
      setInputs(st, in); st.Mult(k, f);
      add(u, dt, k, z); V Rz(n); r.F(z.GetData(), Rz.data());
      for (int i = 0; i < n; ++i) { double e = Rz[i]; for (int j = 0; j < n; ++j) { e += M.full(i, j) * k(j); } c.near(f(i), e, 1e-11 * (1 + std::fabs(e)) * 20, "residual-is-Mk-plus-R"); }
      Operator &J = st.GetGradient(k); poison(g, y); J.Mult(x, y);
      for (int i = 0; i < n; ++i)
      {
         double e = 0, m = 0; for (int j = 0; j < n; ++j) { double v = r.J(z.GetData(), i, j); e += (M.full(i, j) + dt * v) * x(j); m += std::fabs(v); }
         c.near(y(i), e, dt * (2e-5 * x.Norml2() * 1.1 + 1e-9 * (1 + m)) + 1e-12 * (1 + std::fabs(e)), "jacobian-is-M-plus-dt-R'");
      }
      c.count("block-space-time");
      // and the block preconditioner solves with its diagonal blocks
      if (dt > 0)
      {
         int nb = r.off->Size() - 1; miso::BlockJacobiPreconditioner P(*r.off); std::vector<std::unique_ptr<Solver>> sol; std::vector<char> has;
         for (int b = 0; b < nb; ++b)
         {
            bool h = g.coin(0.8); has.push_back(h); if (!h) { continue; }
            if (r.hypre) { auto s = std::make_unique<GMRESSolver>(MPI_COMM_WORLD); s->SetRelTol(1e-13); s->SetMaxIter(100); s->SetKDim(50); s->SetPrintLevel(-1); sol.push_back(std::move(s)); }
            else { sol.push_back(std::make_unique<DenseMatrixInverse>()); }
            P.SetDiagonalBlock(b, sol.back().get());
         }
         bool jf = g.coin(); if (jf) { P.SetOperator(J); } else { P.SetOperator(*M.op); }
         Vector xs(x); poison(g, y); P.Mult(x, y);
         for (int b = 0; b < nb; ++b)
         {
            int o = (*r.off)[b], e = (*r.off)[b + 1];
            for (int i = o; i < e; ++i)
            {
               if (!has[b]) { c.check(y(i) == x(i), "missing-block-is-identity"); continue; }
               double s = 0; for (int j = o; j < e; ++j) { s += (M.full(i, j) + (jf ? dt * r.J(z.GetData(), i, j) : 0)) * y(j); }
               c.near(s, x(i), 1e-9, jf ? "block-solve-of-jacobian-free" : "block-solve-of-block-operator");
            }
         }
         c.check(x(0) == xs(0), "operand-untouched"); c.check(P.NumBlocks() == nb, "block-count");
         bool threw = false; DenseMatrix bad(n); try { P.SetOperator(bad); } catch (const miso::MISOException &) { threw = true; } c.check(threw, "unsuitable-operator-refused");
         c.count(jf ? "preconditioned-jacobian-free" : "preconditioned-block-operators");
      }
   }
   r.keep->clear();
}
// transposed block preconditioner: blocks that record what they are handed
struct Rec : Solver
{
   int n; DenseMatrix A; mutable int m = 0, t = 0; Rec(vh::Rng &g, int n_) : Solver(n_), n(n_), A(rmat(g, n_, n_)) { }
   void SetOperator(const Operator &) override { }
   void Mult(const Vector &x, Vector &y) const override { A.Mult(x, y); ++m; }
   void MultTranspose(const Vector &x, Vector &y) const override { A.MultTranspose(x, y); ++t; }
};
static void blockjac(Case &c)
{
   auto &g = c.rng; int nb = c.in("blocks", g.irand(1, 5)); Array<int> off(nb + 1); off[0] = 0; for (int i = 0; i < nb; ++i) { off[i + 1] = off[i] + g.irand(1, 4); }
   int n = off.Last(); miso::BlockJacobiPreconditioner P(off); std::vector<std::unique_ptr<Rec>> s(nb);
   bool own = g.coin(); c.in("own", own);
   std::vector<Rec *> raw(nb, nullptr);
   P.owns_blocks = own;
   for (int b = 0; b < nb; ++b) { int times = g.irand(0, 2); for (int k = 0; k < times; ++k) { auto *q = new Rec(g, off[b + 1] - off[b]); if (!own) { s[b].reset(nullptr); } P.SetDiagonalBlock(b, q); if (!own) { s[b].reset(q); } raw[b] = q; } }
   c.check(P.Height() == n && P.Width() == n && P.NumBlocks() == nb, "sizes");
   for (int tr = 0; tr < 2; ++tr)
   {
      Vector x = rvec(g, n), y(n), x0(x); poison(g, y);
      if (tr) { P.MultTranspose(x, y); } else { P.Mult(x, y); }
      for (int b = 0; b < nb; ++b) for (int i = off[b]; i < off[b + 1]; ++i)
      {
         double e = 0; if (!raw[b]) { e = x(i); } else { for (int j = off[b]; j < off[b + 1]; ++j) { e += (tr ? raw[b]->A(j - off[b], i - off[b]) : raw[b]->A(i - off[b], j - off[b])) * x(j); } }
         c.near(y(i), e, 1e-13 * (1 + std::fabs(e)) * 10, tr ? "transposed-block-diagonal" : "block-diagonal");
      }
      for (int i = 0; i < n; ++i) { c.check(x(i) == x0(i), "operand-untouched"); }
      c.count("block-applications");
   }
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   MPI_Init(&argc, &argv);
   vh::run("sum", 2000, sum);
   vh::run("jacfree", 800, jacfree);
   vh::run("spacetime", 600, spacetime);
   vh::run("blockjac", 600, blockjac);
   int rc = vh::finish();
   MPI_Finalize();
   return rc;
}
