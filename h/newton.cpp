// C12: nonlinear and linear solvers.  The operator handed to the solver records
// every state it is evaluated or linearised at; the trace is judged.
#include "mfem.hpp"
#include "mfem_extensions.hpp"
#include "inexact_newton.hpp"
#include "relaxed_newton.hpp"
#include "utils.hpp"
#include "vh.hpp"
using namespace mfem;
using vh::Case;
/// mfem's fatal errors as exceptions (this definition takes precedence)
struct Fatal { std::string m; };
namespace mfem { void mfem_error(const char *msg) { throw Fatal{msg ? msg : ""}; } }
typedef std::vector<double> V;

struct Sys : Operator
{
   int n, kind; DenseMatrix A; Vector c0; double g3; double sc;
   mutable DenseMatrix J;
   struct Ev { char k; V x; double norm; };
   mutable std::vector<Ev> tr; Vector b; bool have_b = false;
   Sys(int n_) : Operator(n_), n(n_), A(n_), c0(n_), J(n_) { }
   void F(const double *x, double *f) const
   {
      for (int i = 0; i < n; ++i)
      {
         double r = c0(i); for (int j = 0; j < n; ++j) { r += A(i, j) * x[j]; }
         if (kind == 1) { r += g3 * x[i] * x[i] * x[i]; }
         if (kind == 2) { r = std::atan(sc * x[i]) + 0.05 * r; }
         if (kind == 3) { r += std::exp(x[i]) - 1; }
         if (kind == 4) { r = 1.0 + x[i] * x[i] + 0.1 * std::sin(r); }   // no root
         f[i] = r;
      }
   }
   void jac(const double *x) const
   {
      V r(n); for (int i = 0; i < n; ++i) { r[i] = c0(i); for (int j = 0; j < n; ++j) { r[i] += A(i, j) * x[j]; } }
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      {
         double v = A(i, j); bool d = i == j;
         if (kind == 1 && d) { v += 3 * g3 * x[i] * x[i]; }
         if (kind == 2) { v = 0.05 * v + (d ? sc / (1 + sc * sc * x[i] * x[i]) : 0); }
         if (kind == 3 && d) { v += std::exp(x[i]); }
         if (kind == 4) { v = 0.1 * std::cos(r[i]) * v + (d ? 2 * x[i] : 0); }
         J(i, j) = v;
      }
   }
   double resnorm(const double *x) const
   { V f(n); F(x, f.data()); double s = 0; for (int i = 0; i < n; ++i) { double q = f[i] - (have_b ? b(i) : 0); s += q * q; } return std::sqrt(s); }
   void Mult(const Vector &x, Vector &y) const override
   { F(x.GetData(), y.GetData()); tr.push_back({'F', V(x.GetData(), x.GetData() + n), resnorm(x.GetData())}); }
   Operator &GetGradient(const Vector &x) const override
   { jac(x.GetData()); tr.push_back({'J', V(x.GetData(), x.GetData() + n), resnorm(x.GetData())}); return J; }
};
/// linear solver: exact up to an optional relative error
struct Lin : Solver
{
   DenseMatrix A; mutable DenseMatrixInverse inv; double noise = 0; mutable vh::Rng g{5}; mutable std::vector<V> steps;
   void SetOperator(const Operator &op) override { A = dynamic_cast<const DenseMatrix &>(op); height = width = A.Height(); inv.SetOperator(A); }
   void Mult(const Vector &r, Vector &c) const override
   {
      inv.Mult(r, c);
      if (noise > 0)
      {  // perturb so that the linear residual is noise*|r|
         Vector e(c.Size()), z(c.Size()); for (int i = 0; i < e.Size(); ++i) { e(i) = g.uni(-1, 1); }
         e *= noise * r.Norml2() / std::max(1e-300, e.Norml2()); inv.Mult(e, z); c += z;
      }
      steps.push_back(V(c.GetData(), c.GetData() + c.Size()));
   }
};
static void build(Case &c, Sys &s)
{
   auto &g = c.rng; int n = s.n;
   s.kind = c.in("kind", g.irand(0, 4)); s.g3 = g.uni(0, 3); s.sc = g.uni(0.5, 3);
   bool sym = g.coin(0.4); c.in("sym", sym);
   // positive definite symmetric part, arbitrary skew part
   DenseMatrix B(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { B(i, j) = g.uni(-1, 1); }
   MultAAt(B, s.A); for (int i = 0; i < n; ++i) { s.A(i, i) += g.uni(0.3, 1); }
   if (!sym) { double k = g.uni(0.2, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { double v = k * g.uni(-1, 1); s.A(i, j) += v; s.A(j, i) -= v; } }
   for (int i = 0; i < n; ++i) { s.c0(i) = g.uni(-2, 2); }
   s.have_b = g.coin(0.4); c.in("have_b", s.have_b);
   if (s.have_b) { s.b.SetSize(n); for (int i = 0; i < n; ++i) { s.b(i) = g.uni(-0.5, 0.5); } }
}
static double nrm(const V &a) { double s = 0; for (double x : a) { s += x * x; } return std::sqrt(s); }

static void newton(Case &c, int which)   // 0 relaxed, 1 inexact
{
   auto &g = c.rng; Sys s(c.in("n", g.irand(1, 6))); build(c, s); int n = s.n;
   Lin lin; lin.noise = g.coin(0.3) ? c.in("noise", g.logu(1e-6, 0.1)) : 0;
   double rel = c.in("rel", g.pick(V{1e-10, 1e-8, 1e-3, 0.5, 0.0})), abs_ = c.in("abs", g.pick(V{1e-9, 0.0, 1e-6, 10.0}));
   if (rel == 0 && abs_ == 0) { abs_ = 1e-9; }
   int maxit = c.in("maxit", g.coin(0.2) ? g.irand(0, 3) : 100);
   double mu = 1e-4, lo = 0.1, hi = 0.9;
   std::unique_ptr<NewtonSolver> ns; bool it_mode = g.coin(0.8);
   nlohmann::json o = {{"type", "relaxednewton"}, {"abstol", abs_}, {"reltol", rel}, {"maxiter", maxit}, {"printlevel", -1}};
   int lsit = 10; bool custom = false;
   if (which == 0)
   {
      int form = g.irand(0, 2);
      if (form == 1) { o["linesearch"] = "backtracking"; }
      if (form == 2)
      {
         custom = true; mu = g.logu(1e-5, 0.2); hi = g.uni(0.5, 0.9); lo = g.uni(0.05, 0.4); lsit = g.irand(2, 12);
         o["linesearch"] = {{"type", "backtracking"}, {"mu", mu}, {"rhohi", hi}, {"rholo", lo}, {"interp-order", g.irand(0, 2) ? 3 : 2}, {"maxiter", lsit}};
      }
      ns = miso::constructNonlinearSolver(MPI_COMM_WORLD, o, lin);
      c.check(dynamic_cast<miso::RelaxedNewton *>(ns.get()) != nullptr, "right-solver");
   }
   else
   {
      ns = std::make_unique<InexactNewton>(MPI_COMM_WORLD, 1e-4, 1e-1, mu);
      ns->SetSolver(lin); ns->SetRelTol(rel); ns->SetAbsTol(abs_); ns->SetMaxIter(maxit); ns->SetPrintLevel(-1);
   }
   ns->SetOperator(s); ns->iterative_mode = it_mode;
   Vector x(n), x0(n); double amp = s.kind == 3 ? 3 : g.logu(0.1, 20); for (int i = 0; i < n; ++i) { x(i) = amp * g.uni(-1, 1); }
   c.invec("x0", x, n);
   x0 = x; if (!it_mode) { x0 = 0.0; }
   Vector empty; bool aborted = false;
   try { (static_cast<Solver *>(ns.get()))->Mult(s.have_b ? s.b : empty, x); }
   catch (const Fatal &) { aborted = true; }
   double norm0 = s.resnorm(x0.GetData()), goal = std::max(rel * norm0, abs_);
   // the accepted states: where the system was linearised, then the result
   std::vector<V> acc; std::vector<size_t> at;
   for (size_t i = 0; i < s.tr.size(); ++i) { if (s.tr[i].k == 'J') { acc.push_back(s.tr[i].x); at.push_back(i); } }
   c.check(lin.steps.size() == acc.size(), "one-linear-solve-per-linearisation");
   c.count("linearisations", acc.size());
   c.check((int)acc.size() <= maxit, "iteration-limit");
   V xe(x.GetData(), x.GetData() + n);
   V first(x0.GetData(), x0.GetData() + n);
   c.check(s.tr.size() && s.tr[0].x == first, "starts-from-the-guess");
   if (!acc.empty()) { c.check(acc[0] == first, "first-linearised-at-the-guess"); }
   for (size_t k = 0; k < acc.size(); ++k)
   {
      // trials between this linearisation and the next
      size_t end = k + 1 < at.size() ? at[k + 1] : s.tr.size();
      std::vector<double> al; const V &p = lin.steps[k]; double pn = nrm(p);
      for (size_t i = at[k] + 1; i < end; ++i)
      {
         double d = 0; for (int q = 0; q < n; ++q) { d += (acc[k][q] - s.tr[i].x[q]) * p[q]; }
         double a = d / (pn * pn), off = 0; for (int q = 0; q < n; ++q) { double e = acc[k][q] - a * p[q] - s.tr[i].x[q]; off += e * e; }
         c.check(std::sqrt(off) <= 1e-10 * (nrm(acc[k]) + pn * (1 + std::fabs(a))), "trials-lie-along-the-newton-step");
         al.push_back(a); c.count("trials");
      }
      const V &nx = k + 1 < acc.size() ? acc[k + 1] : xe;
      if (k + 1 == acc.size() && aborted) { continue; }
      double d = 0; for (int q = 0; q < n; ++q) { d += (acc[k][q] - nx[q]) * p[q]; } double a = d / (pn * pn);
      double rk = s.resnorm(acc[k].data()), rn = s.resnorm(nx.data());
      double pa = al.empty() ? 1 : al[0];
      if (!al.empty()) { c.near(pa, 1.0, 1e-6 * (1 + nrm(acc[k]) / pn), "first-trial-is-the-full-step"); }
      if (std::fabs(a) < 1e-14 * (1 + nrm(acc[k]) / pn) && k + 1 == acc.size()) { c.check(!ns->GetConverged() || rn <= goal, "stalled-search-not-reported-converged"); c.count("failed-searches"); continue; }
      double noise = 1e-12 * (1 + nrm(acc[k]) / pn);
      if (which == 0)
      {
         // phi' at zero is -r^T J c / |r| = -|r| for an exact linear solve
         s.jac(acc[k].data()); Vector Jp(n), P(const_cast<double *>(p.data()), n); s.J.Mult(P, Jp);
         V f(n); s.F(acc[k].data(), f.data()); double dp = 0; for (int q = 0; q < n; ++q) { dp -= Jp(q) * (f[q] - (s.have_b ? s.b(q) : 0)); } dp /= rk;
         c.check(rn <= rk + mu * a * dp * (1 - 1e-6) + 1e-12 * rk + 1e-14, "sufficient-decrease", "from " + std::to_string(rk) + " to " + std::to_string(rn) + " step " + std::to_string(a));
      }
      else
      {
         c.check(rn <= (1 - 0.5 * mu) * rk * (1 + 1e-12) + 1e-15, "sufficient-decrease", "from " + std::to_string(rk) + " to " + std::to_string(rn));
      }
      if (which == 1 && al.size() >= 2)
      {  // the first shrink minimises the quadratic with the merit's value and slope at 0 and its value at 1
         s.jac(acc[k].data()); Vector Jp(n), P(const_cast<double *>(p.data()), n); s.J.Mult(P, Jp);
         V f(n); s.F(acc[k].data(), f.data()); double dp = 0; for (int q = 0; q < n; ++q) { dp -= Jp(q) * (f[q] - (s.have_b ? s.b(q) : 0)); }
         V tp(n); for (int q = 0; q < n; ++q) { tp[q] = acc[k][q] - p[q]; } double r1 = s.resnorm(tp.data());
         double m0 = 0.5 * rk * rk, m1 = 0.5 * r1 * r1, th = -dp / (2 * (m1 - m0 - dp));
         th = std::min(0.5, std::max(0.1, th));
         if (std::isfinite(r1) && std::fabs(al[1] - a) > -1 && std::fabs(al[1] - al[0]) > 1e3 * noise) { c.near(al[1] / al[0], th, 1e-5 + 1e3 * noise, "first-shrink-minimises-the-quadratic-model"); if (th > 0.1001 && th < 0.4999) { c.count("interpolated-shrinks"); } }
      }
      // every shrink within the safeguards (trials after the accepted one are re-evaluations of it)
      for (size_t i = 1; i < al.size(); ++i)
      {
         double ratio = al[i] / al[i - 1];
         if (std::fabs(al[i] - a) < noise && std::fabs(al[i - 1] - a) < noise) { continue; }
         if (std::fabs(al[i]) < 1e3 * noise) { break; }
         double L = which ? 0.1 : lo, U = which ? 0.5 : hi;
         if (which == 0 && !custom) { L = 1e-3; U = 1 - 1e-9; }
         c.check(ratio >= L * (1 - 1e-6) && ratio <= U * (1 + 1e-6), "backtracking-inside-the-safeguards", "ratio " + std::to_string(ratio) + " of " + std::to_string(al[i - 1]));
         c.count("backtracks");
      }
   }
   if (aborted)
   {
      c.check(which == 1, "no-abort");
      if (!at.empty()) { c.check((int)(s.tr.size() - at.back() - 1) > maxit, "globalisation-failure-only-after-the-limit"); }
      c.count("globalisation-failures"); return;
   }
   double fin = s.resnorm(xe.data());
   c.check(ns->GetConverged() == (fin <= goal * (1 + 1e-12)) || std::fabs(fin - goal) <= 1e-12 * norm0, "converged-means-the-tolerance-is-met", "final " + std::to_string(fin) + " goal " + std::to_string(goal));
   c.check((int)ns->GetNumIterations() == (int)acc.size() || !ns->GetConverged(), "iterations-reported");
   // inexact Newton leaves its norm at the last accepted point
   if (ns->GetConverged()) { c.near(ns->GetFinalNorm(), fin, 1e-12 * (norm0 + fin), "final-norm-reported"); c.count("converged"); }
   else { c.count("not-converged"); }
   if (s.kind == 0 && maxit >= 1 && lin.noise == 0 && rel + abs_ > 1e-9) { c.check(ns->GetConverged() && acc.size() <= 3, "affine-systems-converge-at-once", std::to_string(acc.size())); c.count("affine"); }
   if ((s.kind == 1 || s.kind == 3) && maxit == 100 && lin.noise == 0 && goal > 1e-11 * std::max(1.0, norm0) && (which == 1 || !custom)) { c.check(ns->GetConverged(), "monotone-systems-converge", "final " + std::to_string(fin)); c.count("monotone"); }
   double least = 0; for (int i = 0; i < n; ++i) { double q = std::max(0.0, 0.9 - (s.have_b ? s.b(i) : 0)); least += q * q; }   // no residual of these systems is smaller
   if (s.kind == 4 && goal < 0.99 * std::sqrt(least)) { c.check(!ns->GetConverged(), "rootless-systems-never-converge"); c.count("rootless"); }
}

// ------------------------------------------------------------ linear solvers
struct Mat { std::unique_ptr<SparseMatrix> sp; std::unique_ptr<HypreParMatrix> A; HYPRE_BigInt rows[2]; };
static void matrix(Case &c, Mat &m, int n, bool spd)
{
   auto &g = c.rng; m.sp = std::make_unique<SparseMatrix>(n, n);
   std::vector<double> off(n, 0.0); std::vector<std::array<double, 3>> e;
   for (int k = 0; k < 3 * n; ++k)
   {
      int i = g.irand(0, n - 1), j = g.irand(0, n - 1); if (i == j) { continue; }
      double v = g.uni(-1, 1), w = spd ? v : 0.4 * g.uni(-1, 1);
      m.sp->Add(i, j, v); m.sp->Add(j, i, w); off[i] += std::fabs(v); off[j] += std::fabs(w); off[j] += std::fabs(v) * (spd ? 0 : 1); off[i] += spd ? 0 : std::fabs(w);
   }
   for (int i = 0; i < n; ++i) { m.sp->Add(i, i, 0.3 + off[i] * 1.1 + g.uni(0, 0.5)); }
   m.sp->Finalize(0); m.rows[0] = 0; m.rows[1] = n;
   m.A = std::make_unique<HypreParMatrix>(MPI_COMM_WORLD, n, m.rows, m.sp.get());
}
static int iterations(Solver &s)
{
   if (auto *p = dynamic_cast<IterativeSolver *>(&s)) { return p->GetNumIterations(); }
   int k = -1;
   if (auto *p = dynamic_cast<HypreGMRES *>(&s)) { p->GetNumIterations(k); }
   else if (auto *p = dynamic_cast<HypreFGMRES *>(&s)) { p->GetNumIterations(k); }
   else if (auto *p = dynamic_cast<HyprePCG *>(&s)) { p->GetNumIterations(k); }
   return k;
}
static void linear(Case &c)
{
   auto &g = c.rng;
   static const std::vector<std::string> types = {"hypregmres", "gmres", "hyprefgmres", "fgmres", "hyprepcg", "pcg", "minres"};
   std::string ty = c.in("type", types[c.idx % types.size()]);
   bool spd = ty == "hyprepcg" || ty == "pcg" || ty == "minres" || g.coin(0.3); bool hyp = ty.substr(0, 5) == "hypre";
   int n = c.in("n", g.irand(2, 40)); Mat m; matrix(c, m, n, spd);
   HypreDiagScale ds; std::unique_ptr<HypreSmoother> sm; Solver *prec = nullptr;
   if (g.coin()) { prec = &ds; } c.in("prec", prec != nullptr);
   Vector b(n), r(n); for (int i = 0; i < n; ++i) { b(i) = g.uni(-1, 1); }
   double bs = g.logu(1e-3, 1e3); b *= bs; double bn = b.Norml2();
   auto solve = [&](nlohmann::json o, Vector &x, int &it)
   {
      auto s = miso::constructLinearSolver(MPI_COMM_WORLD, o, prec);
      s->SetOperator(*m.A); s->iterative_mode = false; x.SetSize(n); x = 0.0; s->Mult(b, x); it = iterations(*s);
      m.A->Mult(x, r); r -= b; return r.Norml2();
   };
   nlohmann::json o = {{"type", ty}, {"reltol", 1e-10}, {"maxiter", 4 * n + 20}, {"printlevel", -1}, {"kdim", n + 5}};
   Vector x; int it, it2;
   double res = solve(o, x, it);
   c.near(res, 0, 1e-8 * bn, "tight-tolerance-met"); c.check(it <= 4 * n + 20 && it >= 1, "iterations-observed");
   o["reltol"] = 0.3; double res2 = solve(o, x, it2);
   c.check(it2 <= it, "loose-tolerance-takes-no-more-iterations", std::to_string(it2) + " vs " + std::to_string(it));
   if (it >= 8) { c.check(it2 < it && res2 > 1e-9 * bn, "relative-tolerance-is-honoured"); c.count("loose-vs-tight"); }
   o["reltol"] = 1e-12; o["maxiter"] = 2; solve(o, x, it2); c.check(it2 <= 2, "iteration-limit-is-honoured", std::to_string(it2));
   // absolute tolerance above |b| (in any of the norms used): nothing left to do
   o["reltol"] = 0.0; o["maxiter"] = 50; o["abstol"] = 1e3 * bn * (1 + n); 
   solve(o, x, it2); c.check(it2 <= 1, "absolute-tolerance-is-honoured", std::to_string(it2) + " iterations"); c.count("abstol");
   if (ty.find("gmres") != std::string::npos)
   {  // no restart before n steps: exact termination; kdim 1 restarts all the time
      o = {{"type", ty}, {"reltol", 1e-9}, {"maxiter", 500}, {"printlevel", -1}, {"kdim", n + 2}}; int full, one; solve(o, x, full);
      c.check(full <= n + 1, "full-space-terminates"); o["kdim"] = 1; solve(o, x, one); c.check(one >= full, "subspace-size-is-honoured"); if (one > full) { c.count("restarts-mattered"); }
   }
   c.count("linear-" + ty);
}
static void options(Case &c)
{
   auto &g = c.rng; Lin lin;
   std::string bad = c.in("bad", g.pick(std::vector<std::string>{"", "GMRES", "newtonn", "bicg", "kinsol", "cg"}));
   nlohmann::json o = {{"type", bad}, {"abstol", 1e-8}, {"reltol", 1e-8}, {"maxiter", 5}, {"printlevel", -1}};
   bool t = false; try { miso::constructLinearSolver(MPI_COMM_WORLD, o, nullptr); } catch (const miso::MISOException &) { t = true; } c.check(t, "unknown-linear-solver-refused");
   t = false; try { miso::constructNonlinearSolver(MPI_COMM_WORLD, o, lin); } catch (const miso::MISOException &) { t = true; } c.check(t, "unknown-nonlinear-solver-refused");
   o["type"] = "none"; c.check(miso::constructNonlinearSolver(MPI_COMM_WORLD, o, lin) == nullptr, "none-means-none");
   o["type"] = "relaxednewton"; o["linesearch"] = bad; t = false; try { miso::constructNonlinearSolver(MPI_COMM_WORLD, o, lin); } catch (const miso::MISOException &) { t = true; } c.check(t, "unknown-linesearch-refused");
   for (std::string ty : {"newton", "inexactnewton"})
   {
      o = {{"type", ty}, {"abstol", 1e-10}, {"reltol", 1e-10}, {"maxiter", 50}, {"printlevel", -1}};
      Mat m; int n = g.irand(2, 12); matrix(c, m, n, true);
      nlohmann::json lo = {{"type", "gmres"}, {"reltol", 1e-13}, {"maxiter", 200}, {"printlevel", -1}, {"kdim", 50}};
      auto l = miso::constructLinearSolver(MPI_COMM_WORLD, lo, nullptr);
      auto ns = miso::constructNonlinearSolver(MPI_COMM_WORLD, o, *l);
      c.check(!ns->iterative_mode, "starts-from-zero-by-default");
      struct Aff : Operator { HypreParMatrix &A; Vector c0; Aff(HypreParMatrix &A_, int n) : Operator(n), A(A_), c0(n) { } void Mult(const Vector &x, Vector &y) const override { A.Mult(x, y); for (int i = 0; i < y.Size(); ++i) { y(i) += c0(i) + 0.3 * x(i) * x(i) * x(i); } } mutable std::unique_ptr<HypreParMatrix> J;
         Operator &GetGradient(const Vector &x) const override { J = std::make_unique<HypreParMatrix>(A); SparseMatrix d; J->GetDiag(d); for (int i = 0; i < x.Size(); ++i) { d.Add(i, i, 0.9 * x(i) * x(i)); } return *J; } } op(*m.A, n);
      for (int i = 0; i < n; ++i) { op.c0(i) = g.uni(-3, 3); }
      ns->SetOperator(op); Vector x(n), z, r(n); x = 7.0; ns->Mult(z, x); op.Mult(x, r);
      c.check(ns->GetConverged(), ty + "-converges"); c.near(r.Norml2(), 0, 1e-8, ty + "-solves-the-system");
   }
   c.count("option-sets");
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   MPI_Init(&argc, &argv);
   vh::run("relaxed", 6000, [](Case &c) { newton(c, 0); });
   vh::run("inexact", 5000, [](Case &c) { newton(c, 1); });
   vh::run("linear", 560, linear);
   vh::run("options", 40, options);
   int rc = vh::finish();
   MPI_Finalize();
   return rc;
}
