// C26: the solver driver every physics solver derives from.  A small system of
// our own stands in for the discretisation; what the driver does with it (which
// hooks it runs with which arguments, what it asks of the residual, the solvers
// and the outputs, which snapshots are left on disk) is recorded and judged.
#include "mfem.hpp"
#include "abstract_solver.hpp"
#include "default_options.hpp"
#include "mfem_extensions.hpp"
#include "matrix_operators.hpp"
#include "evolver.hpp"
#include "vh.hpp"
#include <filesystem>
using namespace mfem;
using vh::Case; using vh::Rng;
using nlohmann::json;
typedef std::vector<double> V;

namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(std::string("mfem: ") + (m ? m : "")); } }

namespace vt
{
/// R(u; p, b, t) = K u + d u^3 - p b - q cos(w t)
struct Sys
{
   int n = 1; V K, d, q, w; double p = 1; Vector b;
   double time = 0, dt = 0;
   long sets = 0, evals = 0, linearised = 0, setups = 0, finals = 0;
   std::vector<std::string> calls;
   void R(const double *u, double t, double *r) const
   {
      for (int i = 0; i < n; ++i)
      { double s = d[i] * u[i] * u[i] * u[i] - p * b(i) - q[i] * std::cos(w[i] * t); for (int j = 0; j < n; ++j) { s += K[i * n + j] * u[j]; } r[i] = s; }
   }
   void J(const double *u, DenseMatrix &A) const
   { A.SetSize(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = K[i * n + j] + (i == j ? 3 * d[i] * u[i] * u[i] : 0); } }
};
struct Res { std::shared_ptr<Sys> s; std::shared_ptr<DenseMatrix> J, JT; std::shared_ptr<Vector> lin; };
int getSize(const Res &r) { return r.s->n; }
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_WORLD; }
void setInputs(Res &r, const miso::MISOInputs &in)
{
   ++r.s->sets;
   miso::setValueFromInputs(in, "p", r.s->p); miso::setValueFromInputs(in, "time", r.s->time); miso::setValueFromInputs(in, "dt", r.s->dt);
   miso::setVectorFromInputs(in, "b", r.s->b, true);
}
void setOptions(Res &, const json &) { }
void evaluate(Res &r, const miso::MISOInputs &in, Vector &res)
{
   ++r.s->evals; Vector u; miso::setVectorFromInputs(in, "state", u, false, true);
   double t = r.s->time; miso::setValueFromInputs(in, "time", t);
   r.s->R(u.GetData(), t, res.GetData());
}
void linearize(Res &r, const miso::MISOInputs &in) { ++r.s->linearised; setInputs(r, in); r.lin = std::make_shared<Vector>(); miso::setVectorFromInputs(in, "state", *r.lin, true, true); }
Operator &getJacobian(Res &r, const miso::MISOInputs &in, const std::string &)
{ Vector u; miso::setVectorFromInputs(in, "state", u, false, true); r.J = std::make_shared<DenseMatrix>(); r.s->J(u.GetData(), *r.J); return *r.J; }
void setUpAdjointSystem(Res &r, Solver &sol, const miso::MISOInputs &in, Vector &bar, Vector &adj)
{
   ++r.s->setups; r.s->calls.push_back("setup");
   Vector u; miso::setVectorFromInputs(in, "state", u, false, true); DenseMatrix A; r.s->J(u.GetData(), A);
   r.JT = std::make_shared<DenseMatrix>(A, 't'); sol.SetOperator(*r.JT);
}
void finalizeAdjointSystem(Res &r, Solver &, const miso::MISOInputs &, Vector &, Vector &) { ++r.s->finals; r.s->calls.push_back("finalize"); }
void jacobianVectorProduct(Res &r, const Vector &dot, const std::string &wrt, Vector &out)
{
   int n = r.s->n;
   if (wrt == "state") { DenseMatrix A; r.s->J(r.lin->GetData(), A); A.AddMult(dot, out); }
   else if (wrt == "b") { for (int i = 0; i < n; ++i) { out(i) -= r.s->p * dot(i); } }
   else if (wrt == "p") { for (int i = 0; i < n; ++i) { out(i) -= r.s->b(i) * dot(0); } }
}
double jacobianVectorProduct(Res &r, const Vector &dot, const std::string &wrt) { return 3 * dot(0) + wrt.size(); }
void vectorJacobianProduct(Res &r, const Vector &bar, const std::string &wrt, Vector &out)
{
   int n = r.s->n;
   if (wrt == "state") { DenseMatrix A; r.s->J(r.lin->GetData(), A); A.AddMultTranspose(bar, out); }
   else if (wrt == "b") { for (int i = 0; i < n; ++i) { out(i) -= r.s->p * bar(i); } }
}
double vectorJacobianProduct(Res &r, const Vector &bar, const std::string &wrt)
{ double s = 0; if (wrt == "p") { for (int i = 0; i < r.s->n; ++i) { s -= bar(i) * r.s->b(i); } } return s; }

/// an output with scalar and vector faces that records what reaches it
struct Log { int size = 1; double p = NAN; Vector x; json opts; std::vector<std::string> calls; };
struct Out { std::shared_ptr<Log> l; };
int getSize(const Out &o) { return o.l->size; }
void setInputs(Out &o, const miso::MISOInputs &in) { o.l->calls.push_back("inputs"); miso::setValueFromInputs(in, "p", o.l->p); miso::setVectorFromInputs(in, "x", o.l->x, true); }
void setOptions(Out &o, const json &j) { o.l->calls.push_back("options"); o.l->opts.update(j, true); }
static double xs(const Log &l) { double s = l.p; for (int i = 0; i < l.x.Size(); ++i) { s += (i + 1) * l.x(i); } return s; }
double calcOutput(Out &o, const miso::MISOInputs &in) { o.l->calls.push_back("scalar"); return xs(*o.l); }
void calcOutput(Out &o, const miso::MISOInputs &in, Vector &v) { o.l->calls.push_back("vector"); for (int i = 0; i < v.Size(); ++i) { v(i) = xs(*o.l) + i; } }
double calcOutputPartial(Out &o, const std::string &w, const miso::MISOInputs &) { o.l->calls.push_back("partial"); return xs(*o.l) * w.size(); }
void calcOutputPartial(Out &o, const std::string &w, const miso::MISOInputs &, Vector &v) { o.l->calls.push_back("vpartial"); for (int i = 0; i < v.Size(); ++i) { v(i) += xs(*o.l) * w.size() + i; } }
double jacobianVectorProduct(Out &o, const Vector &dot, const std::string &w) { o.l->calls.push_back("jvp"); return xs(*o.l) * dot(0) * w.size(); }
void jacobianVectorProduct(Out &o, const Vector &dot, const std::string &w, Vector &v) { o.l->calls.push_back("vjvp"); for (int i = 0; i < v.Size(); ++i) { v(i) += xs(*o.l) * dot(0) * w.size() + i; } }
double vectorJacobianProduct(Out &o, const Vector &bar, const std::string &w) { o.l->calls.push_back("vjp"); return xs(*o.l) * bar(0) * w.size(); }
void vectorJacobianProduct(Out &o, const Vector &bar, const std::string &w, Vector &v) { o.l->calls.push_back("vvjp"); for (int i = 0; i < v.Size(); ++i) { v(i) += xs(*o.l) * bar(0) * w.size() + i; } }
}  // namespace vt
using vt::Sys; using vt::Log;

static V ref_slope(const Sys &s, const V &u, double h, double t)
{  // k = -R(u + h k, t)
   int n = s.n; V k(n, 0.0), x(n); Vector r(n), dk(n); DenseMatrix A;
   for (int it = 0; it < 60; ++it)
   {
      for (int i = 0; i < n; ++i) { x[i] = u[i] + h * k[i]; }
      s.R(x.data(), t, r.GetData()); s.J(x.data(), A); A *= h;
      for (int i = 0; i < n; ++i) { r(i) = -k[i] - r(i); A(i, i) += 1; }
      DenseMatrixInverse Ai(A); Ai.Mult(r, dk);
      double m = 0; for (int i = 0; i < n; ++i) { k[i] += dk(i); m = std::max(m, std::fabs(dk(i))); }
      if (m < 1e-15) { break; }
   }
   return k;
}
static V ref_step(const Sys &s, const std::string &type, const V &u, double t, double dt)
{
   int n = s.n; V y(u); auto ax = [&](double h, const V &k) { V r(u); for (int i = 0; i < n; ++i) { r[i] += h * k[i]; } return r; };
   if (type == "RK1") { V k = ref_slope(s, u, 0, t); for (int i = 0; i < n; ++i) { y[i] += dt * k[i]; } }
   else if (type == "MIDPOINT") { V k = ref_slope(s, u, dt / 2, t + dt / 2); for (int i = 0; i < n; ++i) { y[i] += dt * k[i]; } }
   else if (type == "PTC") { V k = ref_slope(s, u, dt, t + dt); for (int i = 0; i < n; ++i) { y[i] += dt * k[i]; } }
   else
   {
      V k1 = ref_slope(s, u, 0, t), k2 = ref_slope(s, ax(dt / 2, k1), 0, t + dt / 2), k3 = ref_slope(s, ax(dt / 2, k2), 0, t + dt / 2), k4 = ref_slope(s, ax(dt, k3), 0, t + dt);
      for (int i = 0; i < n; ++i) { y[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); }
   }
   return y;
}

struct Ev { std::string what; int iter; double t, dt; V u; };
struct Probe : miso::AbstractSolver2
{
   std::vector<Ev> ev; std::shared_ptr<Sys> s; std::map<std::string, std::shared_ptr<Log>> logs; std::vector<std::pair<std::string, json>> added;
   mutable std::vector<V> sizes; std::vector<double> own_dt; int stop_at = -1;
   Probe(const json &o, std::shared_ptr<Sys> s_, bool unsteady) : AbstractSolver2(MPI_COMM_WORLD, o), s(s_)
   {
      if (!s) { return; }
      spatial_res = std::make_unique<miso::MISOResidual>(vt::Res{s});
      linear_solver = miso::constructLinearSolver(comm, options["lin-solver"], nullptr);
      nonlinear_solver = miso::constructNonlinearSolver(comm, options["nonlin-solver"], *linear_solver);
      if (unsteady)
      {
         space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*spatial_res, static_cast<Operator *>(nullptr)));
         nonlinear_solver->SetOperator(*space_time_res);
         ode = std::make_unique<miso::FirstOrderODE>(*space_time_res, options["time-dis"], *nonlinear_solver, out);
      }
      else { nonlinear_solver->SetOperator(*spatial_res); }
   }
   void log(miso::DataLogger l, miso::LoggingOptions o) { addLogger(std::move(l), std::move(o)); }
   static V vec(const Vector &u) { return V(u.GetData(), u.GetData() + u.Size()); }
   void initialHook(const Vector &u) override { AbstractSolver2::initialHook(u); ev.push_back({"initial", -1, 0, 0, vec(u)}); }
   void iterationHook(int i, double t, double dt, const Vector &u) override { AbstractSolver2::iterationHook(i, t, dt, u); ev.push_back({"iteration", i, t, dt, vec(u)}); }
   void terminalHook(int i, double t, const Vector &u) override { AbstractSolver2::terminalHook(i, t, u); ev.push_back({"terminal", i, t, 0, vec(u)}); }
   double calcStepSize(int i, double t, double tf, double old, const Vector &u) const override
   {
      V q{double(i), t, tf, old}; for (int k = 0; k < u.Size(); ++k) { q.push_back(u(k)); } sizes.push_back(q);
      if (!own_dt.empty()) { return own_dt[i % own_dt.size()]; }
      return AbstractSolver2::calcStepSize(i, t, tf, old, u);
   }
   mutable std::vector<Ev> exits;
   bool iterationExit(int i, double t, double tf, double dt, const Vector &u) const override
   {
      exits.push_back({"exit", i, t, dt, vec(u)});
      if (stop_at >= 0) { return i >= stop_at; }
      return AbstractSolver2::iterationExit(i, t, tf, dt, u);
   }
   void addOutput(const std::string &name, const json &o) override
   {
      added.push_back({name, o}); if (o.contains("refuse")) { throw miso::MISOException("unsupported"); }
      auto l = std::make_shared<Log>(); l->size = o.is_object() ? o.value("size", 1) : 1; l->x.SetSize(0); logs[name] = l; outputs.emplace(name, vt::Out{l});
   }
   // reach into the protected interface
   using AbstractSolver2::outputs; using AbstractSolver2::options; using AbstractSolver2::nonlinear_solver;
};
static std::shared_ptr<Sys> rand_sys(Case &c)
{
   auto &g = c.rng; auto s = std::make_shared<Sys>(); int n = s->n = c.in("n", g.irand(1, 5));
   s->K.resize(n * n); s->d.resize(n); s->q.resize(n); s->w.resize(n); s->b.SetSize(n);
   for (auto &x : s->K) { x = g.uni(-0.4, 0.4) / n; }
   for (int i = 0; i < n; ++i) { s->K[i * n + i] += g.uni(0.8, 1.6); s->d[i] = g.uni(0, 0.5); s->q[i] = g.uni(-1, 1); s->w[i] = g.uni(-4, 4); s->b(i) = g.uni(-1, 1); }
   s->p = g.uni(0.5, 2);
   return s;
}
static json base_opts(bool print = false)
{
   return {{"print-options", print}, {"silent", true},
           {"lin-solver", {{"type", "gmres"}, {"reltol", 1e-14}, {"abstol", 1e-15}, {"maxiter", 100}, {"kdim", 60}, {"printlevel", -1}}},
           {"adj-solver", {{"type", "gmres"}, {"reltol", 1e-14}, {"abstol", 1e-15}, {"maxiter", 100}, {"kdim", 60}, {"printlevel", -1}}},
           {"nonlin-solver", {{"type", "newton"}, {"reltol", 1e-13}, {"abstol", 1e-13}, {"maxiter", 60}, {"printlevel", -1}}}};
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static double scale(const V &v) { double s = 1; for (double x : v) { s = std::max(s, std::fabs(x)); } return s; }

template <class L> static bool read(const std::string &name, int label, double &t, V &v)
{
   std::string dir = std::is_same<L, miso::ASCIILogger>::value ? "ASCIILogger/" : "BinaryLogger/";
   if (!std::filesystem::exists(dir + name + "_" + std::to_string(label) + "_0")) { return false; }
   Vector u; L::readState(name, label, 0, t, u); v = Probe::vec(u); return true;
}
static int files(const std::string &dir)
{ int k = 0; if (std::filesystem::exists(dir)) for (auto &e : std::filesystem::directory_iterator(dir)) { (void)e; ++k; } return k; }
static void wipe() { std::filesystem::remove_all("ASCIILogger"); std::filesystem::remove_all("BinaryLogger"); }

// ------------------------------------------------------------ time marching
template <class L> static void snapshots(Case &c, const char *dir, const miso::LoggingOptions &o, const std::vector<V> &us, const V &ts)
{
   // us[k], ts[k]: state after k steps
   int N = us.size() - 1; std::map<int, int> want;   // label -> index
   if (o.initial_state) { want[0] = 0; }
   if (o.each_timestep) { for (int k = 0; k < N; ++k) { want[k] = k; } }
   if (o.final_state) { want[N] = N; }
   c.check(files(dir) == (int)want.size(), "one-snapshot-per-logged-state", std::string(dir) + ": " + std::to_string(files(dir)) + " files for " + std::to_string(want.size()) + " states, " + std::to_string(N) + " steps");
   for (auto &w : want)
   {
      double t = NAN; V v; c.count("snapshots");
      if (!c.check(read<L>("state", w.first, t, v), "snapshot-of-every-logged-state", "label " + std::to_string(w.first) + " of " + std::to_string(N))) { continue; }
      c.check(v == us[w.second], "snapshot-holds-that-state", "label " + std::to_string(w.first));
      // the initial snapshot is stamped 0.0 unless the iteration snapshot replaced it
      if (w.first == 0 && (!o.each_timestep || N == 0)) { c.check(t == 0.0 || t == ts[0], "initial-time-stamp"); }
      else { c.check(t == ts[w.second], "time-stamp-of-snapshot", "label " + std::to_string(w.first) + " t " + std::to_string(t) + " vs " + std::to_string(ts[w.second])); }
   }
}
static void march(Case &c)
{
   auto &g = c.rng; wipe(); auto s = rand_sys(c); int n = s->n; json o = base_opts();
   static const std::vector<std::string> types = {"RK1", "RK4", "MIDPOINT", "PTC"};
   std::string type = c.in("type", g.pick(types));
   double t0 = c.in("t0", g.coin(0.4) ? 0.0 : g.uni(-3, 3)), dt = g.logu(0.02, 0.3), tf;
   int mode = c.in("mode", g.irand(0, 5)), nst = g.irand(1, 12);
   tf = mode == 0 ? t0 + nst * dt : mode == 1 ? t0 + dt * g.uni(0.05, 0.95) : t0 + dt * (nst + g.uni(-0.95, 0.95) * (nst > 1 ? 1 : 0) + (nst > 1 ? 0 : g.uni(0, 1)));
   if (g.coin(0.2)) { dt = std::round(dt * 100 + 1) / 100; tf = std::round(t0 * 10) / 10 + nst * 0.1; t0 = std::round(t0 * 10) / 10; }
   c.in("t0", t0); c.in("tf", tf); c.in("dt", dt);
   int exact = c.in("exact", g.irand(0, 2)), cap = c.in("cap", g.coin(0.25) ? g.irand(0, 6) : 10000);
   o["time-dis"] = {{"type", type}, {"t-initial", t0}, {"t-final", tf}, {"dt", dt}, {"max-iter", cap}, {"steady", false}};
   if (exact < 2) { o["time-dis"]["exact-t-final"] = exact == 1; }
   Probe P(o, s, true);
   bool own = mode == 5; if (own) { for (int i = 0; i < 3; ++i) { P.own_dt.push_back(dt * g.uni(0.3, 1.2)); } if (g.coin()) { P.stop_at = g.irand(0, 8); } }
   miso::LoggingOptions la, lb; bool has_a = c.in("ascii", g.coin(0.6)), has_b = c.in("binary", g.coin(0.6));
   for (auto *l : {&la, &lb}) { l->initial_state = g.coin(0.7); l->each_timestep = g.coin(0.6); l->final_state = g.coin(0.7); }
   c.in("logs", (la.initial_state ? 1 : 0) + (la.each_timestep ? 2 : 0) + (la.final_state ? 4 : 0) + 10 * ((lb.initial_state ? 1 : 0) + (lb.each_timestep ? 2 : 0) + (lb.final_state ? 4 : 0)));
   if (has_a) { P.log(miso::ASCIILogger(), la); } if (has_b) { P.log(miso::BinaryLogger(), lb); }
   Vector u(n); V u0(n); for (int i = 0; i < n; ++i) { u0[i] = u(i) = g.uni(-1, 1); } c.invec("u0", u0, n);
   Vector bv(n); for (int i = 0; i < n; ++i) { bv(i) = g.uni(-1, 1); } double pv = g.uni(0.5, 2); bool inp = c.in("inputs", g.coin(0.6));
   if (inp) { P.solveForState({{"p", pv}, {"b", bv}}, u); c.check(s->p == pv && s->b(0) == bv(0), "inputs-reach-the-residual"); c.count("inputs-forwarded"); }
   else { P.solveForState(u); }
   // ---- judge the trace
   auto &ev = P.ev; int N = (int)ev.size() - 2;
   if (!c.check(ev.size() >= 2 && ev.front().what == "initial" && ev.back().what == "terminal", "hooks-run-in-order")) { return; }
   c.check(ev[0].u == u0, "initial-hook-sees-the-initial-state");
   double t = t0; V x(u0); std::vector<V> us{x}; V ts{t0}; bool done = false; int k = 0; double lastdt = 0;
   for (; k < cap && !done; ++k)
   {
      if (!c.check(k < N && ev[k + 1].what == "iteration", "a-step-is-taken-until-the-final-time", "stopped after " + std::to_string(N) + " at t " + std::to_string(t))) { return; }
      const Ev &e = ev[k + 1];
      c.check(e.iter == k, "iteration-number"); c.check(e.t == t, "hook-time-before-the-step", std::to_string(e.t - t)); c.check(e.u == x, "hook-state-before-the-step");
      double want = own ? P.own_dt[k % 3] : exact == 0 ? dt : std::min(dt, tf - t);
      c.near(e.dt, want, 1e-14 * dt, "step-size-" + std::string(own ? "of-the-derived-solver" : exact == 0 ? "constant" : "truncated-to-the-final-time"));
      if (!own && exact != 0 && want < dt) { c.count("truncated-steps"); }
      if (k < (int)P.sizes.size()) { auto &q = P.sizes[k]; c.check(q[0] == k && q[1] == t && q[2] == tf && (k == 0 || q[3] == ev[k].dt) && V(q.begin() + 4, q.end()) == x, "step-size-is-asked-for-the-current-state"); }
      V y = ref_step(*s, type, x, t, e.dt);
      const V &got = ev[k + 2].u;
      for (int i = 0; i < n; ++i) { c.near(got[i], y[i], 2e-10 * scale(y), "state-after-the-step-" + type); }
      c.near(ev[k + 2].t, t + e.dt, 1e-14 * (1 + std::fabs(t)), "time-after-the-step");
      x = got; t = ev[k + 2].t; us.push_back(x); ts.push_back(t); lastdt = e.dt; c.count("steps");
      if (k < (int)P.exits.size()) { auto &q = P.exits[k]; c.check(q.iter == k && q.t == t && q.dt == e.dt && q.u == x, "exit-is-asked-after-the-step"); }
      done = P.stop_at >= 0 ? k >= P.stop_at : t >= tf - 1e-14 * lastdt;
   }
   c.check(N == k, "no-step-past-the-final-time", std::to_string(N) + " steps, " + std::to_string(k) + " expected");
   if (!done) { c.count("step-limit-reached"); }
   else if (!own && exact != 0) { c.near(t, tf, 2e-13 * (1 + std::fabs(tf) + std::fabs(t0)), "ends-exactly-at-the-final-time"); c.count("exact-ends"); }
   else if (!own) { c.check(t - lastdt < tf, "overshoots-by-less-than-a-step"); }
   c.check(ev.back().t == t && V(u.GetData(), u.GetData() + n) == x, "terminal-hook-sees-the-final-state"); c.check(ev.back().u == x, "terminal-hook-state");
   if (has_a) { snapshots<miso::ASCIILogger>(c, "ASCIILogger", la, us, ts); } else { c.check(files("ASCIILogger") == 0, "nothing-is-logged-without-a-logger"); }
   if (has_b) { snapshots<miso::BinaryLogger>(c, "BinaryLogger", lb, us, ts); } else { c.check(files("BinaryLogger") == 0, "nothing-is-logged-without-a-logger"); }
   // unsteady problems have no adjoint or products
   if (g.coin(0.3))
   {
      Vector a(n), b2(n); a = 1.0; b2 = 0.0; miso::MISOInputs in{{"state", u}}; c.count("unsteady-refusals");
      auto miso_throws = [&](std::function<void()> f) { try { f(); } catch (const miso::MISOException &) { return true; } catch (...) { } return false; };
      c.check(miso_throws([&] { P.solveForAdjoint(in, a, b2); }), "unsteady-adjoint-is-refused"); c.check(miso_throws([&] { P.linearize(in); }), "unsteady-linearize-is-refused");
      c.check(miso_throws([&] { P.jacobianVectorProduct(a, "state", b2); }) && miso_throws([&] { P.jacobianVectorProduct(a, "p"); }), "unsteady-jvp-is-refused");
      c.check(miso_throws([&] { P.vectorJacobianProduct(a, "state", b2); }) && miso_throws([&] { P.vectorJacobianProduct(a, "p"); }), "unsteady-vjp-is-refused");
   }
   wipe();
}
// ------------------------------------------------------------- steady solve
static void steady(Case &c)
{
   auto &g = c.rng; wipe(); auto s = rand_sys(c); int n = s->n; for (auto &q : s->q) { q = 0; }
   Probe P(base_opts(), s, false); bool la = g.coin(), lb = g.coin();
   miso::LoggingOptions lo; lo.initial_state = g.coin();
   if (la) { P.log(miso::ASCIILogger(), lo); } if (lb) { P.log(miso::BinaryLogger(), lo); }
   c.check(P.getStateSize() == n && P.getFieldSize("state") == n && P.getFieldSize("residual") == n && P.getFieldSize("adjoint") == n, "sizes");
   c.check(P.getFieldSize("nonsense") == 0 && P.getFieldSize("") == 0, "unknown-field-has-size-zero");
   V prev;
   for (int rep = 0; rep < 3; ++rep)
   {
      Vector u(n), b(n); for (int i = 0; i < n; ++i) { u(i) = g.uni(-2, 2); b(i) = g.uni(-2, 2); } double p = g.uni(0.3, 2); bool give = g.coin(0.7) || rep == 0;
      V guess = Probe::vec(u); Vector u_in(u); P.nonlinear_solver->iterative_mode = g.coin(); P.ev.clear();
      // residual before
      Vector r(n), rr(n); r = NAN; miso::MISOInputs in{{"state", u}}; if (give) { in["p"] = p; in["b"] = b; }
      P.calcResidual(in, r); Sys ref(*s); if (give) { ref.p = p; ref.b = b; } ref.R(u.GetData(), s->time, rr.GetData());
      for (int i = 0; i < n; ++i) { c.near(r(i), rr(i), 1e-13 * (1 + std::fabs(rr(i)) + 10), "residual-at-the-inputs"); }
      c.near(P.calcResidualNorm(in), rr.Norml2(), 1e-13 * (1 + rr.Norml2()), "residual-norm");
      if (g.coin()) { Vector r2(n); P.calcResidual(u, r2); r2 -= r; c.near(r2.Norml2(), 0, 0, "residual-of-a-state"); c.near(P.calcResidualNorm(u), rr.Norml2(), 1e-13 * (1 + rr.Norml2()), "residual-norm-of-a-state"); }
      c.check(Probe::vec(u) == guess, "residual-leaves-the-state-alone");
      if (give) { P.solveForState({{"p", p}, {"b", b}}, u); } else { P.solveForState(u); }
      c.check(s->p == ref.p && s->b.DistanceTo(ref.b.GetData()) == 0, "inputs-reach-the-residual");
      ref.R(u.GetData(), s->time, rr.GetData()); c.near(rr.Norml2(), 0, 1e-10, "steady-solution-has-no-residual"); c.count("steady-solves");
      c.check(P.ev.size() >= 1 && P.ev[0].what == "initial" && P.ev[0].u == guess, "initial-hook-sees-the-guess");
      for (auto &e : P.ev) { c.check(e.what != "iteration", "no-time-step-in-a-steady-solve"); }
      for (int k = 0; k < 2; ++k)
      {
         if (!(k ? lb : la)) { c.check(files(k ? "BinaryLogger" : "ASCIILogger") == 0, "nothing-is-logged-without-a-logger"); continue; }
         double t = 7; V v; bool ok = k ? read<miso::BinaryLogger>("state", 1, t, v) : read<miso::ASCIILogger>("state", 1, t, v);
         c.check(ok && t == 1.0 && v == Probe::vec(u), "solution-is-logged"); c.count("snapshots");
         ok = k ? read<miso::BinaryLogger>("state", 0, t, v) : read<miso::ASCIILogger>("state", 0, t, v);
         c.check(ok == lo.initial_state, "initial-state-logged-iff-asked"); if (ok) { c.check(v == guess && t == 0.0, "guess-is-logged"); }
      }
      if (rep == 2 || g.coin())
      {  // adjoint
         Vector bar(n), adj(n); for (int i = 0; i < n; ++i) { bar(i) = g.uni(-1, 1); } adj = 0.0; V bar0 = Probe::vec(bar); long s0 = s->setups, f0 = s->finals; s->calls.clear();
         bool form = g.coin(); double p2 = g.uni(0.5, 2); miso::MISOInputs ai{{"state", u}, {"p", p2}};
         if (form) { P.solveForAdjoint(ai, bar, adj); c.check(s->p == p2, "adjoint-inputs-reach-the-residual"); } else { P.solveForAdjoint(u, bar, adj); }
         c.check(Probe::vec(bar) == bar0, "state-bar-is-left-alone"); c.check(s->setups == s0 + 1, "adjoint-set-up-once-per-solve"); c.count("adjoints");
         if (s->finals != f0) { c.check(s->calls.size() == 2 && s->calls[0] == "setup", "adjoint-finalised-last"); }
         DenseMatrix A; s->J(u.GetData(), A); Vector chk(n); A.MultTranspose(adj, chk);
         for (int i = 0; i < n; ++i) { c.near(chk(i), bar(i), 1e-10 * (1 + adj.Normlinf()), "adjoint-equation"); }
         for (int k = 0; k < 2; ++k) if (k ? lb : la)
         { double t = 7; V v; bool ok = k ? read<miso::BinaryLogger>("adjoint", 0, t, v) : read<miso::ASCIILogger>("adjoint", 0, t, v); c.check(ok && t == 0.0 && v == Probe::vec(adj), "adjoint-is-logged"); }
         // a second one reuses the solver
         Vector adj2(n); adj2 = 0.0; u(0) += 0.3; bar *= -2; P.solveForAdjoint(u, bar, adj2); s->J(u.GetData(), A); A.MultTranspose(adj2, chk);
         for (int i = 0; i < n; ++i) { c.near(chk(i), bar(i), 1e-10 * (1 + adj2.Normlinf()), "second-adjoint-equation"); }
         // products at a linearisation
         P.linearize({{"state", u}, {"p", p2}, {"b", b}}); c.check(s->p == p2, "linearize-forwards-the-inputs");
         Vector d(n), o1(n), o2(n), q(n); for (int i = 0; i < n; ++i) { d(i) = g.uni(-1, 1); q(i) = g.uni(-1, 1); o1(i) = g.uni(-1, 1); o2(i) = g.uni(-1, 1); }
         Vector e1(o1), e2(o2); A.AddMult(d, e1); A.AddMultTranspose(q, e2);
         P.jacobianVectorProduct(d, "state", o1); P.vectorJacobianProduct(q, "state", o2);
         for (int i = 0; i < n; ++i) { c.near(o1(i), e1(i), 1e-12 * 20, "product-accumulates"); c.near(o2(i), e2(i), 1e-12 * 20, "transpose-product-accumulates"); }
         o1 = 0.0; P.jacobianVectorProduct(d, "b", o1); for (int i = 0; i < n; ++i) { c.near(o1(i), -p2 * d(i), 1e-12, "product-names-its-input"); }
         c.near(P.vectorJacobianProduct(q, "p"), -(q * b), 1e-11, "scalar-transpose-product"); c.near(P.jacobianVectorProduct(d, "abcd"), 3 * d(0) + 4, 1e-12, "scalar-product"); c.count("products");
      }
      wipe();
   }
}
// ------------------------------------------------------------------ outputs
static void outs(Case &c)
{
   auto &g = c.rng; auto s = rand_sys(c); Probe P(base_opts(), s, g.coin(0.2)); int n = s->n; (void)n;
   static const std::vector<std::string> names = {"drag", "lift", "energy", "mass", "force:1", ""};
   std::map<std::string, int> model; std::map<std::string, json> mopt;
   auto miso_throws = [&](std::function<void()> f) { try { f(); } catch (const miso::MISOException &) { return true; } catch (...) { } return false; };
   int ops = c.in("ops", g.irand(8, 30));
   for (int k = 0; k < ops; ++k)
   {
      std::string nm = g.pick(names); bool have = model.count(nm) != 0; int op = g.irand(0, 8);
      Vector x(g.irand(1, 4)); for (int i = 0; i < x.Size(); ++i) { x(i) = g.uni(-1, 1); } double p = g.uni(-2, 2);
      miso::MISOInputs in{{"p", p}, {"x", x}}; double f = p; for (int i = 0; i < x.Size(); ++i) { f += (i + 1) * x(i); }
      std::string wrt = g.coin() ? "x" : "state"; Vector dot(2); dot(0) = g.uni(-2, 2); dot(1) = 9; double z0 = g.uni(-1, 1); Log *l = have ? P.logs[nm].get() : nullptr; if (l) { l->calls.clear(); }
      size_t na = P.added.size(); bool thrown = false; double w = wrt.size();
      auto seq = [&](const char *q) { c.check(l->calls.size() == 2 && l->calls[0] == "inputs" && l->calls[1] == q, "inputs-are-set-before-the-output-is-asked", std::string(q)); };
      c.count("output-calls");
      if (op <= 1)
      {
         int sz = g.irand(1, 4); json o; if (g.coin(0.2)) { /* no options: an empty value, null or {} */ thrown = miso_throws([&] { P.createOutput(nm); }); sz = 1; } else { o["size"] = sz; o["k"] = g.irand(0, 99); thrown = miso_throws([&] { P.createOutput(nm, o); }); }
         c.check(thrown == have, "creating-twice-is-refused"); c.check(P.added.size() == na + (have ? 0 : 1), "created-once");
         if (!have) { c.check(P.added.back().first == nm && (P.added.back().second == o || (o.empty() && P.added.back().second.empty())), "options-reach-the-new-output"); model[nm] = sz; c.count("outputs"); }
         else { c.count("duplicates"); }
         continue;
      }
      if (!have)
      {
         double q = 5; Vector v(2); v = 4.0; bool t = false;
         switch (op)
         {
         case 2: t = miso_throws([&] { P.getOutputSize(nm); }); break; case 3: t = miso_throws([&] { P.setOutputOptions(nm, json{{"a", 1}}); }); break;
         case 4: t = miso_throws([&] { P.calcOutput(nm, in); }); break; case 5: t = miso_throws([&] { P.calcOutput(nm, in, v); }); break;
         case 6: t = miso_throws([&] { P.calcOutputPartial(nm, wrt, in, q); }) && miso_throws([&] { P.calcOutputPartial(nm, wrt, in, v); }); break;
         case 7: t = miso_throws([&] { P.outputJacobianVectorProduct(nm, in, dot, wrt, v); }); break; default: t = miso_throws([&] { P.outputVectorJacobianProduct(nm, in, dot, wrt, v); });
         }
         c.check(t, "unknown-output-is-refused", nm + " op " + std::to_string(op)); c.check(q == 5 && v(0) == 4.0, "refusal-changes-nothing"); c.count("unknown-outputs"); continue;
      }
      int sz = model[nm]; Vector v(g.coin(0.4) ? 1 : g.irand(2, 4)); for (int i = 0; i < v.Size(); ++i) { v(i) = g.uni(-1, 1); } Vector v0(v);
      switch (op)
      {
      case 2: c.check(P.getOutputSize(nm) == sz, "output-size"); break;
      case 3: { json o = {{"a", g.irand(0, 9)}, {"sub", {{"b", g.irand(0, 9)}}}}; P.setOutputOptions(nm, o); c.check(l->opts == o, "options-reach-that-output"); for (auto &q : P.logs) { if (q.first != nm) { c.check(q.second->calls.empty(), "no-other-output-is-touched", q.first); } } l->opts = json(); break; }
      case 4: c.near(P.calcOutput(nm, in), f, 1e-13 * 20, "scalar-output"); seq("scalar"); break;
      case 5: P.calcOutput(nm, in, v); if (v.Size() == 1) { c.near(v(0), f, 1e-12, "size-one-output"); seq("scalar"); } else { for (int i = 0; i < v.Size(); ++i) { c.near(v(i), f + i, 1e-12, "vector-output"); } seq("vector"); } break;
      case 6:
         if (g.coin()) { double q = z0; P.calcOutputPartial(nm, wrt, in, q); c.check(std::fabs(q - f * w) < 1e-12 || std::fabs(q - z0 - f * w) < 1e-12, "scalar-partial"); seq("partial"); }
         else { P.calcOutputPartial(nm, wrt, in, v); for (int i = 0; i < v.Size(); ++i) { c.near(v(i), v0(i) + f * w + i, 1e-12, "vector-partial"); } seq("vpartial"); } break;
      case 7: P.outputJacobianVectorProduct(nm, in, dot, wrt, v); if (v.Size() == 1) { c.near(v(0), v0(0) + f * dot(0) * w, 1e-12 * 10, "output-product-accumulates"); seq("jvp"); } else { for (int i = 0; i < v.Size(); ++i) { c.near(v(i), v0(i) + f * dot(0) * w + i, 1e-11, "vector-output-product"); } seq("vjvp"); } break;
      default: P.outputVectorJacobianProduct(nm, in, dot, wrt, v); if (v.Size() == 1) { c.near(v(0), v0(0) + f * dot(0) * w, 1e-12 * 10, "output-transpose-product-accumulates"); seq("vjp"); } else { for (int i = 0; i < v.Size(); ++i) { c.near(v(i), v0(i) + f * dot(0) * w + i, 1e-11, "vector-output-transpose-product"); } seq("vvjp"); }
      }
      for (auto &q : P.logs) { q.second->calls.clear(); }
   }
   // a refused creation leaves nothing behind
   if (!model.count("refused")) { c.check(miso_throws([&] { P.createOutput("refused", json{{"refuse", 1}}); }), "refusal-of-the-derived-solver-is-passed-on"); c.check(miso_throws([&] { P.calcOutput("refused", {}); }), "refused-output-does-not-exist"); }
}
// ---------------------------------------------------- setting and comparing
static void states(Case &c)
{
   auto &g = c.rng; auto s = rand_sys(c); Probe P(base_opts(), s, g.coin()); int n = s->n;
   Vector u(n), ex(n); for (int i = 0; i < n; ++i) { u(i) = g.uni(-1, 1); ex(i) = g.uni(-1, 1); } double a = g.uni(-2, 2);
   auto fun = [a](Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = a * (i + 1); } };
   Vector t(n); fun(t); Vector d(n);
   subtract(t, u, d); c.near(P.calcStateError(fun, u), d.Norml2(), 1e-13 * (1 + d.Norml2()), "error-against-a-function"); c.count("errors");
   subtract(ex, u, d); c.near(P.calcStateError(ex, u), d.Norml2(), 1e-13 * (1 + d.Norml2()), "error-against-a-vector");
   std::function<void(Vector &)> sf = fun; subtract(t, u, d); c.near(P.calcStateError(sf, u, "state"), d.Norml2(), 1e-13 * (1 + d.Norml2()), "error-against-a-std-function");
   V u0 = Probe::vec(u), e0 = Probe::vec(ex);
   Vector wrong(n + g.irand(1, 3)); wrong = 1.0; bool th = false; try { P.calcStateError(wrong, u); } catch (const miso::MISOException &) { th = true; } c.check(th, "wrong-size-is-refused");
   if (n > 1) { Vector w2(n - 1); w2 = 0.5; th = false; try { P.calcStateError(w2, u); } catch (const miso::MISOException &) { th = true; } c.check(th, "wrong-size-is-refused"); }
   c.check(std::isnan(P.calcStateError(3, u)), "unusable-comparison-gives-no-number"); c.check(Probe::vec(u) == u0 && Probe::vec(ex) == e0, "comparing-changes-nothing");
   c.near(P.calcStateError(u, u), 0.0, 0.0, "no-error-against-itself");
   P.setState(fun, u); c.check(Probe::vec(u) == Probe::vec(t), "state-set-by-a-function"); c.count("states-set");
   P.setState([&](Vector &v) { v = ex; }, u); c.check(Probe::vec(u) == e0, "state-set-by-a-lambda");
   P.setState(17, u); c.check(Probe::vec(u) == e0, "unusable-setter-leaves-the-state-alone");
}
// ------------------------------------------------------------------ options
static json rand_json(Rng &g, int depth)
{
   if (depth == 0 || g.coin(0.5)) { switch (g.irand(0, 4)) { case 0: return g.irand(-9, 9); case 1: return g.uni(-1, 1); case 2: return g.coin(); case 3: return std::string(1, 'a' + g.irand(0, 25)); default: return json::array({g.irand(0, 9), g.irand(0, 9)}); } }
   json o = json::object(); int k = g.irand(0, 3); for (int i = 0; i < k; ++i) { o[std::string(1, 'a' + g.irand(0, 4))] = rand_json(g, depth - 1); } return o;
}
static void merge(json &t, const json &p, bool null_erases)
{  // RFC 7386 / recursive update written out independently
   if (!p.is_object()) { t = p; return; }
   if (!t.is_object()) { t = json::object(); }
   for (auto it = p.begin(); it != p.end(); ++it)
   { if (null_erases && it->is_null()) { t.erase(it.key()); } else { merge(t[it.key()], *it, null_erases); } }
}
static void update(json &t, const json &p)
{ for (auto it = p.begin(); it != p.end(); ++it) { if (it->is_object() && t.contains(it.key()) && t[it.key()].is_object()) { update(t[it.key()], *it); } else { t[it.key()] = *it; } } }
/// update() refuses to merge an object into something that is not one
static bool fits(const json &t, const json &p)
{ for (auto it = p.begin(); it != p.end(); ++it) { if (it->is_object() && t.contains(it.key()) && (!t[it.key()].is_object() || !fits(t[it.key()], *it))) { return false; } } return true; }
static json rand_opts(Rng &g)
{
   json o = json::object();
   std::vector<std::string> keys; for (auto it = miso::default_options.begin(); it != miso::default_options.end(); ++it) { keys.push_back(it.key()); }
   int k = g.irand(0, 6);
   for (int i = 0; i < k; ++i)
   {
      std::string key = g.pick(keys); const json &d = miso::default_options[key];
      if (key == "print-options" || o.contains(key)) { continue; }
      if (d.is_object() && !d.empty() && g.coin(0.8))
      { std::vector<std::string> sub; for (auto it = d.begin(); it != d.end(); ++it) { sub.push_back(it.key()); } o[key][g.pick(sub)] = g.coin(0.1) ? json() : rand_json(g, 1); if (g.coin(0.3)) { o[key]["own"] = rand_json(g, 2); } }
      else { o[key] = rand_json(g, 2); }
   }
   if (g.coin()) { o["mine"] = rand_json(g, 3); }
   return o;
}
static void opts(Case &c)
{
   auto &g = c.rng; json dflt = miso::default_options, user = rand_opts(g); user["print-options"] = g.coin(0.3); user["silent"] = true; c.in("user", user.dump());
   json want = dflt; merge(want, user, true);
   Probe P(user, nullptr, false); json got = P.getOptions();
   c.check(got == want, "options-are-the-defaults-overlaid-by-the-user", got.dump().substr(0, 200)); c.check(miso::default_options == dflt, "defaults-are-not-changed"); c.count("option-sets");
   for (int k = 0; k < 2; ++k) { json o = rand_opts(g); for (auto it = o.begin(); it != o.end(); ++it) { if (it->is_object()) for (auto jt = it->begin(); jt != it->end(); ++jt) { if (jt->is_null()) { *jt = 1; } } } c.in("later", o.dump()); if (!fits(want, o)) { continue; } P.setOptions(o); c.count("later-options"); update(want, o); c.check(P.getOptions() == want, "later-options-overlay-the-earlier"); }
   c.check(throws([&] { P.getStateSize(); }), "no-residual-no-size"); c.check(throws([&] { P.getFieldSize("state"); }) , "no-residual-no-field-size"); c.check(P.getFieldSize("other") == 0, "unknown-field-has-size-zero");
   Probe Q(json{{"print-options", false}, {"silent", true}}, nullptr, false); json w2 = dflt; w2["print-options"] = false; w2["silent"] = true; c.check(Q.getOptions() == w2, "solvers-do-not-share-options");
}

int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); vh::init(argc, argv);
   vh::run("march", 600, march); vh::run("steady", 300, steady); vh::run("outputs", 400, outs); vh::run("states", 200, states); vh::run("options", 300, opts);
   int rc = vh::finish(); MPI_Finalize(); return rc;
}
