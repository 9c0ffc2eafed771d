// C11: time marching.  A residual of our own records what it is asked for; the
// steps taken are compared with independent implementations of the methods and
// with the entropy balance the relaxation methods promise.
#include "mfem.hpp"
#include "ode.hpp"
#include "mfem_extensions.hpp"
#include "matrix_operators.hpp"
#include "vh.hpp"
#include <deque>
using namespace mfem;
using vh::Case;

namespace vt
{
typedef std::vector<double> V;
/// M du/dt = F(u,t): F_i = a_i cos(w_i t + i) + sum_j (K_ij u_j) - d_i u_i^3 (entropy-aware variants below)
struct Model
{
   int n = 1, kind = 0;            // kind 0 generic, 1 entropy-conservative, 2 dissipative
   int mass = 0;                   // 0 identity, 1 hypre, 2 block
   std::vector<double> K, M, d, a, w, ew; // K n*n, M n*n, ew: entropy weights
   int ent = 0;                    // 0 quadratic, 1 exp, 2 cosh-like quartic
   double p = 1.0;                 // an extra scalar input
   // --- trace
   long evals = 0; V last_state; double last_time = NAN, last_dt = NAN;
   std::vector<double> times;
   // entropy S(u) = sum ew_i s(u_i), dS/du_i = ew_i s'(u_i)
   double s(double u) const { return ent == 0 ? 0.5 * u * u : ent == 1 ? std::exp(u) - u : 0.5 * u * u + 0.25 * u * u * u * u; }
   double ds(double u) const { return ent == 0 ? u : ent == 1 ? std::exp(u) - 1 : u + u * u * u; }
   double S(const double *u) const { double r = 0; for (int i = 0; i < n; ++i) { r += ew[i] * s(u[i]); } return r; }
   void F(const double *u, double t, double *f) const
   {
      for (int i = 0; i < n; ++i)
      {
         double r = 0;
         if (kind == 0)
         {
            r = p * a[i] * std::cos(w[i] * t + i) - d[i] * u[i] * u[i] * u[i];
            for (int j = 0; j < n; ++j) { r += K[i * n + j] * u[j]; }
         }
         else
         {  // M du/dt = B w(u) with w = M-free entropy variables (M = diag): K antisymmetric part conserves
            for (int j = 0; j < n; ++j) { r += (K[i * n + j] - K[j * n + i]) * ds(u[j]) * ew[j]; }
            r *= (1 + 0.3 * std::sin(t));
            if (kind == 2) { r -= d[i] * ds(u[i]) * ew[i] * ew[i]; }
         }
         f[i] = r;
      }
   }
   /// dF/du
   void J(const double *u, double t, double *jac) const
   {
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      {
         double v;
         double dds = ent == 0 ? 1 : ent == 1 ? std::exp(u[j]) : 1 + 3 * u[j] * u[j];
         if (kind == 0) { v = K[i * n + j] - (i == j ? 3 * d[i] * u[i] * u[i] : 0); }
         else
         {
            v = (K[i * n + j] - K[j * n + i]) * dds * ew[j] * (1 + 0.3 * std::sin(t));
            if (kind == 2 && i == j) { v -= d[i] * dds * ew[i] * ew[i]; }
         }
         jac[i * n + j] = v;
      }
   }
};
static V gauss(V A, V b)
{
   int n = b.size();
   std::vector<long double> a(A.begin(), A.end()), r(b.begin(), b.end());
   for (int k = 0; k < n; ++k)
   {
      int pv = k; for (int i = k; i < n; ++i) { if (fabsl(a[i * n + k]) > fabsl(a[pv * n + k])) { pv = i; } }
      for (int j = 0; j < n; ++j) { std::swap(a[k * n + j], a[pv * n + j]); } std::swap(r[k], r[pv]);
      for (int i = k + 1; i < n; ++i)
      {
         long double f = a[i * n + k] / a[k * n + k];
         for (int j = k; j < n; ++j) { a[i * n + j] -= f * a[k * n + j]; }
         r[i] -= f * r[k];
      }
   }
   V x(n);
   for (int i = n - 1; i >= 0; --i)
   { long double s = r[i]; for (int j = i + 1; j < n; ++j) { s -= a[i * n + j] * x[j]; } x[i] = s / a[i * n + i]; }
   return x;
}
/// reference: k with M k = F(u + h k, t)
static V slope(const Model &m, const V &u, double h, double t)
{
   int n = m.n; V k(n, 0.0), f(n), x(n), J(n * n);
   for (int it = 0; it < 60; ++it)
   {
      for (int i = 0; i < n; ++i) { x[i] = u[i] + h * k[i]; }
      m.F(x.data(), t, f.data()); m.J(x.data(), t, J.data());
      V A(n * n), r(n); double rn = 0;
      for (int i = 0; i < n; ++i)
      {
         r[i] = f[i]; for (int j = 0; j < n; ++j) { r[i] -= m.M[i * n + j] * k[j]; A[i * n + j] = m.M[i * n + j] - h * J[i * n + j]; }
         rn = std::max(rn, std::fabs(r[i]));
      }
      V dk = gauss(A, r); double dn = 0;
      for (int i = 0; i < n; ++i) { k[i] += dk[i]; dn = std::max(dn, std::fabs(dk[i])); }
      if (dn < 1e-15 || (h == 0 && it > 1)) { break; }
   }
   return k;
}
struct Res
{
   std::shared_ptr<Model> m;
   std::shared_ptr<DenseMatrix> jd; std::shared_ptr<HypreParMatrix> jh;
   double time = 0.0; Vector state, sdot; double dt = NAN;
   std::shared_ptr<SparseMatrix> sp; std::shared_ptr<std::vector<HYPRE_BigInt>> rows;
};
int getSize(const Res &r) { return r.m->n; }
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_WORLD; }
void setInputs(Res &r, const miso::MISOInputs &in)
{
   miso::setValueFromInputs(in, "time", r.time); miso::setValueFromInputs(in, "dt", r.dt);
   miso::setValueFromInputs(in, "p", r.m->p);
   r.m->last_time = r.time; r.m->last_dt = r.dt;
}
void setOptions(Res &r, const nlohmann::json &o) { if (o.contains("p")) { r.m->p = o["p"].get<double>(); } }
void evaluate(Res &r, const miso::MISOInputs &in, Vector &res)
{
   setInputs(r, in);
   Vector u; miso::setVectorFromInputs(in, "state", u, false, true);
   V f(r.m->n); r.m->F(u.GetData(), r.time, f.data());
   for (int i = 0; i < r.m->n; ++i) { res(i) = -f[i]; }
   ++r.m->evals; r.m->times.push_back(r.time);
}
Operator &getJacobian(Res &r, const miso::MISOInputs &in, const std::string &wrt)
{
   int n = r.m->n; Vector u; miso::setVectorFromInputs(in, "state", u, false, true);
   V J(n * n); r.m->J(u.GetData(), r.time, J.data());
   if (r.m->mass == 0)
   {
      r.jd = std::make_shared<DenseMatrix>(n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { (*r.jd)(i, j) = -J[i * n + j]; }
      return *r.jd;
   }
   r.sp = std::make_shared<SparseMatrix>(n, n);
   for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r.sp->Set(i, j, -J[i * n + j]); }
   r.sp->Finalize(0);
   r.rows = std::make_shared<std::vector<HYPRE_BigInt>>(std::vector<HYPRE_BigInt>{0, n});
   HypreParMatrix tmp(MPI_COMM_WORLD, n, r.rows->data(), r.sp.get());
   r.jh = std::make_shared<HypreParMatrix>(tmp);
   return *r.jh;
}
double calcEntropy(Res &r, const miso::MISOInputs &in)
{ Vector u; miso::setVectorFromInputs(in, "state", u, false, true); return r.m->S(u.GetData()); }
/// w^T R with R = -M du/dt: - sum_i w_i (M k)_i, where w solves M w... (mass is diagonal here)
double calcEntropyChange(Res &r, const miso::MISOInputs &in)
{
   Vector u, k; miso::setVectorFromInputs(in, "state", u, false, true); miso::setVectorFromInputs(in, "state_dot", k, false, true);
   double t = NAN, dt = NAN; miso::setValueFromInputs(in, "time", t, true); miso::setValueFromInputs(in, "dt", dt, true);
   double s = 0; for (int i = 0; i < r.m->n; ++i) { s -= r.m->ew[i] * r.m->ds(u(i)) * k(i); }
   r.m->last_dt = dt;
   return s;
}
double calcSupplyRate(Res &r, const miso::MISOInputs &in) { return 3.25; }
}  // namespace vt

using vt::Model; using vt::Res; using vt::V;

// --------------------------------------------------------------- set-up
struct Rig
{
   std::shared_ptr<Model> m = std::make_shared<Model>();
   std::unique_ptr<HypreParMatrix> Mh; std::unique_ptr<SparseMatrix> Ms; HYPRE_BigInt rows[2];
   std::unique_ptr<miso::MISOResidual> spatial, st;
   std::unique_ptr<Solver> lin; std::unique_ptr<NewtonSolver> newt;
   std::ostringstream log;
   std::unique_ptr<miso::FirstOrderODE> ode;
   void build(Case &c, bool steady, bool diag_mass)
   {
      auto &g = c.rng; int n = m->n;
      m->M.assign(n * n, 0.0);
      for (int i = 0; i < n; ++i)
      {
         m->M[i * n + i] = m->mass == 0 ? 1.0 : g.uni(0.5, 2);
         if (m->mass == 1 && !diag_mass) for (int j = 0; j < i; ++j) { m->M[i * n + j] = m->M[j * n + i] = 0.4 * g.uni(-1, 1) / n; }
      }
      spatial = std::make_unique<miso::MISOResidual>(Res{m});
      Operator *mass = nullptr;
      if (m->mass == 1)
      {
         Ms = std::make_unique<SparseMatrix>(n, n);
         for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { Ms->Set(i, j, m->M[i * n + j]); }
         Ms->Finalize(0); rows[0] = 0; rows[1] = n;
         Mh = std::make_unique<HypreParMatrix>(MPI_COMM_WORLD, n, rows, Ms.get());
         mass = Mh.get();
      }
      st = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*spatial, mass));
      nlohmann::json lo = {{"type", "gmres"}, {"reltol", 1e-14}, {"abstol", 1e-15}, {"maxiter", 200}, {"kdim", 100}, {"printlevel", -1}};
      lin = miso::constructLinearSolver(MPI_COMM_WORLD, lo, nullptr);
      nlohmann::json no = {{"type", c.in("newton", std::string(g.coin(0.3) ? "relaxednewton" : "newton"))}, {"reltol", 1e-13}, {"abstol", 1e-13}, {"maxiter", 60}, {"printlevel", -1}};
      newt = miso::constructNonlinearSolver(MPI_COMM_WORLD, no, *lin);
      newt->SetOperator(steady ? *spatial : *st);
   }
   void make_ode(const std::string &type, bool steady)
   {
      nlohmann::json o = {{"type", type}};
      ode = std::make_unique<miso::FirstOrderODE>(steady ? *spatial : *st, o, *newt, &log);
   }
};
static void rand_model(Case &c, Model &m)
{
   auto &g = c.rng; int n = m.n = c.in("n", g.irand(1, 6));
   m.kind = c.in("kind", g.irand(0, 2)); m.mass = c.in("mass", g.irand(0, 1)); m.ent = c.in("entropy", g.irand(0, 2));
   m.K.resize(n * n); m.d.resize(n); m.a.resize(n); m.w.resize(n); m.ew.resize(n);
   for (auto &x : m.K) { x = g.uni(-1, 1); }
   for (auto &x : m.d) { x = g.uni(0.05, 1); }
   for (auto &x : m.a) { x = g.uni(-2, 2); }
   for (auto &x : m.w) { x = g.uni(-4, 4); }
   for (auto &x : m.ew) { x = g.uni(0.4, 1.5); }
}
static const double A6[28] = {.6e-1, .1923996296296296296296296296296296296296e-1, .7669337037037037037037037037037037037037e-1, .35975e-1, 0., .107925,
   1.318683415233148260919747276431735612861, 0., -5.042058063628562225427761634715637693344, 4.220674648395413964508014358283902080483,
   -41.87259166432751461803757780644346812905, 0., 159.4325621631374917700365669070346830453, -122.1192135650100309202516203389242140663, 5.531743066200053768252631238332999150076,
   -54.43015693531650433250642051294142461271, 0., 207.0672513650184644273657173866509835987, -158.6108137845899991828742424365058599469, 6.991816585950242321992597280791793907096, -.1859723106220323397765171799549294623692e-1,
   -54.66374178728197680241215648050386959351, 0., 207.9528062553893734515824816699834244238, -159.2889574744995071508959805871426654216, 7.018743740796944434698170760964252490817, -.1833878590504572306472782005141738268361e-1, -.5119484997882099077875432497245168395840e-3};
static const double B6[8] = {.3438957868357036009278820124728322386520e-1, 0., 0., .2582624555633503404659558098586120858767, .4209371189673537150642551514069801967032, 4.405396469669310170148836816197095664891, -176.4831190242986576151740942499002125029, 172.3641334014150730294022582711902413315};
static const double C6[8] = {0, .6e-1, .9593333333333333333333333333333333333333e-1, .1439, .4973, .9725, .9995, 1.};

/// reference step.  For the relaxation methods returns the unrelaxed update
/// direction (dx), and delta = sum b_i w_i^T R_i.
static void ref_step(const Model &m, const std::string &type, const V &x, double t, double dt, V &dx, double &delta)
{
   int n = m.n; dx.assign(n, 0.0); delta = 0;
   auto entchg = [&](const V &u, const V &k) { double s = 0; for (int i = 0; i < n; ++i) { s -= m.ew[i] * m.ds(u[i]) * k[i]; } return s; };
   auto ax = [&](const V &u, double h, const V &k) { V r(n); for (int i = 0; i < n; ++i) { r[i] = u[i] + h * k[i]; } return r; };
   if (type == "RK1") { V k = vt::slope(m, x, 0, t); for (int i = 0; i < n; ++i) { dx[i] = dt * k[i]; } }
   else if (type == "RK4")
   {
      V k1 = vt::slope(m, x, 0, t), k2 = vt::slope(m, ax(x, dt / 2, k1), 0, t + dt / 2), k3 = vt::slope(m, ax(x, dt / 2, k2), 0, t + dt / 2), k4 = vt::slope(m, ax(x, dt, k3), 0, t + dt);
      for (int i = 0; i < n; ++i) { dx[i] = dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); }
   }
   else if (type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT")
   {
      V k = vt::slope(m, x, dt / 2, t + dt / 2); V xm = ax(x, dt / 2, k);
      delta = entchg(xm, k);
      for (int i = 0; i < n; ++i) { dx[i] = dt * k[i]; }
   }
   else if (type == "PTC") { V k = vt::slope(m, x, dt, t + dt); for (int i = 0; i < n; ++i) { dx[i] = dt * k[i]; } }
   else if (type == "RRK6")
   {
      std::vector<V> k; int l = 0;
      for (int i = 0; i < 8; ++i)
      {
         V y = x; for (int j = 0; j < i; ++j) { double a = A6[l++]; for (int q = 0; q < n; ++q) { y[q] += dt * a * k[j][q]; } }
         k.push_back(vt::slope(m, y, 0, t + C6[i] * dt));
         delta += B6[i] * entchg(y, k[i]);
         for (int q = 0; q < n; ++q) { dx[q] += dt * B6[i] * k[i][q]; }
      }
   }
}

static void steps(Case &c)
{
   auto &g = c.rng; Rig R; Model &m = *R.m; rand_model(c, m);
   static const std::vector<std::string> types = {"RK1", "RK4", "MIDPOINT", "RRK", "RRKMIDPOINT", "RRK6", "PTC"};
   std::string type = c.in("type", g.pick(types));
   bool relax = type[1] == 'R';
   bool impl = type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT" || type == "PTC";
   if (relax && m.kind == 0) { m.kind = c.in("kind2", g.irand(1, 2)); }
   bool diag = relax || g.coin(0.3);
   R.build(c, false, diag); R.make_ode(type, false);
   // entropy of the relaxed systems is only meaningful with S-weights that match the mass; scale the dynamics
   int n = m.n; Vector u(n); V x(n);
   double amp = m.ent == 1 ? 0.8 : 1.2;
   for (int i = 0; i < n; ++i) { x[i] = u(i) = amp * g.uni(-1, 1); }
   c.invec("u", u, n);
   double t = c.in("t0", g.coin() ? 0.0 : g.uni(-2, 5));
   int ns = c.in("steps", g.irand(1, 4)); double tol = 2e-9;
   for (int s = 0; s < ns; ++s)
   {
      double dt = c.in("dt", g.logu(relax ? 0.02 : 1e-3, impl ? 0.3 : 0.15)), dt_in = dt, t_in = t;
      Vector before(u); for (int i = 0; i < n; ++i) { x[i] = u(i); }
      V dx; double delta; ref_step(m, type, x, t, dt, dx, delta);
      double S0 = m.S(x.data());
      R.m->times.clear();
      R.ode->step(u, t, dt);
      c.count("steps"); c.count("steps-" + type);
      double sc = 1; for (int i = 0; i < n; ++i) { sc = std::max({sc, std::fabs(x[i]), std::fabs(dx[i])}); }
      c.check(dt == dt_in, "step-size-kept");
      if (!relax)
      {
         c.near(t, t_in + dt, 1e-14 * (1 + std::fabs(t_in)), "time-advances-by-dt");
         for (int i = 0; i < n; ++i) { c.near(u(i), x[i] + dx[i], tol * sc, "step-of-" + type, "component " + std::to_string(i)); }
      }
      else
      {
         double gam = (t - t_in) / dt; double S1 = m.S(u.GetData());
         c.near(gam, 1.0, 0.6, "relaxation-close-to-one");
         for (int i = 0; i < n; ++i) { c.near(u(i), x[i] + gam * dx[i], tol * sc, "time-and-state-advance-together-" + std::string(type == "RRK6" ? "RRK6" : "RRK"), "component " + std::to_string(i)); }
         // entropy balance; the root finder stops at 1e-12 in the residual or in gamma
         double slope = std::fabs(dt * delta); for (int i = 0; i < n; ++i) { slope += std::fabs(m.ew[i] * m.ds(u(i)) * dx[i]); }
         c.near(S1, S0 - gam * dt * delta, 2e-11 + 2e-11 * slope + 1e-13 * std::fabs(S0) + 1e-12 * slope, "entropy-balance", "S0 " + std::to_string(S0) + " gamma " + std::to_string(gam));
         if (m.mass == 0)
         {
            if (m.kind == 1) { c.near(delta, 0, 1e-10 * (1 + slope), "reference-entropy-rate-is-zero"); c.near(S1, S0, 2e-11 * (1 + std::fabs(S0)), "entropy-conserved"); c.count("conservative-steps"); }
            else { c.check(delta >= -1e-12 && S1 <= S0 + 1e-11, "entropy-never-increases"); c.count("dissipative-steps"); }
         }
         if (std::fabs(gam - 1) > 1e-7) { c.count("relaxed-steps"); }
      }
      // observed stage times all inside the step
      for (double q : m.times) { c.check(q >= t_in - 1e-12 && q <= t_in + dt_in + 1e-12, "stage-times-inside-the-step", std::to_string(q - t_in)); }
      if (type == "MIDPOINT" || relax && type != "RRK6") { c.near(m.times.back(), t_in + dt_in / 2, 1e-12 * (1 + std::fabs(t_in)), "midpoint-stage-time"); }
   }
   if (impl) { c.count(m.mass ? "implicit-hypre-mass" : "implicit-identity-mass"); } else { c.count(m.mass ? "explicit-hypre-mass" : "explicit-identity-mass"); }
}
// the space-time residual and its Jacobian at arbitrary (u, k, dt, t)
static void residual(Case &c)
{
   auto &g = c.rng; Rig R; Model &m = *R.m; rand_model(c, m); R.build(c, false, g.coin());
   int n = m.n; c.check(getSize(*R.st) == n, "size");
   Vector u(n), k(n), r(n), y(n), v(n); double dt = 0, t = 0, p = 0;
   for (int rep = 0; rep < 6; ++rep)
   {
      // any of the inputs may be new, and the others keep their values
      bool whole = rep == 0 || g.coin(); auto is = [&]() { return whole || g.coin(0.4); }; bool nu = is(), nd = is(), nt = is(), np = is(); double small = g.coin(0.3) ? g.logu(1e-10, 1) : 1;
      if (nu) { for (int i = 0; i < n; ++i) { u(i) = small * g.uni(-1, 1); } }
      for (int i = 0; i < n; ++i) { k(i) = small * g.uni(-2, 2); v(i) = g.uni(-1, 1); }
      if (nd) { dt = g.coin(0.3) ? 0.0 : g.logu(1e-3, 2); }
      if (nt) { t = g.uni(-3, 3); }
      if (np) { p = g.uni(-1, 2); } else if (rep) { m.p = p; }
      c.invec("u", u, n); c.invec("k", k, n); c.in("dt", dt); c.in("t", t);
      miso::MISOInputs in{{"state_dot", k}}; if (nu) { in.emplace("state", u); } if (nd) { in.emplace("dt", dt); } if (nt) { in.emplace("time", t); } if (np) { in.emplace("p", p); }
      if (!whole) { c.count("partly-new-inputs"); }
      setInputs(*R.st, in);
      c.check(m.p == p, "inputs-reach-the-spatial-residual");
      // as a Newton solver would: state_dot is passed as the unknown when it aliases k
      bool direct = whole && g.coin();
      if (direct) { evaluate(*R.st, in, r); } else { R.st->Mult(k, r); }
      V x(n), f(n); for (int i = 0; i < n; ++i) { x[i] = u(i) + dt * k(i); }
      m.F(x.data(), t, f.data());
      for (int i = 0; i < n; ++i)
      {
         double e = -f[i]; for (int j = 0; j < n; ++j) { e += m.M[i * n + j] * k(j); }
         c.near(r(i), e, 1e-12 * (small + std::fabs(e) + std::fabs(f[i])) * 20, "residual-is-Mk-plus-R", "dt " + std::to_string(dt));
      }
      Operator &J = direct ? getJacobian(*R.st, in, "state") : R.st->GetGradient(k);
      J.Mult(v, y); V Jf(n * n); m.J(x.data(), t, Jf.data());
      for (int i = 0; i < n; ++i)
      {
         double e = 0; for (int j = 0; j < n; ++j) { e += (m.M[i * n + j] - dt * Jf[i * n + j]) * v(j); }
         c.near(y(i), e, 1e-11 * (1 + std::fabs(e)) * 20, "jacobian-is-M-plus-dt-R'", "dt " + std::to_string(dt));
      }
      in = {{"state", u}, {"state_dot", k}, {"dt", dt}, {"time", t}, {"p", p}};
      double S = calcEntropy(*R.st, in); c.near(S, m.S(u.GetData()), 1e-13 * (1 + std::fabs(S)), "entropy-forwarded");
      c.check(calcSupplyRate(*R.st, in) == 3.25, "supply-rate-forwarded");
      double ch = calcEntropyChange(*R.st, in), e = 0; for (int i = 0; i < n; ++i) { e -= m.ew[i] * m.ds(u(i)) * k(i); }
      c.near(ch, e, 1e-13 * (1 + std::fabs(e)), "entropy-change-forwarded");
      nlohmann::json o = {{"p", 0.5}}; setOptions(*R.st, o); c.check(m.p == 0.5, "options-forwarded");
      c.count("residuals");
   }
}
// convergence to steady states
static void steady(Case &c)
{
   auto &g = c.rng; Rig R; Model &m = *R.m; rand_model(c, m); m.kind = 0;
   int n = m.n;
   for (int i = 0; i < n; ++i) { m.K[i * n + i] -= n + 1.0; m.w[i] = 0; }   // stable, time independent
   bool ptc = g.coin(); c.in("ptc", ptc);
   R.build(c, !ptc, true); R.make_ode(ptc ? "PTC" : "steady", !ptc);
   Vector u(n); for (int i = 0; i < n; ++i) { u(i) = g.uni(-1, 1); }
   double t = 0; Vector r(n);
   if (ptc) { for (int s = 0; s < 30; ++s) { double dt = std::pow(3.0, s) * 0.1; if (dt > 1e6) { break; } R.ode->step(u, t, dt); } }
   else { double dt = 0.7; R.ode->step(u, t, dt); c.near(t, 0.7, 1e-15, "steady-step-advances-time"); c.check(R.newt->iterative_mode, "steady-solve-starts-from-the-state"); }
   evaluate(*R.spatial, miso::MISOInputs{{"state", u}}, r);
   for (int i = 0; i < n; ++i) { c.near(r(i), 0, 1e-8, "steady-residual-vanishes"); }
   c.count(ptc ? "ptc-runs" : "steady-solves");
}
// time-step refinement: global error falls at the method's order
static void order(Case &c)
{
   auto &g = c.rng;
   static const std::vector<std::pair<std::string, int>> types = {{"RK1", 1}, {"RK4", 4}, {"MIDPOINT", 2}, {"RRK", 2}, {"RRK6", 6}, {"PTC", 1}};
   auto ty = types[c.idx % types.size()]; c.in("type", ty.first);
   Rig R; Model &m = *R.m; rand_model(c, m); if (m.n < 2) { m.n = 1; }
   bool relax = ty.first[1] == 'R'; m.mass = 0; if (relax) { m.kind = 1; m.ent = std::max(m.ent, 1); }
   R.build(c, false, true); R.make_ode(ty.first, false);
   int n = m.n; V u0(n); for (auto &x : u0) { x = g.uni(-0.8, 0.8); }
   // the error of one step against many tiny RK4 reference steps to the time the step reports
   double h0 = ty.second >= 4 ? 0.2 : 0.1;
   auto error = [&](double H) {
      double t = 0.3, T = H; Vector u(n); for (int i = 0; i < n; ++i) { u(i) = u0[i]; }
      R.ode->step(u, t, T);
      V y = u0; double tt = 0.3; int N = 400; double h = (t - tt) / N;
      for (int s = 0; s < N; ++s) { V dx; double dl; ref_step(m, "RK4", y, tt + s * h, h, dx, dl); for (int i = 0; i < n; ++i) { y[i] += dx[i]; } }
      double e = 0; for (int i = 0; i < n; ++i) { e = std::max(e, std::fabs(y[i] - u(i))); } return e;
   };
   // one step has error O(h^{p+1}) once the step is short enough
   double e0 = error(h0), first = e0, best = 0; int judged = 0; bool done = false;
   for (int q = 0; q < 4 && e0 > 1e-8 && !done; ++q)
   {
      h0 /= 2; double e1 = error(h0); best = std::max(best, std::log2(e0 / std::max(e1, 1e-14))); ++judged; done = best > ty.second + 1 - 0.9; e0 = e1;
   }
   if (done || judged > 1) { c.check(done, "order-of-accuracy-" + ty.first, "rate " + std::to_string(best) + " err " + std::to_string(first)); c.count("rates"); }
   else { c.check(first < 1e-3, "small-error"); c.count("errors-too-small-for-a-rate"); }
}
static void options(Case &c)
{
   auto &g = c.rng; Rig R; Model &m = *R.m; rand_model(c, m); R.build(c, false, true);
   static const std::vector<std::string> bad = {"", "rk4", "RK2", "Euler", "MIDPOINT ", "RRK4", "none"};
   std::string b = c.in("type", g.pick(bad)); bool threw = false;
   try { R.make_ode(b, false); } catch (const miso::MISOException &e) { threw = std::string(e.what()).find(b) != std::string::npos; }
   catch (const nlohmann::json::exception &) { }
   c.check(threw, "unknown-integrator-refused-by-name");
   bool dep = false; try { nlohmann::json o = {{"type", "RK4"}, {"ode-solver", "RK4"}}; miso::FirstOrderODE x(*R.st, o, *R.newt); } catch (const miso::MISOException &) { dep = true; }
   c.check(dep, "deprecated-option-refused"); c.count("refusals");
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   MPI_Init(&argc, &argv);
   vh::run("steps", 1200, steps);
   vh::run("residual", 240, residual);
   vh::run("steady", 160, steady);
   vh::run("order", 120, order);
   vh::run("options", 40, options);
   int rc = vh::finish();
   MPI_Finalize();
   return rc;
}
