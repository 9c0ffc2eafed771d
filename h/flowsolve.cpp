// C32: the flow solver end to end: every step of a march or continuation against the
// equations of the scheme (with a residual and mass of its own), step sizes, exits,
// conservation, entropy, the entropy log, errors, outputs, refusals.
#include "flowprob.hpp"
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace fp;
template <int D, bool EV> struct On : miso::FlowSolver<D, EV>
{
   On(const json &o, std::unique_ptr<Mesh> m) : miso::FlowSolver<D, EV>(W, o, std::move(m)) { }
   using miso::FlowSolver<D, EV>::addLogger; using miso::FlowSolver<D, EV>::mesh;
};
struct Snap { double t; Vector u; };
/// what the binary logger kept: the states before every step, and the last one
static std::vector<Snap> trace(Case &c, int n, int limit)
{ std::vector<Snap> r; for (int i = 0; i <= limit + 1; ++i) { if (!std::ifstream("BinaryLogger/state_" + std::to_string(i) + "_0")) { break; } Snap s; miso::BinaryLogger::readState("state", i, 0, s.t, s.u); c.check(s.u.Size() == n, "snapshot-size"); r.push_back(s); } return r; }
static std::vector<std::pair<double, double>> entropies() { std::vector<std::pair<double, double>> r; std::ifstream f("entropy-log.txt"); double a, b; while (f >> a >> b) { r.emplace_back(a, b); } return r; }
static void clean() { std::filesystem::remove_all("BinaryLogger"); std::filesystem::remove("entropy-log.txt"); }
template <int D, bool EV> static void exact_(const Vector &x, Vector &z) { constexpr int ns = D + 2; z.SetSize(ns); z(0) = 1 + 0.1 * sin(x(0)); for (int d = 0; d < D; ++d) { z(d + 1) = 0.2 * cos(x(d)); } z(D + 1) = 2; if (EV) { double q[ns]; for (int s = 0; s < ns; ++s) { q[s] = z(s); } miso::calcEntropyVars<double, D, false>(q, z.GetData()); } }
/// what can be asked of a solver after a solve
template <int D, bool EV> static void after(Case &c, On<D, EV> &S, Ref<D, EV> &ref, Prob<D, EV> &P, const Vector &u)
{
   auto &g = c.rng; ParGridFunction gf(&ref.fl.at("state").space()); gf.SetFromTrueDofs(u); int e = g.irand(-1, D + 1); double want = ref.flow().calcConservativeVarsL2Error(gf, exact_<D, EV>, e); c.near(S.calcConservativeVarsL2Error(exact_<D, EV>, e), want, 1e-9 * (1 + std::fabs(want)), "error-of-the-last-state"); c.count("errors");
   Vector q(D + 2); S.getFreeStreamState(q); for (int s = 0; s < D + 2; ++s) { c.near(q(s), P.q(s), 1e-14, "free-stream"); }
   Vector uu(u); MISOInputs in{{"state", uu}};
   for (std::string n : {"entropy", "drag", "lift"})
   {
      json oo; if (n != "entropy") { if (D == 1 || P.periodic) { continue; } std::vector<int> on; for (int a : P.sm->bdr_attributes) { if (g.coin()) { on.push_back(a); } } if (on.empty()) { on.push_back(1); } oo["boundaries"] = on; }
      S.createOutput(n, oo); miso::MISOOutput J = ref.flow().constructOutput(n, oo); setInputs(J, in); double a = S.calcOutput(n, in), b = calcOutput(J, in); c.near(a, b, 1e-11 * (1 + std::fabs(b)), "output"); c.count("outputs"); bool again = false; try { S.createOutput(n, oo); } catch (const miso::MISOException &) { again = true; } c.check(again, "outputs-are-created-once");
   }
   if (!P.pump) { c.near(S.calcResidualNorm(u), l2(ref.R(u, 0)), 1e-9 * (1e-3 + l2(ref.R(u, 0))), "residual-norm"); }
}
template <int D> static void march_(Case &c)
{
   Mute mute; auto &g = c.rng; clean(); bool plain = g.coin(0.3); Prob<D, false> P(c, false, plain); auto &o = P.o; std::string type = c.in("scheme", g.pick(std::vector<std::string>{"RK1", "RK4", "MIDPOINT", "RRK", "RRK6"})); bool rrk = type.substr(0, 3) == "RRK"; if (rrk && (P.visc || P.pump || o["space-dis"]["flux-fun"] == "Euler")) { type = "MIDPOINT"; rrk = false; }
   o["time-dis"] = {{"steady", false}}; Ref<D, false> ref(o, *P.sm); int n = ref.size(); bool uniform = !P.wall && !P.pump && g.coin(0.2) && (D == 1 || P.far || P.periodic); Vector u = P.state(g, n, uniform ? 0 : g.uni(0.02, 0.15)); if (P.visc && o["space-dis"]["degree"] == 0) { uniform = false; }   // C17 has the finding
   double lim = ref.cfl(1, u), dt = c.in("dt", g.uni(0.03, 0.25) * lim), t0 = g.coin() ? 0.0 : g.uni(-1, 2), tf = t0 + g.uni(0.5, 4.5) * dt; bool exact = c.in("exact", g.coin()), given = exact && g.coin(), cc = !rrk && c.in("const-cfl", g.coin(0.35)), log = c.in("entropy-log", g.coin(0.6)); double cfl = g.uni(0.03, 0.25); int most = g.coin(0.3) ? g.irand(1, 4) : 60; if (!exact || !given) { exact = exact && true; }
   o["time-dis"].update({{"type", type}, {"t-initial", t0}, {"t-final", tf}, {"dt", dt}, {"cfl", cfl}, {"const-cfl", cc}, {"max-iter", most}, {"entropy-log", log}}); if (!exact || given) { o["time-dis"]["exact-t-final"] = exact; }
   On<D, false> S(o, std::make_unique<Mesh>(*P.sm)); c.check(S.getStateSize() == n, "state-size"); miso::LoggingOptions lo; lo.initial_state = g.coin(); lo.each_timestep = true; lo.final_state = true; S.addLogger(miso::BinaryLogger(), std::move(lo)); if (g.coin(0.3)) { Vector j(P.state(g, n, 0.05)); S.calcResidualNorm(j); c.count("asked-before"); }
   Vector x(u); MISOInputs none; S.solveForState(none, x); auto T = trace(c, n, most); if (!c.check(T.size() >= 2, "steps-taken")) { return; } int N = T.size() - 1;
   c.near(l2(mix(T[0].u, -1, u)), 0, 0, "starts-from-the-state-given"); c.near(T[0].t, t0, 0, "starts-at-the-initial-time"); if (std::isfinite(l2(x))) { c.near(l2(mix(T[N].u, -1, x)), 0, 0, "the-last-snapshot-is-the-result"); } double scale = l2(u); c.count(type); c.count(cc ? "constant-cfl" : "constant-step"); if (P.periodic) { c.count("periodic"); }
      auto physical = [&](const Vector &v) { for (int i = 0; i < n; i += D + 2) { double k = 0; for (int d = 1; d <= D; ++d) { k += v(i + d) * v(i + d); } if (!(v(i) > 0) || !(v(i + D + 1) - 0.5 * k / v(i) > 0)) { return false; } } return true; };
   for (int i = 0; i < N; ++i)
   {
      const Vector &a = T[i].u, &b = T[i + 1].u; double t = T[i].t, h = T[i + 1].t - t, want = cc ? ref.cfl(cfl, a) : dt; if (exact) { want = std::min(want, tf - t); } Vector d = mix(b, -1, a);
      if (!rrk) { c.near(h, want, 1e-9 * want + 1e-14 * std::fabs(t), "step-size"); }
      double e = 0;
      if (type == "RK1") { Vector k = ref.k(a, t); e = l2(mix(d, -h, k)); }
      else if (type == "RK4") { Vector k1 = ref.k(a, t), k2 = ref.k(mix(a, h / 2, k1), t + h / 2), k3 = ref.k(mix(a, h / 2, k2), t + h / 2), k4 = ref.k(mix(a, h, k3), t + h); e = l2(mix(mix(mix(mix(d, -h / 6, k1), -h / 3, k2), -h / 3, k3), -h / 6, k4)); }
      else if (type != "RRK6") { Vector k(d); k /= h; double de = ref.defect(mix(a, 0.5 * (rrk ? want : h), k), t + 0.5 * (rrk ? want : h), k); if (!std::isfinite(de)) { c.count("non-physical"); return; } c.near(de, 0, 1e-7 + 1e-13 * l2(a) / (1e-30 + l2(d)), "implicit-step"); }
      if (!std::isfinite(e) || !physical(a) || !physical(b)) { c.count("non-physical"); return; }
      if (type == "RRK6") { double H = h; Vector k1 = ref.k(a, t), k2 = ref.k(mix(a, H / 2, k1), t), k3 = ref.k(mix(a, H / 2, k2), t), k4 = ref.k(mix(a, H, k3), t), y = mix(mix(mix(mix(a, H / 6, k1), H / 3, k2), H / 3, k3), H / 6, k4), z = mix(a, H, k2); double w = l2(mix(y, -1, z)); if (std::isfinite(w) && w < 0.01 * l2(d)) { c.count("high-order-steps"); c.near(l2(mix(b, -1, y)), 0, 0.5 * w + 1e-6 * scale + 3 * std::fabs(h / want - 1) * l2(d), "high-order-step"); } }
      if (type[0] == 'R' && type[1] == 'K') { c.near(e, 0, 1e-9 * (scale + l2(d)), "explicit-step"); }
      c.count("steps");
      if (rrk && l2(d) * want / h < 0.05 * scale && l2(d) * want / h > 1e-3 * scale) { c.near(h / want, 1, 0.5, "relaxation"); c.count("relaxed"); }
      if (P.periodic || P.wall) { for (int s : {0, D + 1}) { if (P.visc && s > 0) { continue; } double tot = ref.total(a, s); c.near(ref.total(b, s), tot, 1e-9 * std::fabs(tot) + 1e-10, s == 0 ? "conservation-of-mass" : "conservation-of-energy"); } if (P.periodic) { for (int s = 1; s <= D; ++s) { c.near(ref.total(b, s), ref.total(a, s), 1e-9 * (1 + std::fabs(ref.total(a, 0))), "conservation-of-momentum"); } } if (!P.visc) { c.count("conserving"); } }
      if (rrk && (P.periodic || P.wall) && o["space-dis"]["flux-fun"] == "IR") { double E0 = ref.entropy(a), E1 = ref.entropy(b), s = 1e-8 * (std::fabs(E0) + 1e-6); if (o["space-dis"]["lps-coeff"] == 0.0 && o["space-dis"]["iface-coeff"] == 0.0) { c.near(E1, E0, s, "entropy-conserved"); c.count("entropy-conserving"); } else { c.check(E1 <= E0 + s, "entropy-does-not-grow"); c.count("entropy-dissipating"); } }
      if (i + 1 < N) { c.check(T[i + 1].t < tf, "goes-on-only-before-the-end"); }
   }
   if (!physical(x)) { c.count("non-physical"); return; } if (uniform) { c.near(l2(mix(x, -1, u)), 0, 1e-10 * scale, "free-stream-preserved"); c.count("uniform-flows"); }
   bool end = N == most; if (!end) { c.check(T[N].t >= tf - 1e-12 * (dt + std::fabs(tf)), "ends-at-the-final-time"); if (exact && !rrk) { c.near(T[N].t, tf, 1e-12 * (1 + std::fabs(tf)), "exact-final-time"); c.count("exact-ends"); } } else { c.count("limited"); } c.check(N <= most, "step-limit");
   if (log) { auto L = entropies(); if (c.check(int(L.size()) == N + 1, "entropy-log-length")) { for (int i = 0; i <= N; ++i) { double E = ref.entropy(T[i].u); c.near(L[i].first, T[i].t, 1e-14 * (1 + std::fabs(T[i].t)), "entropy-log-time"); c.near(L[i].second, E, 1e-12 * (1e-3 + std::fabs(E)), "entropy-log-value"); c.count("log-lines"); } } }
   else { c.check(!std::filesystem::exists("entropy-log.txt"), "no-log-unless-asked"); }
   after<D, false>(c, S, ref, P, x);
   if (g.coin(0.4)) { clean(); Vector y(u); S.solveForState(none, y); c.near(l2(mix(y, -1, x)), 0, 1e-8 * scale, "the-same-again"); if (log && !rrk) { c.check(int(entropies().size()) == N + 1, "one-log-per-solve"); } c.count("repeated"); }
}
static void march(Case &c) { double k = c.rng.uni(0, 1); k < 0.35 ? march_<1>(c) : k < 0.9 ? march_<2>(c) : march_<3>(c); }
template <int D, bool EV> static void steady_(Case &c)
{
   Mute mute; auto &g = c.rng; clean(); Prob<D, EV> P(c, true, false); auto &o = P.o; o["time-dis"] = {{"steady", true}}; o["nonlin-solver"]["maxiter"] = 9; o["nonlin-solver"]["reltol"] = 1e-9; Ref<D, EV> ref(o, *P.sm); int n = ref.size(); bool ptc = true; Vector u = P.state(g, n, ptc ? g.uni(0.01, 0.06) : g.uni(0.002, 0.01)); double scale = l2(u);
   double lim = EV ? 0.02 : ref.cfl(1, u), dt = c.in("dt", g.uni(0.5, 3) * lim), ex = g.pick(std::vector<double>{0.5, 1, 2}), rel = g.logu(1e-9, 1e-2), ab = g.coin(0.2) ? g.uni(0.05, 0.5) * l2(ref.R(u, 0)) : 1e-12; int most = ptc ? (g.coin(0.2) ? g.irand(1, 4) : 14) : 1; bool log = c.in("entropy-log", g.coin(0.3));
   o["time-dis"].update({{"type", ptc ? "PTC" : "steady"}, {"t-initial", 0.0}, {"t-final", 1e6}, {"dt", dt}, {"res-exp", ex}, {"steady-reltol", rel}, {"steady-abstol", ab}, {"max-iter", most}, {"entropy-log", log}, {"const-cfl", g.coin(0.2)}});
   On<D, EV> S(o, std::make_unique<Mesh>(*P.sm)); miso::LoggingOptions lo; lo.initial_state = false; lo.each_timestep = true; lo.final_state = true; S.addLogger(miso::BinaryLogger(), std::move(lo)); Vector x(u); MISOInputs none; S.solveForState(none, x); auto T = trace(c, n, most); if (!c.check(T.size() >= 2, "steps-taken")) { return; } int N = T.size() - 1; c.near(l2(mix(T[0].u, -1, u)), 0, 0, "starts-from-the-state-given"); if (std::isfinite(l2(x))) { c.near(l2(mix(T[N].u, -1, x)), 0, 0, "the-last-snapshot-is-the-result"); } c.count(EV ? "entropy-variables" : "conservative-variables"); c.check(N <= most, "step-limit");
   std::vector<double> r; for (auto &s : T) { r.push_back(l2(ref.R(s.u, 0))); if (!std::isfinite(r.back())) { c.count(ptc ? EV ? "diverged-ptc-ev" : "diverged-ptc" : "diverged-direct"); return; } } double old = 0;
   for (int i = 0; i < N; ++i)
   {
      double h = T[i + 1].t - T[i].t, want = std::max(dt * std::pow(r[0] / r[i], ex), old); if (want > 1e8) { c.count("nearly-there"); break; }
      if (ptc) { c.near(h, want, 1e-7 * want + 1e-14 * T[i + 1].t, "continuation-step-size"); old = want; Vector d = mix(T[i + 1].u, -1, T[i].u); d /= want; double e = ref.defect(T[i + 1].u, 0, d); Vector z = ref.R(T[i].u, 0); bool small = (!EV && o["nonlin-solver"]["type"] == "newton" && want <= 3.0001 * lim) || e <= 1e-6; if (small) { c.near(e, 0, 5e-6 + 1e-11 * scale / want / (1e-8 + r[i + 1]), "continuation-step"); c.count(EV ? "entropy-variable-steps" : "continuation-steps"); } else { c.count("unconverged-steps"); } }
      if (i > 0) { c.check(r[i] > ab * (1 - 1e-9) && r[i] > r[0] * rel * (1 - 1e-9), "does-not-go-on-after-convergence"); }
   }
   bool there = r[N] <= ab * (1 + 1e-9) || r[N] <= r[0] * rel * (1 + 1e-9); c.check(there || N == most, "stops-only-when-converged"); if (there) { c.count(r[N] <= r[0] * rel ? "converged-relative" : "converged-absolute"); }
   if (P.far && r[N] < 1e-9) { c.count("uniform-solutions"); }
   if (log) { auto L = entropies(); if (c.check(int(L.size()) == N + 1, "entropy-log-length")) { for (int i = 0; i <= N; ++i) { double E = ref.entropy(T[i].u); c.near(L[i].second, E, 1e-12 * (1e-3 + std::fabs(E)), "entropy-log-value"); c.count("log-lines"); } } }
   after<D, EV>(c, S, ref, P, x);
   if (g.coin(0.4))   // the same solver from another state: its steps must be those of a first solve
   {
      std::filesystem::remove_all("BinaryLogger"); Vector v = P.state(g, n, g.uni(0.01, 0.06)), y(v); S.solveForState(none, y); auto Y = trace(c, n, most); if (!c.check(Y.size() >= 2, "steps-taken")) { return; } int K = Y.size() - 1; if (log) { auto L = entropies(); c.check(int(L.size()) == K + 1, "one-log-per-solve"); } c.near(l2(mix(Y[0].u, -1, v)), 0, 0, "starts-from-the-state-given"); std::vector<double> q; for (auto &s : Y) { q.push_back(l2(ref.R(s.u, 0))); if (!std::isfinite(q.back())) { return; } }
      double last = 0; for (int i = 0; i < K; ++i) { double h = Y[i + 1].t - Y[i].t, want = std::max(dt * std::pow(q[0] / q[i], ex), last); if (want > 1e8) { break; } c.near(h, want, 1e-7 * want + 1e-14 * Y[i + 1].t, "continuation-step-size"); last = want; if (i > 0) { c.check(q[i] > ab * (1 - 1e-9) && q[i] > q[0] * rel * (1 - 1e-9), "does-not-go-on-after-convergence"); } }
      c.check(q[K] <= ab * (1 + 1e-9) || q[K] <= q[0] * rel * (1 + 1e-9) || K == most, "stops-only-when-converged"); c.count("second-continuations");
   }
}
static void steady(Case &c) { bool e = c.in("entropy-variables", c.rng.coin()); double k = c.rng.uni(0, 1); if (k < 0.96) { e ? steady_<2, true>(c) : steady_<2, false>(c); } else { e ? steady_<3, true>(c) : steady_<3, false>(c); } }
static void refuse(Case &c)
{
   Mute mute; auto &g = c.rng; Prob<2, false> P(c, false, true); auto o = P.o; bool steady = g.coin(); o["time-dis"] = {{"steady", steady}, {"type", steady ? "PTC" : "RK4"}}; auto bad = [&](auto &&f, const std::string &w) { bool t = false; try { f(); } catch (const miso::MISOException &) { t = true; } c.check(t, w); c.count("refusals"); };
   auto m = [&] { return std::make_unique<Mesh>(*P.sm); }; On<2, false> fine(o, m()); bad([&] { On<3, false> s(o, m()); }, "other-dimension"); bad([&] { On<2, true> s(o, m()); }, "other-variables"); json e = o; e["flow-param"]["entropy-state"] = true; bad([&] { On<2, false> s(e, m()); }, "other-variables"); e["time-dis"] = {{"steady", false}}; bad([&] { On<2, true> s(e, m()); }, "unsteady-entropy-variables"); e["time-dis"] = {{"steady", true}, {"type", "PTC"}}; e["space-dis"]["flux-fun"] = "IR"; On<2, true> ok(e, m());
   e["space-dis"]["flux-fun"] = "Euler"; bad([&] { On<2, true> s(e, m()); }, "flux-of-other-variables"); json b = o; b["time-dis"]["type"] = "nonsense"; bad([&] { On<2, false> s(b, m()); }, "unknown-scheme"); bad([&] { fine.createOutput("nonsense", json::object()); }, "unknown-output");
   Vector x(fine.getStateSize()); bad([&] { MISOInputs in; Vector y(x), z(x); fine.solveForAdjoint(in, y, z); }, "no-adjoint-of-a-march");
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   run("march", 160, march); run("steady", 80, steady); run("refuse", 20, refuse);
   int rc = finish(); MPI_Finalize(); return rc;
}
