// C33: a flow with a boundary actuator and the controller that drives it: the control law,
// the coupled residual, entropy balance, products, and marches of the coupled solver.
#include "flowprob.hpp"
#include "matrix_operators.hpp"
#include "flow_control_residual.hpp"
#include "flow_control_solver.hpp"
#include <complex>
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(m ? m : ""); } }
using namespace fp; using cd = std::complex<double>;
/// a controller: its parameters and, independently, its equations
struct Law
{
   bool test, closed = true; double Kp, Ti, Td, be, et, target; Vector P;
   Law(Rng &g, bool t) : test(t), Kp(g.uni(-2, 2)), Ti(g.uni(0.3, 3)), Td(g.uni(0.3, 3)), be(g.uni(0.4, 3)), et(g.uni(0.4, 3)), target(g.uni(-1, 1)), P(4) { double a = g.uni(0.5, 2), b = g.uni(-0.4, 0.4); P(0) = a; P(1) = P(2) = b; P(3) = g.uni(0.5, 2); }
   void add(MISOInputs &in) { in.insert_or_assign("Kp", Kp); in.insert_or_assign("Ti", Ti); in.insert_or_assign("Td", Td); in.insert_or_assign("beta", be); in.insert_or_assign("eta", et); in.insert_or_assign("target-entropy", target); in.insert_or_assign("P-matrix", P); }
   double error(double s) const { return closed ? target - s : 0; }
   /// d x / dt of the realisation whose transfer function from error to velocity is
   /// beta Kp (1 + Ti s)(1 + Td s) / ((1 + beta Ti s)(1 + eta Td s))
   void rate(const double *x, double s, double *d) const
   {
      if (test) { d[0] = 0.05 * x[1]; d[1] = -0.05 * x[0] - s; return; }
      double e = error(s), A = be * Ti * et * Td, B = be * Ti + et * Td, D = Kp / et, g = be * Kp; // y = x1 + D e; denominators A s^2 + B s + 1
      // numerator g (Ti Td s^2 + (Ti + Td) s + 1) minus D times the denominator leaves n1 s + n0
      double n1 = g * (Ti + Td) - D * B, n0 = g - D;
      d[0] = -x[1] / A + n0 / A * e; d[1] = x[0] - B / A * x[1] + n1 / A * e;
   }
   double velocity(const double *x, double s) const { return test ? x[1] : x[1] + Kp / et * error(s); }
   double energy(const double *x) const { return test ? 0.5 * (x[0] * x[0] + x[1] * x[1]) : 0.5 * (P(0) * x[0] * x[0] + 2 * P(1) * x[0] * x[1] + P(3) * x[1] * x[1]); }
   double power(const double *x, const double *d) const { return test ? x[0] * d[0] + x[1] * d[1] : P(0) * x[0] * d[0] + P(1) * (x[0] * d[1] + x[1] * d[0]) + P(3) * x[1] * d[1]; }
};
static void law(Case &c)
{
   auto &g = c.rng; bool test = c.in("test-ode", g.coin(0.25)); Law L(g, test); miso::ControlResidual R(W, json{{"test-ode", test}}); c.check(getSize(R) == 2, "two-control-states"); MISOInputs in; L.add(in); setInputs(R, in);
   for (int k = 0; k < 4; ++k)
   {
      if (k == 2 || (k && g.coin())) { Law M(g, test); M.closed = L.closed ? g.coin() : g.coin(0.8); if (M.closed && !L.closed) { c.count("closed-again"); } L = M; in.clear(); L.add(in); in.emplace("closed-loop", L.closed ? 1.0 : 0.0); setInputs(R, in); c.count(L.closed ? "closed" : "open"); if (!L.closed) { c.count("kept-open"); } }
      Vector x = rvec(g, 2), r(2); double s = g.uni(-2, 2), d[2], t = g.uni(0, 3); MISOInputs q{{"state", x}, {"time", t}, {"boundary-entropy", s}}; evaluate(R, q, r); L.rate(x.GetData(), s, d); for (int i : {0, 1}) { c.near(r(i), -d[i], 1e-12 * (1 + std::fabs(d[i])), "control-law"); }
      c.near(R.getControlVelocity(q), L.velocity(x.GetData(), s), 1e-13 * (1 + std::fabs(s)) * 10, "control-velocity"); c.near(calcEntropy(R, q), L.energy(x.GetData()), 1e-13 * 10, "control-entropy");
      Vector dx = rvec(g, 2); MISOInputs w{{"state", x}, {"state_dot", dx}}; c.near(calcEntropyChange(R, w), -L.power(x.GetData(), dx.GetData()), 1e-12, "control-entropy-change");
      Vector v = rvec(g, 2), jv(2), back(2), e1(x), r1(2), r2(2); auto &J = getJacobian(R, q, "state"); J.Mult(v, jv); e1 += v; MISOInputs q1{{"state", e1}, {"time", t}, {"boundary-entropy", s}}; evaluate(R, q1, r1); r2 = r1; r2 -= r; for (int i : {0, 1}) { c.near(jv(i), r2(i), 1e-11 * (1 + std::fabs(r1(i)) + std::fabs(r(i))), "control-jacobian"); }
      auto *pc = getPreconditioner(R); pc->SetOperator(J); pc->Mult(jv, back); for (int i : {0, 1}) { c.near(back(i), v(i), 1e-9, "control-inverse"); } Vector mv(2); getMassMatrix(R, json::object())->Mult(v, mv); for (int i : {0, 1}) { c.near(mv(i), v(i), 0, "control-mass"); }
      if (!test && L.closed)   // the frequency response of what was evaluated
      {
         cd w0(g.uni(-1, 1), g.uni(0.2, 3)); auto ev = [&](double a, double b, double sb) { Vector y(2), o(2); y(0) = a; y(1) = b; MISOInputs i{{"state", y}, {"time", t}, {"boundary-entropy", sb}}; evaluate(R, i, o); o.Neg(); return o; }; double s0 = L.target; Vector a0 = ev(1, 0, s0), a1 = ev(0, 1, s0), b = ev(0, 0, s0 - 1); cd m00 = w0 - a0(0), m01 = -a1(0), m10 = -a0(1), m11 = w0 - a1(1), det = m00 * m11 - m01 * m10; Vector z(2); z = 0.0; MISOInputs i{{"state", z}, {"time", t}, {"boundary-entropy", s0 - 1}};
         cd G = (m00 * b(1) - m10 * b(0)) / det + R.getControlVelocity(i), H = L.be * L.Kp * (1.0 + L.Ti * w0) * (1.0 + L.Td * w0) / ((1.0 + L.be * L.Ti * w0) * (1.0 + L.et * L.Td * w0)); if (std::abs(det) > 1e-3) { c.near(std::abs(G - H), 0, 1e-9 * (1 + std::abs(H)), "transfer-function"); c.count("transfer-functions"); }
      }
      c.count("laws");
   }
   Vector bad(L.P); bad(2) += g.uni(0.01, 1); MISOInputs b{{"P-matrix", bad}}; bool t = false; try { setInputs(R, b); } catch (const miso::MISOException &) { t = true; } c.check(t, "norm-must-be-symmetric");
}
/// a problem with an actuator on part of its boundary
template <bool EV> struct Act : Prob<2, EV>
{
   std::vector<int> on, others; bool test, closedbox; Vector xa;
   Act(Case &c, bool plain, bool march) : Prob<2, EV>(c, EV, plain, true), xa(2)
   {
      auto &g = c.rng; auto &o = this->o; o["test-ode"] = test = c.in("test-ode", g.coin(0.4)); closedbox = plain; std::vector<int> all; for (int a : this->sm->bdr_attributes) { all.push_back(a); } o["bcs"] = json::object(); int k = g.irand(0, int(all.size()) - 1); std::vector<int> wl, ff; for (int i = 0; i < int(all.size()); ++i) { if (i == k || g.coin(0.15)) { on.push_back(all[i]); } else if (plain || g.coin()) { wl.push_back(all[i]); } else { ff.push_back(all[i]); } }
      o["bcs"]["control"] = on; if (wl.size()) { o["bcs"]["slip-wall"] = wl; } if (ff.size()) { o["bcs"]["far-field"] = ff; } others = ff; o["outputs"] = {{"boundary-entropy", {{"boundaries", on}}}, {"far-field-supply-rate", {{"boundaries", ff}}}}; c.in("far", ff.size()); this->pump = false;
      if (o["lin-solver"]["type"] == "hyprefgmres") { o["lin-solver"]["type"] = "gmres"; }
      if (plain) { o["space-dis"]["lps-coeff"] = 0.0; o["space-dis"]["iface-coeff"] = 0.0; }
      // the actuator: near a vertex of its boundary
      std::vector<int> vs; for (int b = 0; b < this->sm->GetNBE(); ++b) { if (std::count(on.begin(), on.end(), this->sm->GetBdrAttribute(b))) { Array<int> v; this->sm->GetBdrElementVertices(b, v); vs.push_back(v[0]); vs.push_back(v[1]); } } int v = g.pick(vs); for (int d : {0, 1}) { xa(d) = this->sm->GetVertex(v)[d] + 0.05 * g.uni(-1, 1); }
   }
};
template <bool EV> struct Coup
{
   Ref<2, EV> flow; miso::MISOOutput bent, supply; Law &L; Vector xa; bool placed; double ax[2] = {0.5, 0.0};
   Coup(const json &o, Mesh &sm, Law &l, const Vector &x, bool p) : flow(o, sm), bent(flow.flow().constructOutput("boundary-entropy", o["outputs"]["boundary-entropy"])), supply(flow.flow().constructOutput("far-field-supply-rate", o["outputs"]["far-field-supply-rate"])), L(l), xa(x), placed(p) { if (p) { ax[0] = xa(0); ax[1] = xa(1); } }
   int n() { return 2 + flow.size(); }
   double wall(const Vector &u) { Vector f(const_cast<double *>(u.GetData()) + 2, u.Size() - 2); MISOInputs in{{"state", f}}; if (placed) { in.emplace("x-actuator", xa); } setInputs(bent, in); return calcOutput(bent, in); }
   MISOInputs at(Vector &f, double t, double vel) { MISOInputs in{{"state", f}, {"time", t}, {"control", vel}}; if (placed) { in.emplace("x-actuator", xa); } return in; }
   double velocity(const Vector &u) { return L.velocity(u.GetData(), wall(u)); }
   Vector R(const Vector &u, double t, double vel)
   { Vector r(u.Size()), f(const_cast<double *>(u.GetData()) + 2, u.Size() - 2), rf(u.Size() - 2); MISOInputs in = at(f, t, vel); setInputs(*flow.res, in); evaluate(*flow.res, in, rf); double d[2]; L.rate(u.GetData(), wall(u), d); r(0) = -d[0]; r(1) = -d[1]; for (int i = 0; i < rf.Size(); ++i) { r(i + 2) = rf(i); } return r; }
   Vector R(const Vector &u, double t) { return R(u, t, velocity(u)); }
   double m(int i) { return i < 2 ? 1 : flow.m(i - 2); }
   Vector k(const Vector &u, double t) { Vector r = R(u, t); for (int i = 0; i < r.Size(); ++i) { r(i) = -r(i) / m(i); } return r; }
   double defect(const Vector &u, double t, const Vector &k) { Vector r = R(u, t); double a = l2(r), b = 0, e = 0; for (int i = 0; i < r.Size(); ++i) { double q = m(i) * k(i); b += q * q; e += (q + r(i)) * (q + r(i)); } return std::sqrt(e) / (1e-6 + a + std::sqrt(b)); }
   Vector part(const Vector &u) { Vector f(u.Size() - 2); for (int i = 0; i < f.Size(); ++i) { f(i) = u(i + 2); } return f; }
   /// entropy near the actuator: what unit velocity through its boundary brings in (continuous spaces)
   double inflow(const Vector &u, const std::vector<int> &on)
   {
      auto &sp = flow.fl.at("state").space(); ParGridFunction gf(&sp); gf.SetFromTrueDofs(part(u)); double t = 0;
      for (int b = 0; b < sp.GetNBE(); ++b)
      {
         if (!std::count(on.begin(), on.end(), sp.GetBdrAttribute(b))) { continue; } auto *el = sp.GetBE(b); auto &T = *sp.GetBdrElementTransformation(b); Array<int> d; sp.GetBdrElementDofs(b, d);
         for (int j = 0; j < el->GetDof(); ++j) { auto &ip = el->GetNodes().IntPoint(j); T.SetIntPoint(&ip); Vector x(2); T.Transform(ip, x); double q[4], r2 = std::pow(x(0) - ax[0], 2) + std::pow(x(1) - ax[1], 2); for (int s = 0; s < 4; ++s) { q[s] = gf(sp.DofToVDof(d[j], s)); } double p = 0.4 * (q[3] - 0.5 * (q[1] * q[1] + q[2] * q[2]) / q[0]), S = -q[0] * std::log(p / std::pow(q[0], 1.4)) / 0.4; t += ip.weight * T.Weight() * S * std::exp(-r2 / 0.01); }
      }
      return t;
   }
   double entropy(const Vector &u) { return flow.entropy(part(u)) + L.energy(u.GetData()); }
};
static Vector join(const Vector &a, const Vector &b) { Vector r(a.Size() + b.Size()); for (int i = 0; i < a.Size(); ++i) { r(i) = a(i); } for (int i = 0; i < b.Size(); ++i) { r(a.Size() + i) = b(i); } return r; }
template <bool EV> static void coupled_(Case &c)
{
   Mute mute; auto &g = c.rng; bool plain = c.in("closed-box", g.coin(0.4)); Act<EV> P(c, plain, false); auto &o = P.o; o["time-dis"] = {{"steady", c.in("steady", EV || g.coin(0.3))}}; Law L(g, P.test); bool placed = c.in("actuator-given", g.coin(0.85)); L.closed = c.in("closed-loop", g.coin(0.7)); if (P.test) { L.closed = true; }
   Coup<EV> K(o, *P.sm, L, P.xa, placed); int nf = K.flow.size(), n = K.n(); ParMesh mesh(W, *P.sm); mesh.EnsureNodes(); std::map<std::string, FiniteElementState> fl; fl.emplace("flow_state", FiniteElementState(mesh, o["space-dis"], 4, "flow_state")); miso::MISOResidual res(miso::FlowControlResidual<2, EV>(o, fl.at("flow_state").space(), fl, miso::getDiffStack())); auto &con = miso::getConcrete<miso::FlowControlResidual<2, EV>>(res);
   c.check(getSize(res) == n, "size"); MISOInputs par; L.add(par); par.emplace("closed-loop", L.closed ? 1.0 : 0.0); if (placed) { par.emplace("x-actuator", P.xa); } setInputs(res, par); c.count(placed ? "actuator-given" : "actuator-default"); c.count(L.closed ? "closed" : "open");
   Vector u = join(rvec(g, 2), P.state(g, nf, g.uni(0.02, 0.15))); u(0) *= 0.3; u(1) *= 0.3; double t = g.uni(0, 3); Vector xa2(2); auto near = [&](const Vector &a, const Vector &b, double tol, const char *w) { double s = 1e-9 + l2(b); c.near(l2(mix(a, -1, b)), 0, tol * s, w); };
   for (int round = 0; round < 2; ++round)
   {
      if (round) { u = join(rvec(g, 2), P.state(g, nf, g.uni(0.02, 0.1))); u(0) *= 0.3; u(1) *= 0.3; t = g.uni(0, 3); if (g.coin(0.4)) { L.target += 0.3; L.Kp *= 0.7; MISOInputs p; L.add(p); setInputs(res, p); c.count("new-parameters"); } }
      if (round && placed && g.coin()) { for (int d : {0, 1}) { xa2(d) = P.xa(d) + 0.1 * g.uni(-1, 1); } K.xa = xa2; K.ax[0] = xa2(0); K.ax[1] = xa2(1); MISOInputs p{{"x-actuator", xa2}}; setInputs(res, p); c.count("actuators-moved"); }
      Vector x(u), r(n), want = K.R(u, t); MISOInputs in{{"state", x}, {"time", t}};
      Vector f = K.part(u), kd; double dt = 0; auto change = [&]() { kd = rvec(g, n); Vector kf = K.part(kd); dt = g.uni(0.01, 0.5); MISOInputs ch{{"state", x}, {"state_dot", kd}, {"time", t}, {"dt", dt}}; double got = calcEntropyChange(res, ch); MISOInputs cf = K.at(f, t, K.velocity(u)); cf.emplace("state_dot", kf); cf.emplace("dt", dt); setInputs(*K.flow.res, K.at(f, t, K.velocity(u))); double expect = calcEntropyChange(*K.flow.res, cf) - L.power(u.GetData(), kd.GetData()); c.near(got, expect, 1e-10 * (1 + std::fabs(expect)), "entropy-change-is-the-sum"); };
      if (g.coin()) { change(); c.count("changes-asked-first"); } setInputs(res, in); evaluate(res, in, r); double sp = K.wall(u); near(r, want, 1e-11, "coupled-residual"); for (int i : {0, 1}) { c.near(r(i), want(i), 1e-11 * (1 + std::fabs(want(i))), "control-rows"); } c.count("residuals"); if (std::fabs(sp) > 1e-3) { c.count("felt-by-the-controller"); } { Vector z = K.R(u, t, K.velocity(u) + 0.1); if (l2(mix(z, -1, want)) > 1e-5) { c.count("felt-by-the-flow"); } }
      double E = K.entropy(u); c.near(calcEntropy(res, in), E, 1e-12 * (1 + std::fabs(E)), "total-entropy");
      change();
      // along the flow of the equations the change is minus the derivative of the entropy
      Vector k = K.k(u, t); MISOInputs dyn{{"state", x}, {"state_dot", k}, {"time", t}, {"dt", 0.0}}; double rate = -calcEntropyChange(res, dyn); double h = 1e-4 / (1 + l2(k) / std::sqrt(n)); auto D = [&](double s) { return (K.entropy(mix(u, s, k)) - K.entropy(mix(u, -s, k))) / (2 * s); }; double fd = (4 * D(h / 2) - D(h)) / 3, mag = 0; for (int i = 0; i < n; ++i) { mag += std::fabs(k(i) * K.m(i)); } bool euler = o["space-dis"]["flux-fun"] == "Euler"; if (!o["time-dis"]["steady"] && !euler) { c.near(rate, fd, 1e-6 * (1e-2 + mag), "entropy-rate"); c.count("entropy-rates"); }
      if (!EV && plain && !euler && !P.dsbp) { double in = K.velocity(u) * K.inflow(u, P.on) + L.power(u.GetData(), k.GetData()); c.near(rate, in, 1e-10 * (1 + mag), "entropy-enters-through-the-actuator-only"); c.count("closed-boxes"); if (std::fabs(in) > 1e-3) { c.count("entropy-brought-in"); } }
      if (!EV) { Vector g0 = K.part(u); MISOInputs q{{"state", g0}}; double s = calcOutput(K.supply, q); MISOInputs sr{{"state", x}, {"state_dot", kd}, {"time", t}, {"dt", dt}}; c.near(calcSupplyRate(con, sr), s, 1e-11 * (1 + std::fabs(s)), "supply-rate"); if (P.others.size()) { c.count("supply-rates"); } }
      // products
      Vector v = rvec(g, n), jv(n); if (round == 0) { evaluate(res, in, r); }
            {
         miso::JacobianFree J(res); J.setState(in); J.Mult(v, jv); Vector a = K.R(mix(u, 1e-5, v), t), b = K.R(mix(u, -1e-5, v), t); Vector q = mix(a, -1, b); q /= 2e-5; near(jv, q, 3e-4, "jacobian-free-product"); c.count("products");
         evaluate(res, in, r); double vel = K.velocity(u); Vector v2(2), r2(2), vf = K.part(v), rf(nf); v2(0) = v(0); v2(1) = v(1); getJacobianBlock(res, in, 0).Mult(v2, r2); Vector w(u); w(0) += v(0); w(1) += v(1); Vector dr = mix(K.R(w, t), -1, want); for (int i : {0, 1}) { c.near(r2(i), dr(i), 1e-10 * (1 + std::fabs(dr(i)) + std::fabs(want(i))), "control-block"); }
         getJacobianBlock(res, in, 1).Mult(vf, rf); MISOInputs fi = K.at(f, t, vel); setInputs(*K.flow.res, fi); Vector fw(nf); getJacobian(*K.flow.res, fi, "state").Mult(vf, fw); near(rf, fw, 1e-10, "flow-block"); c.count("blocks");
         {  // the Jacobian an implicit step is solved with
            double ds = g.pick(std::vector<double>{g.uni(0.05, 1), g.uni(1, 6)}); Vector ks = rvec(g, n), kv(ks), iv(n), ir(n), im(n); ks *= 0.01 / ds; kv = ks; miso::TimeDependentResidual ti(res, getMassMatrix(res, o)); MISOInputs sg{{"state", x}, {"state_dot", kv}, {"dt", ds}, {"time", t}}; setInputs(ti, sg); MISOInputs un{{"state", kv}}; Vector at = mix(u, ds, ks); evaluate(ti, un, ir); getMassMatrix(res, o)->Mult(kv, im); { Vector wr = K.R(at, t); wr += im; near(ir, wr, 1e-10, "step-residual"); }
            getJacobian(ti, un, "state").Mult(v, iv); double es = 1e-5; Vector pa = K.R(mix(at, es, v), t), mi = K.R(mix(at, -es, v), t), jj = mix(pa, -1, mi), mv(n); jj *= ds / (2 * es); getMassMatrix(res, o)->Mult(v, mv); c.near(l2(mix(mix(iv, -1, mv), -1, jj)), 0, 4e-4 * l2(jj) + 1e-9 * l2(mv), "step-jacobian-product"); c.count(ds > 1 ? "long-steps" : "short-steps"); setInputs(res, in);
         }
         bool bad = false; try { getJacobianBlock(res, in, 2); } catch (const miso::MISOException &) { bad = true; } c.check(bad, "no-such-block");
      }
      Vector mv(n), v0(v); getMassMatrix(res, o)->Mult(v, mv); for (int i = 0; i < n; ++i) { c.near(mv(i), K.m(i) * v0(i), 1e-13 * (1e-6 + std::fabs(K.m(i) * v0(i))), "mass"); }
      if (!EV) { ParGridFunction gf(&fl.at("flow_state").space()); gf.SetFromTrueDofs(f); double cf2 = g.uni(0.1, 2), d0 = K.flow.cfl(cf2, f); c.near(con.minCFLTimeStep(cf2, gf), d0, 1e-13 * d0, "cfl-step"); }
      Vector q(4); con.getFreeStreamState(q); for (int s = 0; s < 4; ++s) { c.near(q(s), P.q(s), 1e-14, "free-stream"); } Vector a, b; con.extractStates(x, a, b); c.check(a.Size() == 2 && b.Size() == nf && a.GetData() == x.GetData() && b.GetData() == x.GetData() + 2, "states-are-parts-of-the-vector");
   }
   auto bad = [&](auto &&f, const std::string &w) { bool t = false; try { f(); } catch (const miso::MISOException &) { t = true; } c.check(t, w); c.count("refusals"); };
   Vector x(u); MISOInputs in{{"state", x}, {"time", t}}; bad([&] { getJacobian(res, in, "state"); }, "no-assembled-jacobian"); bad([&] { con.constructOutput("nonsense", json::object()); }, "unknown-output"); { Vector y(x); MISOInputs none{{"time", t}}; Vector a, b; bad([&] { con.extractStates(none, a, b); }, "needs-a-state"); }
   auto make = [&](const json &q) { miso::FlowControlResidual<2, EV> r(q, fl.at("flow_state").space(), fl, miso::getDiffStack()); }; json q = o; q["bcs"].erase("control"); bad([&] { make(q); }, "needs-a-control-boundary"); q = o; q["outputs"]["boundary-entropy"]["boundaries"].push_back(77); bad([&] { make(q); }, "sensor-and-actuator-agree"); q = o; for (int a : P.sm->bdr_attributes) { if (std::find(P.on.begin(), P.on.end(), a) == P.on.end()) { auto v = P.on; v[0] = a; q["outputs"]["boundary-entropy"]["boundaries"] = v; bad([&] { make(q); }, "sensor-and-actuator-agree"); c.count("sensor-elsewhere"); break; } }
   for (std::string s : {"drag", "lift", "boundary-entropy", "entropy"}) { json oo; if (s != "entropy") { oo["boundaries"] = P.on; } miso::MISOOutput A = con.constructOutput(s, oo), B = K.flow.flow().constructOutput(s, oo); Vector f = K.part(u); MISOInputs fi{{"state", f}}, ci{{"state", x}}; if (s == "boundary-entropy") { fi.emplace("x-actuator", K.xa); } if (s == "entropy") { setInputs(A, ci); double e = K.entropy(u); c.near(calcOutput(A, ci), e, 1e-11 * (1 + std::fabs(e)), "entropy-output"); } else { setInputs(A, fi); setInputs(B, fi); double e = calcOutput(B, fi); c.near(calcOutput(A, fi), e, 1e-11 * (1 + std::fabs(e)), "flow-output"); } c.count("outputs"); }
}
static void coupled(Case &c) { c.in("entropy-variables", c.rng.coin(0.25)) ? coupled_<true>(c) : coupled_<false>(c); }
struct Sol : miso::FlowControlSolver<2, false> { Sol(const json &o, std::unique_ptr<Mesh> m) : miso::FlowControlSolver<2, false>(W, o, std::move(m)) { } using miso::FlowControlSolver<2, false>::addLogger; };
using Line = std::pair<double, double>;
static std::vector<Line> history(const std::string &n, int s) { std::vector<Line> r; std::ifstream f(n + "-" + std::to_string(s) + ".txt"); std::string a, b; while (f >> a >> b) { r.emplace_back(std::strtod(a.c_str(), nullptr), std::strtod(b.c_str(), nullptr)); } return r; }
static void march(Case &c)
{
   Mute mute; auto &g = c.rng; bool plain = c.in("closed-box", g.coin(0.35)); Act<false> P(c, plain, true); auto &o = P.o; std::string type = c.in("scheme", g.pick(std::vector<std::string>{"RK1", "RK4", "MIDPOINT", "MIDPOINT", "RRK", "RRK"})); bool euler = o["space-dis"]["flux-fun"] == "Euler", rrk = type == "RRK"; if (rrk && (P.visc || euler)) { type = "MIDPOINT"; rrk = false; }
   Law L(g, P.test); if (!L.test) { L.closed = c.in("closed-loop", g.coin(0.8)); } bool placed = g.coin(0.85); o["time-dis"] = {{"steady", false}}; Coup<false> K(o, *P.sm, L, P.xa, placed); int nf = K.flow.size(), n = K.n(); Vector u = join(rvec(g, 2), P.state(g, nf, g.uni(0.02, 0.1))); u(0) *= 0.2; u(1) *= 0.2; if (!L.test) { L.Kp *= 0.3; }
   double lim = std::min(K.flow.cfl(1, K.part(u)), 0.5), dt = c.in("dt", g.uni(0.03, 0.2) * lim), t0 = g.coin() ? 0.0 : g.uni(-1, 2), tf = t0 + g.uni(0.5, 3.5) * dt; bool exact = c.in("exact", g.coin()), cc = !rrk && c.in("const-cfl", g.coin(0.35)), hist = c.in("histories", g.coin(0.85)); double cfl = g.uni(0.03, 0.2); int sample = g.coin() ? 0 : g.irand(1, 9);
   o["time-dis"].update({{"type", type}, {"t-initial", t0}, {"t-final", tf}, {"dt", dt}, {"cfl", cfl}, {"const-cfl", cc}, {"exact-t-final", exact}}); o["outputs"]["each-timestep"] = hist; if (sample) { o["sample"] = sample; } c.count(type); if (rrk) { hist = true; o["outputs"]["each-timestep"] = true; }
   std::vector<std::string> names{"entropy", "boundary-entropy", "drag", "lift", "far-field-supply-rate"}; std::map<std::string, json> oo{{"entropy", json::object()}, {"boundary-entropy", {{"boundaries", P.on}}}, {"drag", {{"boundaries", P.on}}}, {"lift", {{"boundaries", P.on}}}, {"far-field-supply-rate", {{"boundaries", P.others}}}};
   if (g.coin(0.3)) { oo.erase("lift"); } MISOInputs par; L.add(par); par.emplace("closed-loop", L.closed ? 1.0 : 0.0); if (placed) { par.emplace("x-actuator", P.xa); }
   auto clean = [&] { std::filesystem::remove_all("BinaryLogger"); for (auto &s : names) { std::filesystem::remove(s + "-" + std::to_string(sample) + ".txt"); } };
   auto go = [&](int most, Vector &x, std::map<std::string, std::vector<Line>> &H, bool twice) { clean(); json q = o; q["time-dis"]["max-iter"] = most; Sol S(q, std::make_unique<Mesh>(*P.sm)); c.check(S.getStateSize() == n, "state-size"); for (auto &[k, v] : oo) { S.createOutput(k, v); } if (g.coin(0.3)) { miso::LoggingOptions lo; lo.each_timestep = true; lo.final_state = true; S.addLogger(miso::BinaryLogger(), std::move(lo)); } x = u; S.solveForState(par, x); if (twice) { x = u; S.solveForState(par, x); c.count("repeated"); } H.clear(); for (auto &[k, v] : oo) { H[k] = history(k, sample); } Vector y(x); MISOInputs in{{"state", y}}; double E = K.entropy(x); if (std::isfinite(E)) { c.near(S.calcOutput("entropy", in), E, 1e-11 * (1 + std::fabs(E)), "entropy-of-the-result"); } Vector q4(4); S.getFreeStreamState(q4); for (int s = 0; s < 4; ++s) { c.near(q4(s), P.q(s), 1e-14, "free-stream"); }
      if (std::filesystem::exists("BinaryLogger/state_1_0")) { double ts; Vector w; miso::BinaryLogger::readState("state", 0, 0, ts, w); c.near(l2(mix(w, -1, K.part(u))), 0, 0, "loggers-get-the-flow"); c.count("logged"); } };
   auto physical = [&](const Vector &v) { for (int i = 2; i < n; i += 4) { double k = v(i + 1) * v(i + 1) + v(i + 2) * v(i + 2); if (!(v(i) > 0) || !(v(i + 3) - 0.5 * k / v(i) > 0)) { return false; } } return true; };
   std::vector<Vector> T{u}; std::vector<double> tm{t0}; std::map<std::string, std::vector<Line>> H; bool over = false; double scale = l2(u);
   for (int i = 0; i < 6 && !over; ++i)
   {
      Vector x; bool last = g.coin(0.25); go(i + 1, x, H, last); const Vector &a = T[i], b = x; double t = tm[i], want = cc ? K.flow.cfl(cfl, K.part(a)) : dt; if (exact) { want = std::min(want, tf - t); } double h = want;
      if (hist) { auto &E = H.at("entropy"); if (!c.check(int(E.size()) == i + 2, "history-length")) { return; } h = E.back().first - t; if (!rrk) { c.near(h, want, 1e-9 * want + 1e-13 * (1 + std::fabs(t)), "step-size"); } }
      if (!physical(a) || !physical(b)) { c.count("non-physical"); return; }
      Vector d = mix(b, -1, a); double e = 0;
      if (type == "RK1") { Vector k = K.k(a, t); e = l2(mix(d, -h, k)); c.near(e, 0, 1e-9 * (scale + l2(d)), "explicit-step"); }
      else if (type == "RK4") { Vector k1 = K.k(a, t), k2 = K.k(mix(a, h / 2, k1), t + h / 2), k3 = K.k(mix(a, h / 2, k2), t + h / 2), k4 = K.k(mix(a, h, k3), t + h); e = l2(mix(mix(mix(mix(d, -h / 6, k1), -h / 3, k2), -h / 3, k3), -h / 6, k4)); if (!std::isfinite(e)) { c.count("non-physical"); return; } c.near(e, 0, 1e-9 * (scale + l2(d)), "explicit-step"); }
      else { Vector k(d); k /= h; double s = rrk ? want : h, de = K.defect(mix(a, 0.5 * s, k), t + 0.5 * s, k); if (!std::isfinite(de)) { c.count("non-physical"); return; } c.near(de, 0, 2e-7 + 1e-13 * l2(a) / (1e-30 + l2(d)), "implicit-step"); }
      if (rrk) { c.near(h / want, 1, 0.5, "relaxation"); double E0 = K.entropy(a), E1 = K.entropy(b); Vector k(d); k /= h; Vector y = mix(a, 0.5 * want, k), ky = K.k(y, t + 0.5 * want); // entropy produced at the stage
         MISOInputs none; (void)none; Vector f = K.part(y), kf = K.part(k); MISOInputs cf = K.at(f, t, K.velocity(y)); setInputs(*K.flow.res, cf); cf.emplace("state_dot", kf); cf.emplace("dt", 0.0); double rate = -calcEntropyChange(*K.flow.res, cf) + L.power(y.GetData(), k.GetData()); c.near(E1 - E0, h * rate, 1e-8 * (std::fabs(E0) + 1), "entropy-balance"); c.count("entropy-balances"); if (plain && !P.dsbp) { double in = h * (K.velocity(y) * K.inflow(y, P.on) + L.power(y.GetData(), k.GetData())); c.near(E1 - E0, in, 1e-8 * (1 + std::fabs(E0)), "entropy-enters-through-the-actuator-only"); c.count("closed-marches"); } }
      c.count("steps"); if (rrk && exact && tf - t - h < 1e-3 * dt && tf - t - h > -1e-12 * (dt + std::fabs(tf))) { c.count("almost-there"); return; } T.push_back(b); tm.push_back(t + h); bool done = t + h >= tf - 1e-13 * (dt + std::fabs(tf)); Vector z; std::map<std::string, std::vector<Line>> Z; if (done) { go(40, z, Z, false); c.near(l2(mix(z, -1, b)), 0, 1e-8 * scale, "stops-at-the-final-time"); over = true; if (exact && !rrk && hist) { c.near(t + h, tf, 1e-12 * (1 + std::fabs(tf)), "exact-final-time"); c.count("exact-ends"); } H = Z.size() ? Z : H; }
      if (hist && (done || g.coin(0.3)))
      {
         for (auto &[k, v] : oo) { auto &Q = H.at(k); if (!c.check(Q.size() == T.size(), "history-length")) { continue; } for (int j = 0; j < int(T.size()); ++j) { c.near(Q[j].first, tm[j], 1e-12 * (1 + std::fabs(tm[j])), "history-time"); double w; if (k == "entropy") { w = K.entropy(T[j]); } else if (k == "boundary-entropy") { w = K.wall(T[j]); } else { miso::MISOOutput B = K.flow.flow().constructOutput(k, v); Vector f = K.part(T[j]); MISOInputs in{{"state", f}}; setInputs(B, in); w = calcOutput(B, in); } c.near(Q[j].second, w, 1e-8 * (1 + std::fabs(w)), "history-of-" + k); c.count("history-lines"); } }
      }
      if (!hist) { c.check(!std::ifstream("entropy-" + std::to_string(sample) + ".txt"), "no-history-unless-asked"); }
   }
}
static void refuse(Case &c)
{
   Mute mute; auto &g = c.rng; Act<false> P(c, true, true); auto o = P.o; o["time-dis"] = {{"steady", false}, {"type", "RK4"}, {"t-final", 0.1}, {"dt", 0.01}, {"max-iter", 1}}; auto bad = [&](auto &&f, const std::string &w) { bool t = false; try { f(); } catch (const miso::MISOException &) { t = true; } c.check(t, w); c.count("refusals"); };
   auto m = [&] { return std::make_unique<Mesh>(*P.sm); }; Sol ok(o, m()); bad([&] { miso::FlowControlSolver<3, false> s(W, o, m()); }, "other-dimension"); bad([&] { miso::FlowControlSolver<2, true> s(W, o, m()); }, "other-variables"); json e = o; e["flow-param"]["entropy-state"] = true; bad([&] { Sol s(e, m()); }, "other-variables"); e["space-dis"]["flux-fun"] = "IR"; bad([&] { miso::FlowControlSolver<2, true> s(W, e, m()); }, "unsteady-entropy-variables");
   json s = o; s["time-dis"] = {{"steady", true}, {"type", "PTC"}, {"t-final", 0.1}, {"dt", 0.01}, {"max-iter", 1}}; Sol st(s, m()); int n = ok.getStateSize(); Vector x = join(rvec(g, 2), P.state(g, n - 2, 0.05)); Law L(g, P.test); MISOInputs par; L.add(par); par.emplace("x-actuator", P.xa); bad([&] { Vector y(x); st.solveForState(par, y); }, "no-steady-control");
   // states from functions
   Vector z(n); z = 7.0; double a = g.uni(-1, 1), b = g.uni(-1, 1); std::function<void(Vector &)> cf = [=](Vector &q) { q(0) = a; q(1) = b; }; std::function<void(const Vector &, Vector &)> ff = [](const Vector &y, Vector &q) { q.SetSize(4); q(0) = 1 + y(0); q(1) = y(1); q(2) = y(0) * y(1); q(3) = 3; }; ok.setState(std::make_pair(cf, ff), z); c.near(z(0), a, 0, "control-state-set"); c.near(z(1), b, 0, "control-state-set"); Ref<2, false> ref(o, *P.sm); VectorFunctionCoefficient vf(4, ff); ParGridFunction gf(&ref.fl.at("state").space()); gf.ProjectCoefficient(vf); Vector w(n - 2); gf.GetTrueDofs(w); for (int i = 0; i < n - 2; ++i) { c.near(z(i + 2), w(i), 1e-13, "flow-state-set"); } c.count("states-set");
   std::function<void(Vector &)> whole = [&](Vector &q) { q = x; }; ok.setState(whole, z); c.near(l2(mix(z, -1, x)), 0, 0, "whole-state-set");
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); init(argc, argv);
   run("law", 200, law); run("coupled", 120, coupled); run("march", 60, march); run("refuse", 20, refuse);
   int rc = finish(); MPI_Finalize(); return rc;
}
