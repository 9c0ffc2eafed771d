// A flow problem (mesh, options, states near the free stream) and a residual and mass
// matrix of the check's own; shared by the flow solver checks.
#pragma once
#include "mfem.hpp"
#include "adept.h"
#include "sbp_fe.hpp"
#include "solvecheck.hpp"
#include "data_logging.hpp"
#include "flow_solver.hpp"
#include "flow_residual.hpp"
#include "euler_integ.hpp"
#include "navier_stokes_integ.hpp"
namespace fp {
using namespace ic; using namespace sc;
static const MPI_Comm W = MPI_COMM_WORLD;
static double l2(const Vector &v) { return std::sqrt(v * v); }
static Vector mix(const Vector &a, double s, const Vector &b) { Vector r(a); r.Add(s, b); return r; }
/// a residual, mass matrix and state field of our own
template <int D, bool EV> struct Ref
{
   static constexpr int ns = D + 2; ParMesh mesh; std::map<std::string, FiniteElementState> fl; std::unique_ptr<miso::MISOResidual> res; Vector m;
   Ref(const json &o, Mesh &sm) : mesh(W, sm)
   {
      mesh.EnsureNodes(); fl.emplace("state", FiniteElementState(mesh, o["space-dis"], ns, "state")); res.reset(new miso::MISOResidual(miso::FlowResidual<D, EV>(o, fl.at("state").space(), fl, miso::getDiffStack())));
      Vector one(size()); one = 1.0; m.SetSize(size()); getMassMatrix(*res, o)->Mult(one, m);   // the norm is diagonal
   }
   int size() { return fl.at("state").space().GetTrueVSize(); }
   miso::FlowResidual<D, EV> &flow() { return miso::getConcrete<miso::FlowResidual<D, EV>>(*res); }
   Vector R(const Vector &u, double t) { Vector x(u), r(u.Size()); MISOInputs in{{"time", t}, {"state", x}}; setInputs(*res, in); evaluate(*res, in, r); return r; }
   Vector k(const Vector &u, double t) { Vector r = R(u, t); for (int i = 0; i < r.Size(); ++i) { r(i) = -r(i) / m(i); } return r; }
   double entropy(const Vector &u) { Vector x(u); MISOInputs in{{"state", x}}; return calcEntropy(*res, in); }
   double cfl(double c, const Vector &u) { ParGridFunction g(&fl.at("state").space()); g.SetFromTrueDofs(u); return flow().minCFLTimeStep(c, g); }
   /// relative defect of M k + R(u, t)
   double defect(const Vector &u, double t, const Vector &k) { Vector r = R(u, t); double a = l2(r), b = 0, e = 0; for (int i = 0; i < r.Size(); ++i) { double q = m(i) * k(i); b += q * q; e += (q + r(i)) * (q + r(i)); } return std::sqrt(e) / (1e-6 + a + std::sqrt(b)); }
   double total(const Vector &u, int s) { double t = 0; for (int i = s; i < u.Size(); i += ns) { t += m(i) * u(i); } return t; }
};
template <int D, bool EV> struct Prob
{
   static constexpr int ns = D + 2; std::unique_ptr<Mesh> sm; json o; bool periodic = false, wall = false, far = false, visc = false, dsbp = false, pump = false; double mach, aoa; Vector q;
   Prob(Case &c, bool steady, bool plain, bool bounded = false)
   {
      HYPRE_ClearAllErrors(); auto &g = c.rng; periodic = D < 3 && !steady && !bounded && c.in("periodic", D == 1 || g.coin(0.4)); dsbp = D == 2 && !periodic && c.in("dsbp", g.coin(0.25)); int p = c.in("degree", D == 3 ? g.irand(0, steady ? 0 : 1) : D == 2 ? g.irand(0, steady ? 1 : 2) : g.irand(0, 4));
      if (periodic)
      {
         Mesh b = D == 1 ? Mesh::MakeCartesian1D(g.irand(3, 6), g.uni(0.5, 2)) : Mesh::MakeCartesian2D(3, 3, Element::TRIANGLE, true, 1.3, 0.9, true); std::vector<Vector> tr; if (D == 1) { double l = 0; for (int v = 0; v < b.GetNV(); ++v) { l = std::max(l, b.GetVertex(v)[0]); } Vector x(1); x = l; tr.push_back(x); } else { tr.push_back(Vector({1.3, 0.0})); tr.push_back(Vector({0.0, 0.9})); } auto v2v = b.CreatePeriodicVertexMapping(tr); sm.reset(new Mesh(Mesh::MakePeriodic(b, v2v)));
      }
      else { sm = vmesh::random_mesh(c, D, D == 3 ? 1 : D == 2 ? 2 : 5); int nb = g.irand(1, std::min(3, sm->GetNBE())); for (int b = 0; b < sm->GetNBE(); ++b) { sm->GetBdrElement(b)->SetAttribute(b < nb ? b + 1 : g.irand(1, nb)); } sm->SetAttributes(); }
      visc = !EV && D > 1 && !dsbp && !periodic && !steady && !plain && c.in("viscous", g.coin(0.2)); mach = steady ? g.uni(0.2, 0.7) : g.uni(0.2, 1.4); aoa = D == 1 ? 0 : g.uni(-20, 20); double lps = c.in("lps", !steady && g.coin(0.4) ? 0.0 : g.uni(0.2, 2));
      o = {{"silent", true}, {"print-options", false}, {"flow-param", {{"entropy-state", EV}, {"mach", mach}, {"aoa", aoa}, {"roll-axis", 0}, {"pitch-axis", 1}, {"viscous", visc}, {"Re", g.logu(10, 200)}, {"Pr", 0.75}, {"mu", 1.0}}},
           {"space-dis", {{"degree", p}, {"lps-coeff", lps}, {"iface-coeff", lps > 0 ? g.uni(0.2, 2) : 0.0}, {"basis-type", dsbp ? "dsbp" : "csbp"}, {"flux-fun", !EV && !plain && g.coin(0.2) ? "Euler" : "IR"}}},
           {"nonlin-solver", {{"type", c.in("newton", g.pick(std::vector<std::string>{"newton", "newton", "relaxednewton"}))}, {"printlevel", -1}, {"maxiter", 40}, {"reltol", 1e-11}, {"abstol", 1e-13}, {"abort", false}}}, {"lin-solver", {{"type", c.in("solver", g.pick(std::vector<std::string>{"gmres", "fgmres", "hyprefgmres"}))}, {"printlevel", -1}, {"maxiter", 300}, {"reltol", 1e-13}, {"abstol", 1e-16}, {"kdim", 300}}},
           {"lin-prec", {{"type", "hypreilu"}, {"lev-fill", 2}, {"ilu-type", 0}, {"ilu-reorder", g.irand(0, 1)}, {"printlevel", 0}}}};
      if (o["lin-solver"]["type"] == "hyprefgmres") { o["lin-solver"]["printlevel"] = 0; }
      if (D > 1 && !periodic)
      {
         std::map<std::string, std::vector<int>> L; for (int a : sm->bdr_attributes) { std::string k = steady ? (g.coin(0.25) ? "slip-wall" : "far-field") : g.coin(0.2) && D == 2 && !visc && !plain ? "pump" : g.coin() ? "slip-wall" : "far-field"; if (plain) { k = "slip-wall"; } L[k].push_back(a); } if (steady && !L.count("far-field")) { L = {{"far-field", {}}}; for (int a : sm->bdr_attributes) { L["far-field"].push_back(a); } }
         for (auto &[k, v] : L) { o["bcs"][k] = v; c.count("bc-" + k); } wall = L.count("slip-wall") && L.size() == 1; far = L.count("far-field") && L.size() == 1; pump = L.count("pump");
      }
      q.SetSize(ns); miso::getFreeStreamQ<double, D>(mach, aoa * M_PI / 180, 0, 1, q.GetData());
   }
   /// a state near the free stream
   Vector state(Rng &g, int n, double sp)
   {
      Vector u(n); for (int i = 0; i < n / ns; ++i) { double x[ns], k = 0; x[0] = q(0) * (1 + sp * g.uni(-1, 1)); for (int d = 0; d < D; ++d) { double v = q(d + 1) / q(0) + sp * g.uni(-1, 1); x[d + 1] = x[0] * v; k += v * v; } x[D + 1] = 1 / 1.4 / 0.4 * (1 + sp * g.uni(-1, 1)) + 0.5 * x[0] * k; if (EV) { double w[ns]; miso::calcEntropyVars<double, D, false>(x, w); for (int s = 0; s < ns; ++s) { x[s] = w[s]; } } for (int s = 0; s < ns; ++s) { u(i * ns + s) = x[s]; } } return u;
   }
};
}
