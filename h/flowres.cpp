// C17: the assembled flow residual: wiring of integrators, markers and options;
// Jacobian, conservation, entropy balance, outputs, CFL step, norms.
#include "mfem.hpp"
#include "adept.h"
#include "sbp_fe.hpp"
#include "flow_residual.hpp"
#include "miso_residual.hpp"
#include "euler_integ.hpp"
#include "euler_integ_mms.hpp"
#include "navier_stokes_integ.hpp"
#include "diag_mass_integ.hpp"
#include "mfem_extensions.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
#include "eulerref.hpp"
using namespace vh;
using namespace mfem;
using namespace miso;
using json = nlohmann::json;
using NFI = NonlinearFormIntegrator;
static adept::Stack &stack() { static adept::Stack s; return s; }
struct Quiet { std::streambuf *b; Quiet() : b(std::cout.rdbuf(nullptr)) { } ~Quiet() { std::cout.rdbuf(b); } };

/// one term of the reference sum: an integrator and where it applies
struct Term { char where; std::unique_ptr<NFI> I; std::vector<int> attrs; std::function<double(const FiniteElement &, ElementTransformation *, FaceElementTransformations *, const FiniteElement &, const Vector &)> energy; };
template <class T> static Term term(char w, T *p, std::vector<int> a = {})
{
   Term t; t.where = w; t.I.reset(p); t.attrs = std::move(a);
   t.energy = [p, w](const FiniteElement &e, ElementTransformation *tr, FaceElementTransformations *f, const FiniteElement &e2, const Vector &u) -> double {
      if (w == 'v') { return p->GetElementEnergy(e, *tr, u); }
      if constexpr (odl::has_face_energy<T>::value) { return p->GetFaceEnergy(e, e2, *f, u); } else { return NAN; } };
   return t;
}
template <class F> static bool throws(F &&f)
{ try { f(); } catch (const MISOException &) { return true; } catch (const std::exception &) { return true; } return false; }

template <int D, bool EV> struct Setup
{
   static constexpr int ns = D + 2;
   std::unique_ptr<Mesh> smesh; std::unique_ptr<ParMesh> mesh; std::unique_ptr<FiniteElementCollection> fec; const FiniteElementCollection *fec_ = nullptr; ParFiniteElementSpace *fes = nullptr;
   std::map<std::string, FiniteElementState> fields; json opt; int p, nattr; bool dsbp, visc, euler, mms = false; double lps, iface, mach, aoa, Re, Pr, mu; int iroll, ipitch;
   std::vector<Term> terms; Vector qf; double uni_p = 1 / 1.4;
   std::map<int, std::string> bc; bool curved = false, allslip = false, allfar = false;
   Setup(Case &c, const std::string &force = "")
   {
      auto &g = c.rng; bool d0 = c.group == "degree0";
      p = c.in("degree", d0 ? 0 : D == 3 ? g.irand(0, 1) : D == 2 ? (g.coin(0.7) ? g.irand(0, 2) : g.irand(3, 4)) : g.irand(0, 4));
      smesh = vmesh::random_mesh(c, D, D == 3 ? 1 : 2);
      // the operators need not differentiate the metric terms of a curved element exactly: a uniform flow and the entropy are kept on straight ones only
      curved = D > 1 && c.group != "structure" && c.group != "degree0" && c.in("curved", g.coin(0.3));
      if (curved)
      {
         double h = 1e100, a = g.uni(0.01, 0.05), w = g.uni(1, 2.5); for (int e = 0; e < smesh->GetNE(); ++e) { h = std::min(h, smesh->GetElementSize(e, 1)); }
         smesh->SetCurvature(g.irand(2, 3)); VectorFunctionCoefficient f(D, [&](const Vector &x, Vector &y) { y = x; for (int k = 0; k < D; ++k) { y(k) += a * h * sin(w * x((k + 1) % D) / h + k); } });
         GridFunction y(smesh->GetNodes()->FESpace()); y.ProjectCoefficient(f); *smesh->GetNodes() = y; c.count("curved-meshes");
      }
      nattr = g.irand(1, std::min(4, smesh->GetNBE()));
      for (int b = 0; b < smesh->GetNBE(); ++b) { smesh->GetBdrElement(b)->SetAttribute(b < nattr ? b + 1 : g.irand(1, nattr)); }
      smesh->SetAttributes(); mesh.reset(new ParMesh(MPI_COMM_WORLD, *smesh));
      euler = !EV && g.coin(0.3); visc = !EV && (g.coin(0.4) || d0) && force != "slip" && D > 1; dsbp = D == 2 && !visc && g.coin(0.4);
      if (force == "entropy") { euler = false; }
      if (dsbp) { fec.reset(new DSBPCollection(p, D)); } else { fec.reset(new SBPCollection(p, D)); }
      // the solver works on the space owned by its state field
      { ParFiniteElementSpace tmp(mesh.get(), fec.get(), ns, Ordering::byVDIM); fields.emplace("state", FiniteElementState(*mesh, tmp, "state")); }
      fes = &fields.at("state").space(); fec_ = fes->FEColl();
      lps = g.coin(0.4) ? 0.0 : g.uni(0.2, 2); iface = g.coin(0.4) ? 0.0 : g.uni(0.2, 2); mach = g.uni(0.1, 1.6); aoa = g.coin(0.3) ? g.uni(-180, 180) : g.uni(-30, 30);
      Re = g.logu(1, 500); Pr = g.uni(0.5, 1); mu = g.coin() ? -1.0 : g.uni(0.5, 2);
      if (force == "slip") { euler = !EV && g.coin(0.3); }
      if (D == 1) { iroll = 0; ipitch = 1; } else { iroll = g.irand(0, D - 1); do { ipitch = g.irand(0, D - 1); } while (ipitch == iroll); }
      opt = {{"flow-param", {{"entropy-state", EV}, {"mach", mach}, {"aoa", aoa}, {"roll-axis", iroll}, {"pitch-axis", ipitch}, {"viscous", visc}, {"Re", Re}, {"Pr", Pr}, {"mu", mu}}},
             {"space-dis", {{"degree", p}, {"lps-coeff", lps}, {"iface-coeff", iface}, {"basis-type", dsbp ? "dsbp" : "csbp"}, {"flux-fun", euler ? "Euler" : "IR"}}},
             {"time-dis", {{"steady", g.coin()}}}, {"lin-prec", {{"type", "hypreilu"}, {"lev-fill", 1}, {"ilu-type", 0}, {"ilu-reorder", 1}, {"printlevel", 0}}}};
      qf.SetSize(ns); getFreeStreamQ<double, D>(mach, aoa * M_PI / 180, iroll, ipitch, qf.GetData());
      auto &st = stack();
      if (euler) { terms.push_back(term('v', new EulerIntegrator<D>(st))); } else { terms.push_back(term('v', new IsmailRoeIntegrator<D, EV>(st))); }
      if (force.empty() && D > 1 && g.coin(0.15)) { if (!visc) { opt["flow-param"]["inviscid-mms"] = true; terms.push_back({'v', std::unique_ptr<NFI>(new InviscidMMSIntegrator(-1.0, D)), {}, {}}); mms = true; }
         else if (D == 2) { opt["flow-param"]["viscous-mms"] = true; terms.push_back({'v', std::unique_ptr<NFI>(new NavierStokesMMSIntegrator(Re, Pr)), {}, {}}); mms = true; } }
      if (lps > 0) { terms.push_back(term('v', new EntStableLPSIntegrator<D, EV>(st, lps))); }
      if (visc) { terms.push_back(term('v', new ESViscousIntegrator<D>(st, Re, Pr, mu))); }
      if (dsbp) { terms.push_back(term('f', new InterfaceIntegrator<D, EV>(st, iface, fec_))); }
      // boundary conditions
      if (D > 1)
      {
         auto gauss = [](double l, const Vector &a, const Vector &b) { double r = 0; for (int i = 0; i < a.Size(); ++i) { r += (a(i) - b(i)) * (a(i) - b(i)); } return exp(-r / (l * l)); };
         std::vector<std::string> kinds = visc ? std::vector<std::string>{"slip-wall", "no-slip-adiabatic", "far-field", "control"} : std::vector<std::string>{"slip-wall", "far-field", "control"};
         if (D == 2 && !visc) { kinds.push_back("pump"); }
         if (D == 2 && visc) { kinds.push_back("viscous-mms"); }
         if (D == 3) { kinds.erase(std::find(kinds.begin(), kinds.end(), "control")); }   // the actuator is placed in 2-D
         std::map<std::string, std::vector<int>> L;
         for (int a = 1; a <= nattr; ++a)
         {
            if (force.empty() && g.coin(0.15)) { continue; }
            std::string k = force == "slip" || force == "entropy" ? "slip-wall" : force == "far" ? "far-field" : g.pick(kinds);
            L[k].push_back(a); bc[a] = k;
         }
         Vector xc({0.5, 0.0});
         for (auto &[k, v] : L)
         {
            opt["bcs"][k] = v; c.in(("bc-" + k).c_str(), v.size()); c.count("bc-" + k);
            if (!visc && k == "slip-wall") { terms.push_back(term('b', new SlipWallBC<D, EV>(st, fec_), v)); }
            if (visc && k == "slip-wall") { terms.push_back(term('b', new ViscousSlipWallBC<D>(st, fec_, Re, Pr, mu), v)); }
            if (k == "far-field") { terms.push_back(term('b', new FarFieldBC<D, EV>(st, fec_, qf), v)); }
            if (k == "no-slip-adiabatic") { terms.push_back(term('b', new NoSlipAdiabaticWallBC<D>(st, fec_, Re, Pr, qf, mu), v)); }
            if constexpr (D == 2)
            {
               if (!visc && k == "control") { terms.push_back(term('b', new ControlBC<D, EV>(st, fec_, gauss, xc, 0.1), v)); }
               if (visc && k == "control") { terms.push_back(term('b', new ViscousControlBC<D>(st, fec_, Re, Pr, qf, gauss, xc, 0.1, mu), v)); }
               if (k == "viscous-mms") { terms.push_back(term('b', new ViscousExactBC<D>(st, fec_, Re, Pr, [](const Vector &x, Vector &u) { viscousMMSExact<double>(D, x.GetData(), u.GetData()); }, mu), v)); }
               if (k == "pump") { auto pump = [](double t, const Vector &, Vector &q) { double x = 0.05 * (1 - cos(t)), v = 0.05 * sin(t); q(0) = 1 / (1 - x); q(1) = q(0) * v; q(2) = 0; q(3) = pow(q(0), 1.4) / 0.4 + 0.5 * q(0) * v * v; };
                  terms.push_back(term('b', new EntropyConserveBC<D, EV>(st, fec_, pump), v)); }
            }
         }
      }
      c.in("entvar", EV); c.in("viscous", visc); c.in("dsbp", dsbp); c.in("lps", lps); c.in("iface", iface); c.in("euler", euler); c.in("mms", mms);
   }
   Vector state(Rng &g, bool uniform = false, bool cons = false)
   {
      Vector u(fes->GetTrueVSize()); int nn = u.Size() / ns; double sp = g.coin(0.3) ? 0.4 : 0.1;
      for (int i = 0; i < nn; ++i)
      {
         L q[ns], w[ns]; double k = 0; q[0] = uniform ? double(qf(0)) : 1 + sp * g.uni(-1, 1);
         for (int d = 0; d < D; ++d) { double v = qf(d + 1) + (uniform ? 0 : sp * g.uni(-1, 1)); q[d + 1] = q[0] * v; k += v * v; }
         q[D + 1] = uniform ? L(qf(D + 1)) : L(uni_p * (1 + sp * g.uni(-1, 1)) / 0.4 + 0.5 * double(q[0]) * k);
         ref::W<D>(q, w); for (int s = 0; s < ns; ++s) { u(i * ns + s) = double(EV && !cons ? w[s] : q[s]); }
      }
      return u;
   }
   static void wof(const double *u, double *w) { L q[ns], x[ns]; if (EV) { for (int s = 0; s < ns; ++s) { w[s] = u[s]; } } else { for (int s = 0; s < ns; ++s) { q[s] = u[s]; } ref::W<D>(q, x); for (int s = 0; s < ns; ++s) { w[s] = double(x[s]); } } }
   static void qof(const double *u, double *q)
   {
      if (!EV) { for (int s = 0; s < ns; ++s) { q[s] = u[s]; } return; }
      // w -> q by hand: w4 = -rho/p, velocity = -w_i/w4, s from w0
      L r = -L(u[ns - 1]), k = 0, v[D]; for (int d = 0; d < D; ++d) { v[d] = L(u[d + 1]) / r; k += v[d] * v[d]; }
      L s = ref::G - ref::Gm * (u[0] + 0.5L * r * k);       // s = ln p - gamma ln rho, rho = r p
      L pr = std::exp((s + ref::G * std::log(r)) / (1 - ref::G)), rho = r * pr;
      q[0] = double(rho); for (int d = 0; d < D; ++d) { q[d + 1] = double(rho * v[d]); } q[D + 1] = double(pr / ref::Gm + 0.5L * rho * k);
   }
   /// reference assembly by explicit loops
   void loop(const Vector &u, const MISOInputs &in, std::vector<Term> &ts, Vector *R, double *E, double &mag)
   {
      mag = 1e-8; if (R) { R->SetSize(u.Size()); *R = 0.0; } if (E) { *E = 0; }
      for (auto &t : ts)
      {
         auto add = [&](const Array<int> &vd, const Vector &r) { for (int i = 0; i < vd.Size(); ++i) { (*R)(vd[i]) += r(i); mag = std::max(mag, fabs(r(i))); } };
         Array<int> vd, vd2; Vector ul, r;
         if (t.where == 'v') { for (int e = 0; e < mesh->GetNE(); ++e) { IsoparametricTransformation T; mesh->GetElementTransformation(e, &T); fes->GetElementVDofs(e, vd); u.GetSubVector(vd, ul); if (R) { t.I->AssembleElementVector(*fes->GetFE(e), T, ul, r); add(vd, r); } if (E) { *E += t.energy(*fes->GetFE(e), &T, nullptr, *fes->GetFE(e), ul); } } }
         if (t.where == 'b') { for (int b = 0; b < mesh->GetNBE(); ++b) { if (std::find(t.attrs.begin(), t.attrs.end(), mesh->GetBdrAttribute(b)) == t.attrs.end()) { continue; } auto *F = mesh->GetBdrFaceTransformations(b); if (!F) { continue; }
            auto &fe = *fes->GetFE(F->Elem1No); fes->GetElementVDofs(F->Elem1No, vd); u.GetSubVector(vd, ul); if (R) { t.I->AssembleFaceVector(fe, fe, *F, ul, r); add(vd, r); } if (E) { *E += t.energy(fe, nullptr, F, fe, ul); } } }
         if (t.where == 'f') { for (int f = 0; f < mesh->GetNumFaces(); ++f) { auto *F = mesh->GetInteriorFaceTransformations(f); if (!F) { continue; }
            fes->GetElementVDofs(F->Elem1No, vd); fes->GetElementVDofs(F->Elem2No, vd2); vd.Append(vd2); u.GetSubVector(vd, ul); if (R) { t.I->AssembleFaceVector(*fes->GetFE(F->Elem1No), *fes->GetFE(F->Elem2No), *F, ul, r); add(vd, r); } if (E) { *E += t.energy(*fes->GetFE(F->Elem1No), nullptr, F, *fes->GetFE(F->Elem2No), ul); } } }
      }
   }
};
template <class F> static double diffdir(F &&f, const Vector &u, const Vector &v, double h, Vector &d)
{
   Vector up(u), a, b, d1, d2, d3, e1; int n = u.Size();
   auto cd = [&](double s, Vector &o) { for (int i = 0; i < n; ++i) { up(i) = u(i) + s * v(i); } f(up, a); for (int i = 0; i < n; ++i) { up(i) = u(i) - s * v(i); } f(up, b); o = a; o -= b; o /= 2 * s; };
   cd(h, d1); cd(h / 2, d2); cd(h / 4, d3); d.SetSize(d1.Size()); double e = 0;
   for (int i = 0; i < d1.Size(); ++i) { double x = (4 * d2(i) - d1(i)) / 3, y = (4 * d3(i) - d2(i)) / 3; d(i) = (16 * y - x) / 15; e = std::max(e, fabs(d(i) - y)); }
   cd(h / 64, d1); for (int i = 0; i < d.Size(); ++i) { e = std::max(e, fabs(d(i) - d1(i))); } // a kink nearer than h/4
   return e;
}

template <class T> static bool set_if(NFI *I, const MISOInputs &in) { if (auto *p = dynamic_cast<T *>(I)) { setInputs(*p, in); return true; } return false; }
template <int D, bool EV> static void give(std::vector<Term> &ts, const MISOInputs &in)
{ for (auto &t : ts) { NFI *I = t.I.get(); set_if<ControlBC<D, EV>>(I, in) || set_if<EntropyConserveBC<D, EV>>(I, in) || set_if<BoundaryEntropy<D, EV>>(I, in); if constexpr (!EV) { set_if<ViscousControlBC<D>>(I, in); } } }

template <int D, bool EV> static void residual(Case &c)
{
   using S = Setup<D, EV>; const int ns = D + 2; S P(c); auto &g = c.rng; Quiet quiet;
   MISOResidual res(FlowResidual<D, EV>(P.opt, *P.fes, P.fields, stack()));
   int n = P.fes->GetTrueVSize(); if (!c.check(getSize(res) == n, "size")) { return; }
   Vector u = P.state(g), u0(u), xa(D), R(n), X; for (int d = 0; d < D; ++d) { xa(d) = g.uni(0, 1); }
   bool placed = g.coin(); double t = g.uni(0, 5), dt = g.uni(0, 0.5), ctrl = g.uni(-0.2, 0.2), t2 = g.uni(0, 5), ctrl2 = g.uni(-0.2, 0.2);
   MISOInputs in{{"state", u}, {"time", t}, {"control", ctrl}}, in2{{"state", u}, {"time", t2}, {"control", ctrl2}};
   if (placed) { in.emplace("x-actuator", xa); in2.emplace("x-actuator", xa); }
   double mag; R = NAN; evaluate(res, in, R);
   give<D, EV>(P.terms, in); P.loop(u, in, P.terms, &X, nullptr, mag);
   double err = 0; for (int i = 0; i < n; ++i) { err = std::isfinite(R(i)) ? std::max(err, fabs(R(i) - X(i))) : NAN; if (err != err) { break; } }
   if (!c.near(err, 0, 1e-11 * mag, "residual-is-the-sum-of-its-terms")) { return; }
   for (int i = 0; i < n; ++i) { if (!c.check(u(i) == u0(i), "state-untouched")) { break; } }
   // another set of inputs, then back: no memory
   Vector R2(n), X2; R2 = 3.0; evaluate(res, in2, R2); give<D, EV>(P.terms, in2); P.loop(u, in2, P.terms, &X2, nullptr, mag);
   err = 0; for (int i = 0; i < n; ++i) { err = std::max(err, fabs(R2(i) - X2(i))); } c.near(err, 0, 1e-11 * mag, "residual-follows-its-inputs");
   bool sens = false; for (int i = 0; i < n; ++i) { sens = sens || fabs(X2(i) - X(i)) > 1e-9; } if (sens) { c.count("inputs-that-matter"); }
   // Jacobian at `in` although the last evaluation was at in2
   auto &J = getJacobian(res, in, "state"); Vector v(n), Jv(n), d; c.check(J.Height() == n && J.Width() == n, "jacobian-size");
   for (int k = 0; k < 2; ++k)
   {
      for (int i = 0; i < n; ++i) { v(i) = g.uni(-1, 1) * std::max(0.1, fabs(u(i))); } J.Mult(v, Jv);
      double e = diffdir([&](const Vector &x, Vector &r) { r.SetSize(n); MISOInputs q{{"state", const_cast<Vector &>(x)}, {"time", t}, {"control", ctrl}}; if (placed) { q.emplace("x-actuator", xa); } evaluate(res, q, r); }, u, v, EV ? 1e-3 : 4e-3, d);
      double sc = std::max(d.Normlinf(), mag) + 1e-10; if (!(e < 2e-6 * sc)) { c.count("kinks"); continue; }
      err = 0; for (int i = 0; i < n; ++i) { err = std::max(err, fabs(d(i) - Jv(i))); } c.near(err, 0, 2e-5 * sc, "jacobian-is-the-derivative"); c.count("jacobian-directions");
   }
   {  // the Jacobian belongs to the inputs it is asked for, whatever was evaluated last
      for (int i = 0; i < n; ++i) { v(i) = g.uni(-1, 1) * std::max(0.1, fabs(u(i))); } evaluate(res, in, R2); getJacobian(res, in, "state").Mult(v, Jv);
      evaluate(res, in2, R2); Vector w(n); getJacobian(res, in, "state").Mult(v, w); w -= Jv; c.near(w.Normlinf(), 0, 1e-12 * (1 + Jv.Normlinf()), "jacobian-at-the-given-inputs");
   }
   // entropy and its rate
   double ent = calcEntropy(res, in), ex = 0, em = 1e-10;
   for (int e = 0; e < P.mesh->GetNE(); ++e)
   {
      auto &fe = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(e)); auto *T = P.fes->GetElementTransformation(e); Array<int> vd; P.fes->GetElementVDofs(e, vd); int m = fe.GetDof();
      for (int i = 0; i < m; ++i) { double a[ns], q[ns]; for (int s = 0; s < ns; ++s) { a[s] = u(vd[s * m + i]); } S::qof(a, q); L ql[ns]; for (int s = 0; s < ns; ++s) { ql[s] = q[s]; } T->SetIntPoint(&fe.GetNodes().IntPoint(i)); double z = fe.getDiagNormEntry(i) * T->Weight() * double(ref::S<D>(ql)); ex += z; em += fabs(z); }
   }
   c.near(ent, ex, 1e-10 * em + 1e-10, "entropy-is-the-norm-sum");
   bool eul = P.euler || P.mms || P.visc;
   if (!eul)
   {
      bool energies = true; for (auto &[a, k] : P.bc) { (void)a; (void)k; }
      Vector w(n), kdot(n); for (int i = 0; i < n / ns; ++i) { S::wof(u.GetData() + i * ns, w.GetData() + i * ns); } kdot = 0.0;
      MISOInputs q{{"state", u}, {"state_dot", kdot}, {"time", t}, {"dt", dt}, {"control", ctrl}}; if (placed) { q.emplace("x-actuator", xa); }
      double dS = calcEntropyChange(res, q);
      MISOInputs later{{"state", u}, {"time", t + dt}, {"control", ctrl}}; if (placed) { later.emplace("x-actuator", xa); }
      setInputs(res, later); evaluate(res, later, R2); double wr = w * R2, ws = 1e-8; for (int i = 0; i < n; ++i) { ws += fabs(w(i)) * mag; }
      if (energies) { c.near(dS, wr, 1e-9 * ws, "entropy-change-is-the-weighted-residual"); c.count("entropy-rates"); }
   }
   // mass matrix
   auto *M = getMassMatrix(res, P.opt); Vector one(n), m1(n), mx(n), mr(n); for (int i = 0; i < n; ++i) { one(i) = g.uni(-1, 1); } M->Mult(one, m1); mx = 0.0;
   bool steady = P.opt["time-dis"]["steady"];
   for (int e = 0; e < P.mesh->GetNE(); ++e)
   {
      auto &fe = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(e)); auto *T = P.fes->GetElementTransformation(e); Array<int> vd; P.fes->GetElementVDofs(e, vd); int m = fe.GetDof();
      for (int i = 0; i < m; ++i) { T->SetIntPoint(&fe.GetNodes().IntPoint(i)); double z = fe.getDiagNormEntry(i) * T->Weight(); if (steady) { z /= pow(T->Weight(), 1.0 / D); } for (int s = 0; s < ns; ++s) { mx(vd[s * m + i]) += z * one(vd[s * m + i]); } }
   }
   m1 -= mx; c.near(m1.Normlinf(), 0, 1e-13 * (1 + mx.Normlinf()), "mass-is-the-diagonal-norm"); c.check(getMassMatrix(res, P.opt) == M, "mass-is-built-once");
   // smallest CFL step
   auto &fr = getConcrete<FlowResidual<D, EV>>(res); auto &gf = P.fields.at("state").gridFunc(); gf.SetFromTrueDofs(u);
   double cfl = g.logu(0.01, 10), dtm = 1e100;
   for (int e = 0; e < P.mesh->GetNE(); ++e)
   {
      auto *fe = P.fes->GetFE(e); auto *T = P.fes->GetElementTransformation(e); Array<int> vd; P.fes->GetElementVDofs(e, vd); int m = fe->GetDof();
      for (int i = 0; i < m; ++i) { double a[ns], q[ns]; for (int s = 0; s < ns; ++s) { a[s] = u(vd[s * m + i]); } S::qof(a, q); L ql[ns]; for (int s = 0; s < ns; ++s) { ql[s] = q[s]; } double cs = double(std::sqrt(1.4L * ref::p<D>(ql) / ql[0])); Vector xi(D), xj(D); T->Transform(fe->GetNodes().IntPoint(i), xi);
         for (int j = 0; j < m; ++j) { if (j == i) { continue; } T->Transform(fe->GetNodes().IntPoint(j), xj); xj -= xi; double h = xj.Norml2(), un = 0; for (int k = 0; k < D; ++k) { un += q[k + 1] / q[0] * xj(k) / h; } dtm = std::min(dtm, cfl * h / (fabs(un) + cs)); } }
   }
   c.near(fr.minCFLTimeStep(cfl, gf), dtm, 1e-10 * dtm, "cfl-step-is-the-smallest-ratio");
   // L2 error in conservative variables
   static auto exact = [](const Vector &x, Vector &z) { z.SetSize(ns); double q[ns], r = 1 + 0.1 * sin(x(0)), k = 0; q[0] = r; for (int d = 0; d < D; ++d) { double v = 0.2 * cos(x(d) + d); q[d + 1] = r * v; k += v * v; } q[D + 1] = 2 + 0.5 * r * k; if (EV) { L ql[ns], w[ns]; for (int s = 0; s < ns; ++s) { ql[s] = q[s]; } ref::W<D>(ql, w); for (int s = 0; s < ns; ++s) { z(s) = double(w[s]); } } else { for (int s = 0; s < ns; ++s) { z(s) = q[s]; } } };
   void (*fp)(const Vector &, Vector &) = [](const Vector &x, Vector &z) { exact(x, z); };
   int entry = g.irand(-1, ns - 1); double l2 = 0;
   for (int e = 0; e < P.mesh->GetNE(); ++e)
   {
      auto &fe = *dynamic_cast<const SBPFiniteElement *>(P.fes->GetFE(e)); auto *T = P.fes->GetElementTransformation(e); Array<int> vd; P.fes->GetElementVDofs(e, vd); int m = fe.GetDof();
      for (int i = 0; i < m; ++i) { double a[ns], q[ns], qx[ns]; Vector x(D), z; T->Transform(fe.GetNodes().IntPoint(i), x); exact(x, z); S::qof(z.GetData(), qx); for (int s = 0; s < ns; ++s) { a[s] = u(vd[s * m + i]); } S::qof(a, q); T->SetIntPoint(&fe.GetNodes().IntPoint(i)); double h = fe.getDiagNormEntry(i) * T->Weight(); for (int s = 0; s < ns; ++s) { if (entry < 0 || entry == s) { l2 += h * (q[s] - qx[s]) * (q[s] - qx[s]); } } }
   }
   c.rel(fr.calcConservativeVarsL2Error(gf, fp, entry), sqrt(l2), 1e-9, 1e-9, "l2-error-in-conservative-variables");
   // free-stream parameters
   Vector qfar(ns); fr.getFreeStreamState(qfar); qfar -= P.qf; c.near(qfar.Normlinf(), 0, 1e-15, "free-stream-state");
   c.near(fr.getAoA(), P.aoa * M_PI / 180, 1e-15, "angle-in-radians"); c.count("residuals");
   if (P.dsbp) { c.count("discontinuous"); } if (P.visc) { c.count("viscous"); } if (EV) { c.count("entropy-variables"); } if (P.mms) { c.count("manufactured"); }
}
/// structure: free stream, conservation, entropy
template <int D, bool EV> static void structure(Case &c)
{
   using S = Setup<D, EV>; const int ns = D + 2; auto &g = c.rng; std::string how = c.group == "degree0" ? "far" : g.pick(std::vector<std::string>{"far", "slip", "entropy"}); S P(c, how); Quiet quiet;
   MISOResidual res(FlowResidual<D, EV>(P.opt, *P.fes, P.fields, stack())); int n = P.fes->GetTrueVSize(); Vector u = P.state(g, how == "far"), R(n); MISOInputs in{{"state", u}, {"time", 0.3}};
   evaluate(res, in, R); double mag; Vector X; P.loop(u, in, P.terms, &X, nullptr, mag);
   bool inexact = D == 2 && P.p == 0 && P.visc;   // the degree-0 triangle operator: reported under its own group
   if (how == "far" && inexact && c.group != "degree0") { c.trivial = true; return; }
   if (how == "far") { if (!P.mms) { c.near(R.Normlinf(), 0, (EV ? 1e-11 : 1e-11) * (mag + 1), inexact ? "degree-0-triangle-viscous-free-stream" : "free-stream-preserved"); c.count("free-streams"); } return; }
   if (!P.visc || how == "slip")
   {
      for (int s = 0; s < ns; s += ns - 1) { double t = 0; for (int i = 0; i < n / ns; ++i) { t += R(i * ns + s); } c.near(t, 0, 1e-11 * mag * n, s == 0 ? "mass-is-conserved" : "energy-is-conserved"); }
      c.count("closed-boxes");
   }
   if (how == "entropy" && !P.visc)
   {
      double wr = 0, ws = 1e-8; for (int i = 0; i < n / ns; ++i) { double w[ns]; S::wof(u.GetData() + i * ns, w); for (int s = 0; s < ns; ++s) { wr += w[s] * R(i * ns + s); ws += fabs(w[s]) * mag; } }
      bool cons = P.lps == 0 && (!P.dsbp || P.iface == 0);
      if (cons) { c.near(wr, 0, 1e-10 * ws, "entropy-is-conserved"); c.count("entropy-conserved"); }
      else { c.check(wr >= -1e-10 * ws, "entropy-is-dissipated"); c.count("entropy-dissipated"); if (P.p > 0 || P.lps > 0) { c.count("dissipation-strict", wr > 1e-9 * ws); } }
   }
}
template <int D, bool EV> static void outputs(Case &c)
{
   using S = Setup<D, EV>; const int ns = D + 2; auto &g = c.rng; S P(c); Quiet quiet; auto &st = stack();
   FlowResidual<D, EV> res(P.opt, *P.fes, P.fields, st); int n = P.fes->GetTrueVSize(); Vector u = P.state(g), xa(D); for (int d = 0; d < D; ++d) { xa(d) = g.uni(0, 1); }
   double t = g.uni(0, 5), ctrl = 0.1; MISOInputs in{{"state", u}, {"time", t}, {"control", ctrl}}; bool placed = D == 3 || g.coin(); if (placed) { in.emplace("x-actuator", xa); }
   std::vector<int> b; for (int a = 1; a <= P.nattr; ++a) { if (g.coin(0.6)) { b.push_back(a); } } if (b.empty()) { b.push_back(g.irand(1, P.nattr)); }
   json o = {{"boundaries", b}}; c.in("boundaries", b.size());
   auto gauss = [](double l, const Vector &a, const Vector &x) { double r = 0; for (int i = 0; i < a.Size(); ++i) { r += (a(i) - x(i)) * (a(i) - x(i)); } return exp(-r / (l * l)); };
   for (std::string f : {"drag", "lift", "boundary-entropy", "far-field-supply-rate"})
   {
      if (f == "far-field-supply-rate" && EV) { continue; }
      if (f == "boundary-entropy" && D == 3 && !placed) { continue; }
      MISOOutput out = res.constructOutput(f, o); Vector dir(D); dir = 0.0; double al = P.aoa * M_PI / 180;
      if (f == "drag") { dir(P.iroll) = cos(al); dir(P.ipitch) = sin(al); } else { dir(P.iroll) = -sin(al); dir(P.ipitch) = cos(al); } dir /= P.mach * P.mach;
      std::vector<Term> ts; Vector xc(D); xc = 0.0; xc(0) = 0.5;
      if (f == "drag" || f == "lift") { if (P.visc) { if constexpr (!EV) { ts.push_back(term('b', new SurfaceForce<D>(st, P.fec_, ns, P.Re, P.Pr, P.qf, dir, P.mu), b)); } } else { ts.push_back(term('b', new PressureForce<D, EV>(st, P.fec_, dir), b)); } }
      else if (f == "boundary-entropy") { ts.push_back(term('b', new BoundaryEntropy<D, EV>(st, P.fec_, gauss, xc, 0.1), b)); }
      else if constexpr (!EV) { ts.push_back(term('b', new SupplyRate<D, EV>(st, P.fec_, P.qf), b)); }
      c.check(getSize(out) == 1, f + "-is-a-scalar");
      give<D, EV>(ts, in); double E, mag; Vector G; P.loop(u, in, ts, nullptr, &E, mag); P.loop(u, in, ts, &G, nullptr, mag);
      setInputs(out, in); double val = calcOutput(out, in); c.rel(val, E, 1e-11, 1e-11, f + "-value"); if (fabs(E) > 1e-8) { c.count(f + "-nonzero"); }
      if (f == "drag" || f == "lift") { Vector part(n); part = NAN; calcOutputPartial(out, "state", in, part); double er = 0; for (int i = 0; i < n; ++i) { er = std::max(er, fabs(part(i) - G(i))); if (!(part(i) == part(i))) { er = NAN; break; } } c.near(er, 0, 1e-11 * (mag + 1), f + "-partial");
         // products with the partial accumulate
         Vector v(n); for (int i = 0; i < n; ++i) { v(i) = g.uni(-1, 1); } double jv = jacobianVectorProduct(out, v, "state"); c.near(jv, G * v, 1e-10 * (1 + mag) * n, f + "-forward-product");
         Vector ob(1), wb(n), w0(n); ob(0) = g.uni(-2, 2); for (int i = 0; i < n; ++i) { w0(i) = wb(i) = g.uni(-1, 1); } vectorJacobianProduct(out, ob, "state", wb); er = 0; for (int i = 0; i < n; ++i) { er = std::max(er, fabs(wb(i) - w0(i) - ob(0) * G(i))); } c.near(er, 0, 1e-11 * (mag + 1), f + "-reverse-product"); }
      c.count("outputs");
   }
   MISOOutput e = res.constructOutput("entropy", json()); double ev = calcEntropy(res, in); c.rel(calcOutput(e, in), ev, 1e-14, 1e-14, "entropy-output-value"); c.check(getSize(e) == 1, "entropy-is-a-scalar");
   for (std::string bad : {"thrust", "", "Drag"}) { c.check(throws([&] { res.constructOutput(bad, o); }), "unknown-output-refused"); }
}
/// options
template <int D, bool EV> static void options(Case &c)
{
   using S = Setup<D, EV>; auto &g = c.rng; S P(c); Quiet quiet; json o = P.opt; std::string what; bool bad = true;
   auto build = [&] { FlowResidual<D, EV> r(o, *P.fes, P.fields, stack()); };
   switch (c.in("variant", g.irand(0, 8)))
   {
      case 0: { int a = g.irand(0, D == 1 ? 1 : D - 1); o["flow-param"]["roll-axis"] = a; o["flow-param"]["pitch-axis"] = a; what = "equal-axes-refused"; break; }
      case 1: o["flow-param"][g.coin() ? "roll-axis" : "pitch-axis"] = g.coin() ? -g.irand(1, 3) : g.irand(3, 6); what = "axis-out-of-range-refused"; break;
      case 2: if (D != 2) { c.trivial = true; return; } o["flow-param"][g.coin() ? "roll-axis" : "pitch-axis"] = 2; what = "axis-beyond-the-dimension-refused"; break;
      case 3: if (!EV) { c.trivial = true; return; } o["space-dis"]["flux-fun"] = "Euler"; what = "euler-flux-for-entropy-variables-refused"; break;
      case 4: if (EV || D == 1) { c.trivial = true; return; } o["flow-param"]["viscous"] = true; o["space-dis"]["basis-type"] = "dsbp"; o.erase("bcs"); what = "viscous-discontinuous-refused"; break;
      case 5: if (D == 2) { c.trivial = true; return; } o["flow-param"]["viscous"] = false; o["bcs"] = {{"vortex", {1}}}; what = "vortex-outside-2d-refused"; break;
      case 6: o.erase("space-dis"); what = "missing-discretization-refused"; break;
      case 7: { o["lin-prec"]["type"] = g.pick(std::vector<std::string>{"ilu", "", "hyprepilut"}); MISOResidual r(FlowResidual<D, EV>(o, *P.fes, P.fields, stack())); c.check(throws([&] { getPreconditioner(r); }), "unknown-preconditioner-refused"); c.count("refusals"); return; }
      case 8: { std::string k = g.pick(std::vector<std::string>{"hypreilu", "blockilu", "hypreboomeramg", "hypreeuclid"}); o["lin-prec"]["type"] = k; MISOResidual r(FlowResidual<D, EV>(o, *P.fes, P.fields, stack())); auto *p = getPreconditioner(r);
         bool ok = k == "hypreilu" ? dynamic_cast<HypreILU *>(p) != nullptr : k == "blockilu" ? dynamic_cast<BlockILU *>(p) != nullptr : k == "hypreboomeramg" ? dynamic_cast<HypreBoomerAMG *>(p) != nullptr : dynamic_cast<HypreEuclid *>(p) != nullptr;
         c.check(ok, "preconditioner-is-the-requested-one", k); c.check(getPreconditioner(r) == p, "preconditioner-is-kept"); c.count("preconditioners"); return; }
   }
   c.check(bad == throws(build), what); c.count("refusals");
}
#define PICK(f, c, lo) { int d = c.in("dim", c.rng.irand(lo, 3)); bool e = c.rng.coin(0.35); if (d == 1) { e ? f<1, true>(c) : f<1, false>(c); } else if (d == 2) { e ? f<2, true>(c) : f<2, false>(c); } else { e ? f<3, true>(c) : f<3, false>(c); } }
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv); stack();
   run("residual", 160, [](Case &c) { PICK(residual, c, 1) });
   run("structure", 160, [](Case &c) { PICK(structure, c, 2) });
   run("degree0", 6, [](Case &c) { c.in("dim", 2); structure<2, false>(c); });
   run("outputs", 120, [](Case &c) { PICK(outputs, c, 2) });
   run("options", 120, [](Case &c) { PICK(options, c, 1) });
   int rc = finish(); MPI_Finalize(); return rc;
}
