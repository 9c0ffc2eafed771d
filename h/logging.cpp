// C05: state logging round trips.
#include <unistd.h>
#include "mfem.hpp"
#include "data_logging.hpp"
#include "vh.hpp"
#include <cstring>
#include <fstream>
#include <sstream>
#include <map>
using namespace vh;
static double special(Rng &g)
{
   switch (g.irand(0, 11))
   {
   case 0: return 0.0; case 1: return -0.0; case 2: return 5e-324; case 3: return -2.2250738585072014e-308;
   case 4: return 1.7976931348623157e308; case 5: return -1.7976931348623157e308; case 6: return 1.0 / 3; case 7: return g.irand(-1000, 1000);
   case 8: return 1 + 2.220446049250313e-16; case 9: return g.logu(1e-300, 1e300); case 10: return -g.logu(1e-12, 1e12); default: return g.uni(-1, 1);
   }
}
static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

template <class L> void history(Case &c)
{
   auto &g = c.rng; L log;
   struct Rec { double t; std::vector<double> v; };
   std::map<std::tuple<std::string, int, int>, Rec> model;
   static const char *names[] = {"state", "adjoint", "u_1", "u", "u_1_2", "res.dual"};
   int nops = c.in("ops", g.irand(3, 25));
   for (int k = 0; k < nops; ++k)
   {
      std::string nm = names[g.irand(0, 5)]; int step = g.coin(0.2) ? g.irand(100, 1000000) : g.irand(0, 3), rank = g.irand(0, 2);
      auto key = std::make_tuple(nm, step, rank);
      if (model.empty() || g.coin(0.55))
      {
         int n = g.coin(0.1) ? 0 : g.coin(0.2) ? g.irand(100, 3000) : g.irand(1, 20);
         Rec r; r.t = special(g); mfem::Vector s(n);
         for (int i = 0; i < n; ++i) { r.v.push_back(special(g)); s(i) = r.v[i]; }
         log.saveState(s, nm, step, r.t, rank);
         for (int i = 0; i < n; ++i) { if (!bits(s(i), r.v[i])) { c.check(false, "saving-changes-nothing"); } }
         if (model.count(key)) { c.count("overwrites"); }
         model[key] = r; c.count("saves");
      }
      else
      {
         auto it = model.begin(); std::advance(it, g.irand(0, (int)model.size() - 1));
         double t = 7; mfem::Vector s(g.irand(0, 40)); s = 3.14;
         log.readState(std::get<0>(it->first), std::get<1>(it->first), std::get<2>(it->first), t, s);
         c.check(bits(t, it->second.t), "time-read-back-exactly");
         if (c.check(s.Size() == (int)it->second.v.size(), "size-read-back"))
         { bool ok = true; for (int i = 0; i < s.Size(); ++i) { ok = ok && bits(s(i), it->second.v[i]); } c.check(ok, "state-read-back-exactly"); }
         c.count("reads");
      }
   }
   // finally everything written is still there
   for (auto &m : model)
   {
      double t = 7; mfem::Vector s;
      log.readState(std::get<0>(m.first), std::get<1>(m.first), std::get<2>(m.first), t, s);
      bool ok = bits(t, m.second.t) && s.Size() == (int)m.second.v.size();
      for (int i = 0; ok && i < s.Size(); ++i) { ok = bits(s(i), m.second.v[i]); }
      c.check(ok, "no-snapshot-disturbs-another", std::get<0>(m.first)); c.count("reads");
   }
}

/// the numbers of a DataArray of a ParaView file (base64, preceded by its length)
static std::vector<double> array(const std::string &x, const std::string &name, int &ncomp)
{
   size_t at = name.empty() ? x.find("<Points>") : x.find("Name=\"" + name + "\""); if (at == std::string::npos) { return {}; }
   if (name.empty()) { at = x.find("<DataArray", at); } else { at = x.rfind("<DataArray", at); }
   size_t close = x.find('>', at); std::string tag = x.substr(at, close - at); size_t k = tag.find("NumberOfComponents=\""); ncomp = k == std::string::npos ? 1 : atoi(tag.c_str() + k + 20);
   size_t end = x.find('<', close); std::string bytes; unsigned acc = 0; int bits = 0;
   for (size_t i = close + 1; i < end; ++i)
   {
      char ch = x[i]; int v = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1;
      if (ch == '=') { acc = 0; bits = 0; continue; }
      if (v < 0) { continue; }
      acc = acc << 6 | v; bits += 6; if (bits >= 8) { bits -= 8; bytes += char(acc >> bits & 255); }
   }
   unsigned len = 0; if (bytes.size() < 4) { return {}; } memcpy(&len, bytes.data(), 4); std::vector<double> r;
   if (bytes.size() < 4 + (size_t)len || tag.find("Float64") == std::string::npos) { return {}; }
   r.resize(len / 8); memcpy(r.data(), bytes.data() + 4, r.size() * 8); return r;
}
static std::string slurp(const std::string &f) { std::ifstream is(f); std::stringstream ss; ss << is.rdbuf(); return ss.str(); }

static void paraview(Case &c)
{
   auto &g = c.rng; bool quad = g.coin(); int curved = g.coin() ? 2 : 1;
   auto sm = mfem::Mesh::MakeCartesian2D(g.irand(1, 3), g.irand(1, 3), quad ? mfem::Element::QUADRILATERAL : mfem::Element::TRIANGLE);
   sm.SetCurvature(curved); { double amp = g.uni(0, 0.05), ph = g.uni(0, 6); mfem::VectorFunctionCoefficient move(2, [=](const mfem::Vector &x, mfem::Vector &y) { y = x; y(0) += amp * sin(4 * x(1) + ph); y(1) += amp * cos(3 * x(0) + ph); }); sm.Transform(move); }
   mfem::ParMesh m(MPI_COMM_WORLD, sm);
   int p1 = c.in("p1", g.irand(1, 4)), p2 = c.in("p2", g.irand(1, 4)), pm = std::max(p1, p2), per = quad ? (pm + 1) * (pm + 1) : (pm + 1) * (pm + 2) / 2;
   mfem::H1_FECollection f1(p1, 2); mfem::L2_FECollection f2(p2, 2, mfem::BasisType::GaussLobatto);
   mfem::ParFiniteElementSpace s1(&m, &f1), s2(&m, &f2, 2);
   mfem::ParGridFunction a(&s1), b(&s2); a = 0.0; b = 0.0; std::string run = "run" + std::to_string(c.idx);
   miso::ParaViewLogger pv(run, &m);
   pv.registerField("a", a); pv.registerField("b", b);
   std::map<std::string, double> times; int cycle = 0; double tlast = 0;
   for (int k = 0; k < 4; ++k)
   {
      int w = g.irand(0, 2); cycle += g.irand(k ? 1 : 0, 3); double time = g.coin(0.3) ? tlast : g.coin(0.2) ? 0.0 : g.logu(1e-4, 1e3); tlast = time;
      mfem::Vector t(w == 0 ? s1.GetTrueVSize() : s2.GetTrueVSize());
      for (int i = 0; i < t.Size(); ++i) { t(i) = g.uni(-1, 1); }
      mfem::ParGridFunction a0(a), b0(b);
      pv.saveState(t, w == 0 ? "a" : w == 1 ? "b" : "nobody", cycle, time, 0);
      mfem::ParGridFunction e(w == 0 ? &s1 : &s2); e.SetFromTrueDofs(t);
      if (w == 0) { a0 = e; } else if (w == 1) { b0 = e; }
      mfem::ParGridFunction da(a0), db(b0); da -= a; db -= b;
      c.check(da.Normlinf() == 0 && db.Normlinf() == 0, "only-the-named-field-takes-the-saved-state");
      char nm[64]; snprintf(nm, 64, "Cycle%06d", cycle); std::string dir = "ParaView/" + run + "/" + nm + "/";
      if (w < 2)
      {
         times[nm] = time;
         c.check(access((dir + "data.pvtu").c_str(), R_OK) == 0, "snapshot-exists-for-the-step", nm); c.count("paraview-snapshots");
         // what was written is the two fields
         std::string vtu = slurp(dir + "proc000000.vtu"); int n3, na, nb; auto P = array(vtu, "", n3), A = array(vtu, "a", na), B = array(vtu, "b", nb); size_t np = P.size() / 3, ne = m.GetNE();
         if (!c.check(n3 == 3 && na == 1 && nb >= 2 && np % ne == 0 && A.size() == np && B.size() == np * nb, "snapshot-holds-both-fields", nm)) { return; }
         c.check((int)(np / ne) >= per, "snapshot-resolves-every-field", std::to_string(np / ne) + " points for degree " + std::to_string(pm));
         double worst = 0; mfem::Vector v(2);
         for (size_t i = 0; i < np; ++i)
         {
            int el = i / (np / ne); auto &T = *m.GetElementTransformation(el); mfem::Vector x(2); x(0) = P[3 * i]; x(1) = P[3 * i + 1]; mfem::IntegrationPoint ip;
            mfem::InverseElementTransformation inv(&T); inv.SetPhysicalRelTol(1e-14); inv.SetReferenceTol(1e-13); inv.Transform(x, ip); T.SetIntPoint(&ip); mfem::Vector y(2); T.Transform(ip, y); y -= x; worst = std::max(worst, y.Normlinf());
            worst = std::max(worst, fabs(a0.GetValue(el, ip) - A[i])); b0.GetVectorValue(el, ip, v); for (int d = 0; d < 2; ++d) { worst = std::max(worst, fabs(v(d) - B[nb * i + d])); }
         }
         c.check(worst < 1e-9, "snapshot-holds-the-saved-states", std::to_string(worst)); c.count("paraview-points", np);
      }
      else { c.check(times.count(nm) || access((dir + "data.pvtu").c_str(), F_OK) != 0, "an-unregistered-field-writes-nothing"); }
   }
   // the collection names every snapshot and its time
   if (times.empty()) { return; }
   std::string pvd = slurp("ParaView/" + run + "/" + run + ".pvd"); size_t seen = 0;
   for (size_t at = pvd.find("timestep=\""); at != std::string::npos; at = pvd.find("timestep=\"", at + 1)) { double t = atof(pvd.c_str() + at + 10); size_t f = pvd.find("file=\"", at); std::string nm = pvd.substr(f + 6, 11); ++seen; c.check(times.count(nm) && fabs(times[nm] - t) <= 1e-5 * fabs(times[nm]), "collection-gives-each-snapshot-its-time", nm); }
   c.check(seen == times.size(), "collection-names-every-snapshot");
}

int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("ascii", 300, history<miso::ASCIILogger>);
   run("binary", 300, history<miso::BinaryLogger>);
   run("paraview", 60, paraview, 3);
   int rc = finish(); MPI_Finalize(); return rc;
}
