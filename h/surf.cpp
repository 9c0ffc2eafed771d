// C35: distances to curves, one element at a time and over whole surfaces (given, or taken
// off chosen boundaries of a volume mesh), against distances to the same curves computed here.
#include "mfem.hpp"
#include "surface.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
using namespace vh;
using namespace mfem;
namespace mfem { void mfem_error(const char *m) { throw std::runtime_error(std::string("mfem: ") + m); } void mfem_warning(const char *) {} }
struct Mute { std::streambuf *a = std::cout.rdbuf(nullptr); ~Mute() { std::cout.rdbuf(a); } };
using P2 = std::array<double, 2>;
/// one piece: x(s) = a + b s + d s^2, 0 <= s <= 1
struct Piece
{
   P2 a, b, d;
   Piece(const P2 &p0, const P2 &pm, const P2 &p1) { for (int k = 0; k < 2; ++k) { a[k] = p0[k]; d[k] = 2 * p0[k] - 4 * pm[k] + 2 * p1[k]; b[k] = p1[k] - p0[k] - d[k]; } }
   P2 at(double s) const { return {a[0] + s * (b[0] + s * d[0]), a[1] + s * (b[1] + s * d[1])}; }
   double dist(const P2 &x, double s) const { P2 y = at(s); return std::hypot(y[0] - x[0], y[1] - x[1]); }
   double slope(const P2 &x, double s) const { P2 y = at(s); return (y[0] - x[0]) * (b[0] + 2 * s * d[0]) + (y[1] - x[1]) * (b[1] + 2 * s * d[1]); }
   double curv(const P2 &x, double s) const { P2 y = at(s); double t0 = b[0] + 2 * s * d[0], t1 = b[1] + 2 * s * d[1]; return t0 * t0 + t1 * t1 + 2 * ((y[0] - x[0]) * d[0] + (y[1] - x[1]) * d[1]); }
   double length() const { return std::hypot(b[0] + d[0], b[1] + d[1]); }
   /// every stationary point of the squared distance, by its cubic derivative's extrema
   struct Near { double dist, s; int minima; double other, least; };
   Near nearest(const P2 &x) const
   {
      // slope is a cubic in s: between its own stationary points it is monotone
      double c1 = b[0] * b[0] + b[1] * b[1] + 2 * ((a[0] - x[0]) * d[0] + (a[1] - x[1]) * d[1]), c2 = 6 * (b[0] * d[0] + b[1] * d[1]), c3 = 6 * (d[0] * d[0] + d[1] * d[1]);   // slope' = c1 + c2 s + c3 s^2
      std::vector<double> knots{0}; double disc = c2 * c2 - 4 * c3 * c1;
      if (c3 > 0 && disc > 0) { double q = -0.5 * (c2 + (c2 < 0 ? -1 : 1) * std::sqrt(disc)); std::vector<double> r{q / c3}; if (q != 0) { r.push_back(c1 / q); } std::sort(r.begin(), r.end()); for (double s : r) { if (s > knots.back() && s < 1) { knots.push_back(s); } } }
      knots.push_back(1); std::vector<double> m; if (slope(x, 0) >= 0) { m.push_back(0); }
      for (size_t k = 0; k + 1 < knots.size(); ++k) { double l = knots[k], h = knots[k + 1]; if (slope(x, l) < 0 && slope(x, h) > 0) { for (int i = 0; i < 200; ++i) { double t = 0.5 * (l + h); (slope(x, t) < 0 ? l : h) = t; } m.push_back(0.5 * (l + h)); } }
      if (slope(x, 1) <= 0) { m.push_back(1); }
      Near n{1e300, 0, int(m.size()), 1e300, 0}; if (m.empty()) { m = {0, 1}; n.minima = 9; } for (double s : m) { double v = dist(x, s); if (v < n.dist) { n.other = n.dist; n.dist = v; n.s = s; } else { n.other = std::min(n.other, v); } } n.least = 1e300; for (int i = 0; i <= 50; ++i) { n.least = std::min(n.least, curv(x, i / 50.0)); } return n;
   }
};
static Vector vec(const P2 &p) { Vector v(2); v(0) = p[0]; v(1) = p[1]; return v; }
static Piece piece(ElementTransformation &T) { P2 p[3]; for (int i = 0; i < 3; ++i) { IntegrationPoint ip; ip.Set1w(0.5 * i, 0); Vector x(2); T.Transform(ip, x); p[i] = {x(0), x(1)}; } return Piece(p[0], p[1], p[2]); }
/// what a whole surface should answer, and which of its nodes is nearest
struct Curve
{
   std::vector<Piece> p; std::vector<std::vector<P2>> nodes; double size = 0;
   void add(ElementTransformation &T, int order) { p.push_back(piece(T)); std::vector<P2> n{p.back().at(0), p.back().at(1)}; if (order == 2) { n.push_back(p.back().at(0.5)); } nodes.push_back(n); size = std::max(size, p.back().length()); }
   template <class S> void ask(Case &c, S &surf, const P2 &x, const std::string &where)
   {
      double nd = 1e300; for (auto &v : nodes) { for (auto &q : v) { nd = std::min(nd, std::hypot(q[0] - x[0], q[1] - x[1])); } }
      double best = 1e300, local = 1e300; bool clear = true; double tol = 1e-9 * (size + nd);
      for (size_t e = 0; e < p.size(); ++e)
      {
         auto n = p[e].nearest(x); best = std::min(best, n.dist); bool tie = false, touch = false; for (auto &q : nodes[e]) { double r = std::hypot(q[0] - x[0], q[1] - x[1]); if (r <= nd + tol) { touch = true; } else if (r <= nd * (1 + 1e-6) + tol) { tie = true; } }
         if (touch) { local = std::min(local, n.dist); if (n.minima != 1) { clear = false; } } if (tie) { clear = false; }
      }
      double d = surf.calcDistance(vec(x)); c.count("distances"); c.check(std::isfinite(d) && d >= best - tol, "never-nearer-than-the-surface"); c.check(d <= nd + tol || !clear, "never-farther-than-the-nearest-node");
      if (clear && local <= best + tol) { c.near(d, best, tol, "distance"); c.count(where); if (nodes.size() > 1) { c.count("whole-surfaces"); } if (best > tol) { c.count("off-the-surface"); } else { c.count("on-the-surface"); } } else { c.count(clear ? "nearest-elsewhere" : "several-minima"); }
   }
};
static P2 query(Rng &g, const Curve &C, double far)
{
   const Piece &p = C.p[g.irand(0, int(C.p.size()) - 1)]; double s = g.coin(0.2) ? g.irand(0, 1) : g.uni(0, 1); P2 y = p.at(s); double r = g.coin(0.1) ? 0 : p.length() * g.logu(1e-6, far), t = g.uni(0, 2 * M_PI); if (g.coin()) { t = std::atan2(p.b[0] + 2 * s * p.d[0], -(p.b[1] + 2 * s * p.d[1])) + (g.coin() ? M_PI : 0); }
   return {y[0] + r * std::cos(t), y[1] + r * std::sin(t)};
}
/// a curve of n pieces through random points of a bent line or a closed loop
static std::unique_ptr<Mesh> curve(Case &c, int n, int order, bool closed, double scale, bool given = false)
{
   auto &g = c.rng; int nv = closed ? n : n + 1; std::vector<P2> v(nv); double ph = g.uni(0, 6.28), turn = closed ? 2 * M_PI : g.uni(0.05, 5), ex = g.uni(0.3, 1); P2 o{g.uni(-1, 1), g.uni(-1, 1)}; if (n == 1) { turn = g.uni(0.1, 1.2); }
   auto on = [&](double u) { double t = ph + turn * u; return P2{scale * (o[0] + std::cos(t)), scale * (o[1] + ex * std::sin(t))}; };
   std::vector<double> u(nv); for (int i = 0; i < nv; ++i) { u[i] = (i + (i && i + 1 < nv ? g.uni(-0.3, 0.3) : 0)) / double(n); v[i] = on(u[i]); for (double &q : v[i]) { q += scale * (n > 2 ? 0.1 / n : 0) * g.uni(-1, 1); } }
   std::vector<int> name(nv), eo(n); for (int i = 0; i < nv; ++i) { name[i] = i; } for (int i = nv - 1; i > 0; --i) { std::swap(name[i], name[g.irand(0, i)]); } std::vector<P2> w(nv); for (int i = 0; i < nv; ++i) { w[name[i]] = v[i]; }
   auto m = std::make_unique<Mesh>(1, nv, n, 0, 2); for (auto &p : w) { m->AddVertex(p.data()); } for (int i = 0; i < n; ++i) { eo[i] = i; } for (int i = n - 1; i > 0; --i) { std::swap(eo[i], eo[g.irand(0, i)]); }
   for (int i : eo) { int e[2] = {name[i], name[(i + 1) % nv]}; if (g.coin()) { std::swap(e[0], e[1]); } m->AddSegment(e, g.irand(1, 3)); }
   m->FinalizeMesh(); if (order == 2 || given || g.coin()) { m->SetCurvature(order, false, 2, g.coin() ? Ordering::byNODES : Ordering::byVDIM); }
   if (order == 2) { GridFunction &x = *m->GetNodes(); const FiniteElementSpace *fes = x.FESpace(); double bow = c.in("bow", g.coin(0.7) ? g.uni(0, 0.25) : g.uni(0.25, 0.6)); for (int e = 0; e < n; ++e) { Array<int> d; fes->GetElementDofs(e, d); P2 t; for (int k = 0; k < 2; ++k) { t[k] = x(fes->DofToVDof(d[1], k)) - x(fes->DofToVDof(d[0], k)); } double b = bow * g.uni(-1, 1), s = 0.15 * g.uni(-1, 1); x(fes->DofToVDof(d[2], 0)) += s * t[0] - b * t[1]; x(fes->DofToVDof(d[2], 1)) += s * t[1] + b * t[0]; } }
   return m;
}
static void element(Case &c)
{
   Mute mute; auto &g = c.rng; int order = c.in("order", g.irand(1, 2)), n = g.irand(1, 4); double scale = c.in("scale", g.coin() ? 1.0 : g.logu(1e-2, 1e3)); auto m = curve(c, n, order, false, scale, true); miso::Surface<2> S(*m);
   for (int k = 0; k < 40; ++k)
   {
      int e = g.irand(0, n - 1); Curve C; ElementTransformation &T = *m->GetElementTransformation(e); C.add(T, order); P2 x = query(g, C, 30); auto w = C.p[0].nearest(x); double tol = 1e-9 * (C.size + w.dist);
      try { double d = S.solveDistance(T, vec(x)); c.check(d >= w.dist - tol, "never-nearer-than-the-element"); if (w.minima == 1) { c.near(d, w.dist, tol, "element-distance"); c.count(w.s == 0 || w.s == 1 ? "ends" : "inside"); c.count(order == 1 ? "straight-elements" : "curved-elements"); } }
      catch (const miso::MISOException &) { c.check(w.minima != 1, "an-element-always-has-a-distance"); c.count("several-minima"); }
   }
}
static void whole(Case &c)
{
   Mute mute; auto &g = c.rng; int order = c.in("order", g.irand(1, 2)), n = c.in("pieces", g.irand(1, 30)); bool closed = c.in("closed", n > 3 && g.coin()); auto m = curve(c, n, order, closed, c.in("scale", g.coin() ? 1.0 : g.logu(1e-2, 1e3))); miso::Surface<2> S(*m); Curve C; for (int e = 0; e < n; ++e) { C.add(*m->GetElementTransformation(e), order); } m.reset();
   for (int k = 0; k < 40; ++k) { C.ask(c, S, query(g, C, 10), closed ? "closed-curves" : "open-curves"); }
}
static void volume(Case &c)
{
   Mute mute; auto &g = c.rng; auto m = vmesh::random_mesh(c, 2, 5); int order = c.in("order", g.irand(1, 2)); if (order == 2 || g.coin()) { m->SetCurvature(order, false, 2, g.coin() ? Ordering::byNODES : Ordering::byVDIM); }
   if (order == 2) { GridFunction &x = *m->GetNodes(); double h = m->GetElementSize(0) ; for (int i = m->GetNV() * 0; i < x.Size(); ++i) { x(i) += 0.06 * h * g.uni(-1, 1); } }
   Array<int> on(m->bdr_attributes.Max()); on = 0; bool some = false; for (int a : m->bdr_attributes) { on[a - 1] = g.coin(0.7); } for (int a : m->bdr_attributes) { some = some || on[a - 1]; } if (!some) { on[m->bdr_attributes[0] - 1] = 1; }
   miso::Surface<2> S(*m, on); Curve C; int left = 0; for (int b = 0; b < m->GetNBE(); ++b) { if (on[m->GetBdrAttribute(b) - 1]) { C.add(*m->GetBdrElementTransformation(b), order); } else { ++left; } }
   P2 lo{1e300, 1e300}, hi{-1e300, -1e300}; for (int i = 0; i < m->GetNV(); ++i) { Vector y(2); double q[2]; m->GetNode(i, q); for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); } }
   for (int k = 0; k < 40; ++k) { P2 x = g.coin() ? query(g, C, 10) : P2{g.uni(lo[0], hi[0]), g.uni(lo[1], hi[1])}; C.ask(c, S, x, left ? "some-boundaries" : "all-boundaries"); } c.count(order == 2 ? "curved-volumes" : "straight-volumes");
}
/// what the class says it does not do
static void refusals(Case &c)
{
   Mute mute; auto &g = c.rng; auto refuses = [&](const char *what, auto &&f) { bool threw = false; try { f(); } catch (const miso::MISOException &) { threw = true; } c.check(threw, what); c.count("refusals"); };
   { Mesh m = Mesh::MakeCartesian2D(g.irand(1, 3), g.irand(1, 3), g.coin() ? Element::TRIANGLE : Element::QUADRILATERAL); Mesh v = Mesh::MakeCartesian3D(1, 1, 1, Element::TETRAHEDRON); Array<int> on(6); on = 1; Mesh s(m); s.SetCurvature(1, false, 3); refuses("surfaces-in-space-are-refused", [&] { miso::Surface<3> S(s); }); refuses("surfaces-of-solids-are-refused", [&] { miso::Surface<3> S(v, on); }); }
   { auto m = vmesh::random_mesh(c, 2, 4); m->SetCurvature(g.irand(1, 2), true, 2); Array<int> on(m->bdr_attributes.Max()); on = 1; refuses("discontinuous-nodes-are-refused", [&] { miso::Surface<2> S(*m, on); }); }
}
int main(int argc, char **argv) { vh::init(argc, argv); vh::run("element", 1500, element); vh::run("whole", 1500, whole); vh::run("volume", 800, volume); vh::run("refusals", 40, refusals); return vh::finish(); }
