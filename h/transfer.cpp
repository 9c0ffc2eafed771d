// C29: element-wise transfers of a field (its values, its curl, the length of its curl) to broken spaces.
#include "integcheck.hpp"
#include "l2_transfer_operator.hpp"
using namespace ic;

/// the operators by kind: 0 scalar values, 1 vector values, 2 curl, 3 length of the curl
struct Op
{
   std::unique_ptr<miso::L2TransferOperator> o; int kind; bool derived; Case &c;
   Op(Case &c_, int k, FiniteElementState &u, FiniteElementState &x, FiniteElementState &y, bool d) : kind(k), derived(d), c(c_)
   { using namespace miso; if (k == 0) { o.reset(new ScalarL2IdentityProjection(u, x, y)); } else if (k == 1) { o.reset(new L2IdentityProjection(u, x, y)); } else if (k == 2) { o.reset(new L2CurlProjection(u, x, y)); } else { o.reset(new L2CurlMagnitudeProjection(u, x, y)); } }
   // through the interface outputs are used by
   template <class F> auto use(F f) { if (derived && kind == 2) { return f(static_cast<miso::L2CurlProjection &>(*o)); } if (derived && kind == 3) { return f(static_cast<miso::L2CurlMagnitudeProjection &>(*o)); } return f(*o); }
   int size() { return use([](auto &q) { return getSize(q); }); }
   void set(const MISOInputs &in) { use([&](auto &q) { setInputs(q, in); return 0; }); }
   void value(const MISOInputs &in, Vector &v) { use([&](auto &q) { calcOutput(q, in, v); return 0; }); }
   void rev(const Vector &b, const std::string &w, Vector &r) { use([&](auto &q) { vectorJacobianProduct(q, b, w, r); return 0; }); }
};
static void body(Case &c, int dim)
{
   auto &g = c.rng; Env E(c, dim); int kind = c.in("kind", g.irand(0, 3)); int p = c.in("degree", g.irand(1, 2)), q = c.in("output-degree", g.irand(0, 3));
   std::string on = kind == 0 ? g.pick(std::vector<std::string>{"h1", "l2"}) : kind == 1 ? g.pick(std::vector<std::string>{"nd", "rt"}) : dim == 2 ? g.pick(std::vector<std::string>{"h1", "l2"}) : "nd"; c.count(std::string("kind-") + char('0' + kind) + "-" + on + (dim == 2 ? "-plane" : "-space")); c.in("space", on);
   auto &u = E.add("u", on, p); int vd = kind == 1 || kind == 2 ? dim : 1; auto &y = E.add("y", "l2", q, -1, 1, vd); auto &x = E.at("mesh_coords"); E.tv.erase("y");
   Op op(c, kind, u, x, y, g.coin()); if (op.derived) { c.count("derived-interface"); } int ny = op.size(); c.check(ny == y.space().GetTrueVSize(), "size");
   if (g.coin(0.3)) { op.set(E.inputs()); }
   auto in = [&] { MISOInputs i; for (auto &w : {"u", "mesh_coords"}) { i.emplace(std::string(w) == "u" ? "state" : w, E.tv.at(w)); } return i; };
   auto judge = [&](const Vector &v, const char *name)
   {  // every output node carries the value there
      FiniteElementState::Options o; o.order = q; o.num_states = vd; o.coll.reset(new L2_FECollection(q, dim)); FiniteElementState z(*E.mesh, std::move(o)); z.distributeSharedDofs(v); double w = 0, sc = 0;
      for (int e = 0; e < E.mesh->GetNE(); ++e)
      {
         auto &T = *E.mesh->GetElementTransformation(e); auto &ir = z.space().GetFE(e)->GetNodes();
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); Vector want(vd), got(vd);
            if (kind == 0) { want(0) = u.gridFunc().GetValue(T, ip); } else if (kind == 1) { u.gridFunc().GetVectorValue(T, ip, want); }
            else if (dim == 3) { Vector b; u.gridFunc().GetCurl(T, b); if (kind == 2) { want = b; } else { want(0) = b.Norml2(); } }
            else { Vector d; u.gridFunc().GetGradient(T, d); if (kind == 2) { want(0) = d(1); want(1) = -d(0); } else { want(0) = d.Norml2(); } }
            if (vd == 1) { got(0) = z.gridFunc().GetValue(T, ip); } else { z.gridFunc().GetVectorValue(T, ip, got); } sc = std::max(sc, norm(want)); want -= got; w = std::max(w, norm(want)); if (!(norm(want) < 1e300)) { w = NAN; break; }
         }
      }
      c.near(w, 0, 1e-11 * (1 + sc), name); c.count("nodes-compared");
   };
   Vector v(ny); v = 1e9; E.sync(); op.value(in(), v); judge(v, "values-at-the-nodes"); { Vector z(ny); y.setTrueVec(z); same(c, z, v, 1e-14, "output-field-follows"); } { Vector w(ny); w = -1e9; op.o->apply(E.tv["u"], w); same(c, w, v, 1e-14, "same-from-the-state-alone"); }
   // another state, then the mesh moved, then back
   Vector keep(E.tv["mesh_coords"]), u0(E.tv["u"]); E.tv["u"] = rvec(g, u0.Size()); op.value(in(), v); judge(v, "values-of-another-state");
   E.tv["mesh_coords"].Add(1.0, [&] { auto d = E.direction("mesh_coords"); d *= 0.05; return d; }()); { MISOInputs i = in(); op.value(i, v); } judge(v, "values-on-a-moved-mesh"); c.count("moves");
   if (g.coin()) { E.tv["mesh_coords"] = keep; op.value(in(), v); judge(v, "values-moved-back"); }
   // derivatives
   bool smooth = true; if (kind == 3) { auto low = [&] { double lo = 1e300; for (int i = 0; i < ny; ++i) { lo = std::min(lo, v(i)); } return lo < 0.2; }; for (int t = 0; t < 8 && low(); ++t) { E.randomize("u", -3, 3); op.value(in(), v); } if (low()) { smooth = false; c.count("near-a-kink"); } }
   Vector bar = rvec(g, ny), keepbar(bar); auto J = [&] { MISOInputs i = in(); Vector o(ny); op.value(i, o); return o * bar; };
   for (std::string w : {"state", "mesh_coords"})
   {
      std::string f = w == "state" ? "u" : w; auto now = in(); op.set(now); Vector b = rvec(g, E.tv[f].Size()), b0(b); op.rev(bar, w, b); same(c, bar, keepbar, 0, "weights-untouched"); b -= b0; auto d = E.direction(f);
      if (smooth) { derivative(c, b * d, E.moved(f, d, J), "transposed-" + w, 1e-3, 2e-3); c.count("transposed-" + w); op.set(now); } 
      Vector twice(b.Size()); twice = 0.0; op.rev(bar, w, twice); op.rev(bar, w, twice); twice *= 0.5; same(c, twice, b, 1e-10, "products-accumulate");
   }
   { Vector b = rvec(g, ny), r(b); r -= bar; op.rev(bar, "out", b); same(c, b, r, 1e-14, "transposed-out"); }
   { Vector b(3), r; b = 4.0; r = b; op.rev(bar, "nothing-of-that-name", b); same(c, b, r, 0, "unknown-input-has-no-derivative"); }
   if (kind == 3)
   {  // no flux somewhere: the length has no derivative there, but products stay finite
      E.tv["u"] = 0.0; if (g.coin()) { for (int i = 0; i < E.tv["u"].Size() / 2; ++i) { E.tv["u"](i) = g.uni(-1, 1); } } op.value(in(), v); judge(v, "values-without-flux");
      for (std::string w : {"state", "mesh_coords"}) { Vector b(E.tv[w == "state" ? "u" : w].Size()); b = 0.0; op.rev(bar, w, b); bool fin = true; for (int i = 0; i < b.Size(); ++i) { fin = fin && std::isfinite(b(i)); } c.check(fin, "finite-without-flux-" + w); } c.count("without-flux");
   }
}
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv); init(argc, argv);
   run("plane", 2500, [](Case &c) { body(c, 2); }); run("space", 1500, [](Case &c) { body(c, 3); });
   int rc = finish(); MPI_Finalize(); return rc;
}
