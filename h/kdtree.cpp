// C01: nearest-node search against exhaustive search.
#include "mfem.hpp"
#include "kdtree.hpp"
#include "vh.hpp"
using namespace vh;

template <int dim>
struct Cloud
{
   std::vector<std::array<double, dim>> p;
   std::vector<int> id;
};

template <int dim>
Cloud<dim> cloud(Case &c, int n, int kind)
{
   Cloud<dim> r;
   auto &g = c.rng;
   double scale = g.logu(1e-6, 1e6), off = g.coin() ? 0.0 : g.uni(-1e3, 1e3);
   for (int i = 0; i < n; ++i)
   {
      std::array<double, dim> x;
      for (int d = 0; d < dim; ++d)
      {
         switch (kind)
         {
         case 0: x[d] = g.uni(-1, 1); break;
         case 1: x[d] = g.irand(0, 4); break;                      // lattice, many ties
         case 2: x[d] = g.irand(0, 1); break;                      // heavy duplicates
         case 3: x[d] = (d == 0) ? g.uni(-1, 1) : 0.25 * d; break; // collinear in axis 0
         case 4: x[d] = (d == dim - 1) ? g.uni(-1, 1) : 0.0; break;
         case 5: { double t = g.uni(0, 6.283185307); x[d] = d == 0 ? cos(i * 0.1) : (d == 1 ? sin(i * 0.1) : t); break; }
         case 6: x[d] = i * (d + 1); break;                        // sorted
         default: x[d] = 0.5; break;                               // all identical
         }
         x[d] = x[d] * scale + off;
      }
      r.p.push_back(x);
      r.id.push_back(i);
   }
   // the stored label need not be the insertion position
   for (int i = 0; i < n; ++i) { r.id[i] = 3 * i + 7; }
   for (int i = n - 1; i > 0; --i) { std::swap(r.id[i], r.id[g.irand(0, i)]); }
   return r;
}

template <int dim>
void queries(Case &c, miso::kdtree<double, dim> &tree, const Cloud<dim> &cl, bool labels)
{
   auto &g = c.rng;
   int n = cl.p.size();
   double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
   for (auto &x : cl.p) { for (int d = 0; d < dim; ++d) { lo[d] = std::min(lo[d], x[d]); hi[d] = std::max(hi[d], x[d]); } }
   std::map<int, int> at;
   for (int i = 0; i < n; ++i) { at[cl.id[i]] = i; }
   for (int k = 0; k < 25; ++k)
   {
      mfem::Vector q(dim);
      int how = g.irand(0, 4);
      for (int d = 0; d < dim; ++d)
      {
         double w = hi[d] - lo[d];
         if (w == 0) { w = std::max(1.0, fabs(lo[d])); }
         q(d) = how == 0 ? g.uni(lo[d], hi[d]) : how == 1 ? g.uni(lo[d] - 2 * w, hi[d] + 2 * w)
              : how == 2 ? cl.p[g.irand(0, n - 1)][d] : how == 3 ? 0.5 * (cl.p[g.irand(0, n - 1)][d] + cl.p[g.irand(0, n - 1)][d])
              : lo[d] + 100 * w * (g.coin() ? 1 : -1);
      }
      if (how == 2) { auto &x = cl.p[g.irand(0, n - 1)]; for (int d = 0; d < dim; ++d) { q(d) = x[d]; } }
      double best = 1e308; int ties = 0;
      for (auto &x : cl.p)
      {
         double s = 0;
         for (int d = 0; d < dim; ++d) { double t = x[d] - q(d); s += t * t; }
         if (s < best) { best = s; ties = 1; } else if (s == best) { ++ties; }
      }
      best = std::sqrt(best);
      int got = tree.nearest(miso::point<double, dim>(q));
      c.count("queries");
      if (ties > 1) { c.count("queries-with-ties"); }
      double tol = 1e-12 * best;
      c.near(tree.distance(), best, tol, "distance-is-minimal", "query " + std::to_string(k));
      if (labels)
      {
         auto it = at.find(got);
         if (c.check(it != at.end(), "label-exists", "label " + std::to_string(got)))
         {
            auto &x = cl.p[it->second];
            double s = 0;
            for (int d = 0; d < dim; ++d) { double t = x[d] - q(d); s += t * t; }
            c.near(std::sqrt(s), best, tol, "returned-node-is-nearest", "query " + std::to_string(k));
         }
      }
      c.check(tree.visited() >= 1 && tree.visited() <= size_t(n), "visits-each-node-at-most-once");
   }
}

template <int dim>
void one(Case &c)
{
   int kind = c.in("kind", c.rng.irand(0, 7));
   int n = c.in("n", c.rng.coin(0.4) ? c.rng.irand(1, 9) : c.rng.irand(10, 400));
   int build = c.in("build", c.rng.irand(0, 2));
   auto cl = cloud<dim>(c, n, kind);
   c.invec("p0", cl.p[0], dim);
   if (build == 0)
   {
      miso::kdtree<double, dim> t;
      c.check(t.empty(), "starts-empty");
      try { t.nearest(miso::point<double, dim>(std::array<double, dim>{})); c.check(false, "empty-tree-refuses"); }
      catch (const std::exception &) { c.check(true, "empty-tree-refuses"); }
      if (c.rng.coin()) { t.set_size(n); }
      for (int i = 0; i < n; ++i)
      {
         mfem::Vector x(dim);
         for (int d = 0; d < dim; ++d) { x(d) = cl.p[i][d]; }
         t.add_node(x, cl.id[i]);
      }
      t.finalize();
      c.check(!t.empty(), "nonempty-after-adding");
      queries<dim>(c, t, cl, true);
   }
   else if (build == 1)
   {
      std::vector<miso::point<double, dim>> pts;
      for (auto &x : cl.p) { pts.emplace_back(x); }
      miso::kdtree<double, dim> t(pts.begin(), pts.end());
      queries<dim>(c, t, cl, false);
   }
   else
   {
      size_t k = 0;
      auto f = [&]() { return miso::point<double, dim>(cl.p[k++]); };
      miso::kdtree<double, dim> t(f, n);
      c.check(k == size_t(n), "generator-called-n-times");
      queries<dim>(c, t, cl, false);
   }
}

int main(int argc, char **argv)
{
   init(argc, argv);
   run("kd1", 300, one<1>);
   run("kd2", 1200, one<2>);
   run("kd3", 1200, one<3>);
   return finish();
}
