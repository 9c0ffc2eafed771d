// C18: residual and load forms and functional outputs: sums over markers,
// essential rows, Jacobians, products, adjoint systems, dispatch.
#include "mfem.hpp"
#include "miso_input.hpp"
#include "miso_integrator.hpp"
#include "miso_nonlinearform.hpp"
#include "miso_linearform.hpp"
#include "functional_output.hpp"
#include "miso_output.hpp"
#include "miso_residual.hpp"
#include "miso_load.hpp"
#include "finite_element_state.hpp"
#include "vh.hpp"
#include "vmesh.hpp"
using namespace vh;
using namespace mfem;
using json = nlohmann::json;
using miso::FiniteElementState; using miso::MISOInputs;
struct Quiet { std::streambuf *b; Quiet() : b(std::cout.rdbuf(nullptr)) { } ~Quiet() { std::cout.rdbuf(b); } };

namespace ft
{
inline double f(double u) { return u + u * u * u; }
inline double df(double u) { return 1 + 3 * u * u; }
inline double E(double u) { return u * u / 2 + u * u * u * u / 4; }
/// what every test integrator depends on: a named scalar, an option, a field
struct Par
{
   std::string key; double gain = 0, scale = 1; GridFunction *temp = nullptr;
   double kappa(ElementTransformation &T) const { return scale * gain + temp->GetValue(T, T.GetIntPoint()); }
};
inline void localVec(GridFunction &g, int e, Vector &v) { Array<int> vd; g.FESpace()->GetElementVDofs(e, vd); g.GetSubVector(vd, v); }
inline const IntegrationRule &rule(int geom, int p) { return IntRules.Get(geom, 2 * p + 2); }

/// visit the points of an element or a face: u (jump of u for two elements),
/// shape functions of both sides
template <class F> void visit(const FiniteElement &el, ElementTransformation &T, F &&fn)
{
   Vector s(el.GetDof()), none; auto &ir = rule(el.GetGeomType(), el.GetOrder());
   for (int i = 0; i < ir.GetNPoints(); ++i) { auto &ip = ir.IntPoint(i); T.SetIntPoint(&ip); el.CalcShape(ip, s); fn(ip.weight * T.Weight(), s, none, T); }
}
template <class F> void visit(const FiniteElement &e1, const FiniteElement *e2, FaceElementTransformations &T, F &&fn)
{
   Vector s1(e1.GetDof()), s2(e2 ? e2->GetDof() : 0); auto &ir = rule(T.GetGeometryType(), e1.GetOrder());
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      auto &ip = ir.IntPoint(i); T.SetAllIntPoints(&ip); e1.CalcShape(T.GetElement1IntPoint(), s1);
      if (e2) { e2->CalcShape(T.GetElement2IntPoint(), s2); s2 *= -1.0; }
      fn(ip.weight * T.Weight(), s1, s2, *T.Elem1);
   }
}
inline Vector join(const Vector &a, const Vector &b) { Vector r(a.Size() + b.Size()); for (int i = 0; i < a.Size(); ++i) { r(i) = a(i); } for (int i = 0; i < b.Size(); ++i) { r(a.Size() + i) = b(i); } return r; }

/// kappa f(u) v, on elements, boundary faces or (jumps) interior faces
struct Dom : NonlinearFormIntegrator
{
   Par p;
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &x, Vector &y) override
   { y.SetSize(x.Size()); y = 0.0; visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { y.Add(w * p.kappa(tr) * f(s * x), s); }); }
   void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T, const Vector &x, DenseMatrix &m) override
   { m.SetSize(x.Size()); m = 0.0; visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { AddMult_a_VVt(w * p.kappa(tr) * df(s * x), s, m); }); }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &x) override
   { double e = 0; visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { e += w * p.kappa(tr) * E(s * x); }); return e; }
};
template <bool Two> struct FaceT : NonlinearFormIntegrator
{
   Par p;
   void AssembleFaceVector(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x, Vector &y) override
   { y.SetSize(x.Size()); y = 0.0; visit(e1, Two ? &e2 : nullptr, T, [&](double w, const Vector &a, const Vector &b, ElementTransformation &tr) { Vector s = join(a, b); y.Add(w * p.kappa(tr) * f(s * x), s); }); }
   void AssembleFaceGrad(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x, DenseMatrix &m) override
   { m.SetSize(x.Size()); m = 0.0; visit(e1, Two ? &e2 : nullptr, T, [&](double w, const Vector &a, const Vector &b, ElementTransformation &tr) { Vector s = join(a, b); AddMult_a_VVt(w * p.kappa(tr) * df(s * x), s, m); }); }
   double GetFaceEnergy(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x)
   { double e = 0; visit(e1, Two ? &e2 : nullptr, T, [&](double w, const Vector &a, const Vector &b, ElementTransformation &tr) { Vector s = join(a, b); e += w * p.kappa(tr) * E(s * x); }); return e; }
};
using Bdr = FaceT<false>; using Jump = FaceT<true>;

// ---- derivatives with respect to the scalar and the field -------------------
/// adj null: derivative of the energy, else of psi^T residual
struct Dep { const Par &p; GridFunction &state; GridFunction *adj;
   Vector u, psi;
   void load(int e1, int e2) { Vector a, b; localVec(state, e1, a); if (e2 >= 0) { localVec(state, e2, b); } u = join(a, b);
      if (adj) { Vector c, d; localVec(*adj, e1, c); if (e2 >= 0) { localVec(*adj, e2, d); } psi = join(c, d); } }
   double val(const Vector &s) { return adj ? f(s * u) * (s * psi) : E(s * u); } };
struct DomG : NonlinearFormIntegrator
{
   Dep d; DomG(const Par &p, GridFunction &s, GridFunction *a) : d{p, s, a} { }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &x) override
   { d.load(T.ElementNo, -1); d.u = x; double e = 0; visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &) { e += w * d.p.scale * d.val(s); }); return e; }
};
template <bool Two> struct FaceG : NonlinearFormIntegrator
{
   Dep d; FaceG(const Par &p, GridFunction &s, GridFunction *a) : d{p, s, a} { }
   double GetFaceEnergy(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x)
   { d.load(T.Elem1No, Two ? T.Elem2No : -1); d.u = x; double e = 0; visit(e1, Two ? &e2 : nullptr, T, [&](double w, const Vector &a, const Vector &b, ElementTransformation &) { e += w * d.p.scale * d.val(join(a, b)); }); return e; }
};
struct DomT : LinearFormIntegrator
{
   Dep d; DomT(const Par &p, GridFunction &s, GridFunction *a) : d{p, s, a} { }
   void AssembleRHSElementVect(const FiniteElement &tel, ElementTransformation &T, Vector &y) override
   { d.load(T.ElementNo, -1); auto &el = *d.state.FESpace()->GetFE(T.ElementNo); y.SetSize(tel.GetDof()); y = 0.0; Vector t(tel.GetDof());
     visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { tel.CalcShape(tr.GetIntPoint(), t); y.Add(w * d.val(s), t); }); }
};
template <bool Two> struct FaceTS : LinearFormIntegrator
{
   Dep d; FaceTS(const Par &p, GridFunction &s, GridFunction *a) : d{p, s, a} { }
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &) override { abort(); }
   void one(const FiniteElement &t1, FaceElementTransformations &T, Vector &y)
   { d.load(T.Elem1No, Two ? T.Elem2No : -1); auto &fes = *d.state.FESpace(); auto &e1 = *fes.GetFE(T.Elem1No); Vector t(t1.GetDof());
     visit(e1, Two ? fes.GetFE(T.Elem2No) : nullptr, T, [&](double w, const Vector &a, const Vector &b, ElementTransformation &tr) { t1.CalcShape(tr.GetIntPoint(), t); double v = w * d.val(join(a, b)); for (int i = 0; i < t.Size(); ++i) { y(i) += v * t(i); } }); }
   void AssembleRHSElementVect(const FiniteElement &t1, FaceElementTransformations &T, Vector &y) override { y.SetSize(t1.GetDof()); y = 0.0; one(t1, T, y); }
   void AssembleRHSElementVect(const FiniteElement &t1, const FiniteElement &t2, FaceElementTransformations &T, Vector &y) override { y.SetSize(t1.GetDof() + t2.GetDof()); y = 0.0; one(t1, T, y); }
};
#define MAPS std::map<std::string, ParLinearForm> &rs, std::map<std::string, ParNonlinearForm> &rss
#define FWD std::map<std::string, ParLinearForm> &, std::map<std::string, ParNonlinearForm> &
using Fields = std::map<std::string, FiniteElementState>;
template <class G, class T, class AddG, class AddT> void reg(Par &p, Fields &fl, MAPS, const std::string &st, const char *adjn, AddG &&ag, AddT &&at)
{
   GridFunction *adj = adjn ? &fl.at(adjn).gridFunc() : nullptr; auto &s = fl.at(st).gridFunc();
   rss.emplace(p.key, &fl.at(st).space()); ag(rss.at(p.key), new G(p, s, adj));
   rs.emplace("temp", &fl.at("temp").space()); at(rs.at("temp"), new T(p, s, adj));
}
inline void regDom(Dom &I, Fields &fl, MAPS, Array<int> *m, const std::string &st, const char *a)
{
   reg<DomG, DomT>(I.p, fl, rs, rss, st, a, [&](ParNonlinearForm &n, DomG *g) { if (m) { n.AddDomainIntegrator(g, *m); } else { n.AddDomainIntegrator(g); } },
                   [&](ParLinearForm &l, DomT *t) { if (m) { l.AddDomainIntegrator(t, *m); } else { l.AddDomainIntegrator(t); } });
}
inline void regBdr(Bdr &I, Fields &fl, MAPS, Array<int> *m, const std::string &st, const char *a)
{
   reg<FaceG<false>, FaceTS<false>>(I.p, fl, rs, rss, st, a, [&](ParNonlinearForm &n, FaceG<false> *g) { if (m) { n.AddBdrFaceIntegrator(g, *m); } else { n.AddBdrFaceIntegrator(g); } },
                   [&](ParLinearForm &l, FaceTS<false> *t) { if (m) { l.AddBdrFaceIntegrator(t, *m); } else { l.AddBdrFaceIntegrator(t); } });
}
inline void regJump(Jump &I, Fields &fl, MAPS, const std::string &st, const char *a)
{
   reg<FaceG<true>, FaceTS<true>>(I.p, fl, rs, rss, st, a, [&](ParNonlinearForm &n, FaceG<true> *g) { n.AddInteriorFaceIntegrator(g); },
                   [&](ParLinearForm &l, FaceTS<true> *t) { l.AddInteriorFaceIntegrator(t); });
}
inline void addDomainSensitivityIntegrator(Dom &I, Fields &fl, MAPS, FWD, Array<int> *m, std::string a) { regDom(I, fl, rs, rss, m, "state", a.c_str()); }
inline void addBdrSensitivityIntegrator(Bdr &I, Fields &fl, MAPS, FWD, Array<int> *m, std::string a) { regBdr(I, fl, rs, rss, m, "state", a.c_str()); }
inline void addInteriorFaceSensitivityIntegrator(Jump &I, Fields &fl, MAPS, FWD, std::string a) { regJump(I, fl, rs, rss, "state", a.c_str()); }
inline void regInternal(Jump &I, Fields &fl, MAPS, Array<int> *m, const std::string &st, const char *a)
{
   reg<FaceG<true>, FaceTS<true>>(I.p, fl, rs, rss, st, a, [&](ParNonlinearForm &n, FaceG<true> *g) { if (m) { n.AddInternalBoundaryFaceIntegrator(g, *m); } else { n.AddInternalBoundaryFaceIntegrator(g); } },
                   [&](ParLinearForm &l, FaceTS<true> *t) { if (m) { l.AddInternalBoundaryFaceIntegrator(t, *m); } else { l.AddInternalBoundaryFaceIntegrator(t); } });
}
inline void addInternalBoundarySensitivityIntegrator(Jump &I, Fields &fl, MAPS, FWD, Array<int> *m, std::string a) { regInternal(I, fl, rs, rss, m, "state", a.c_str()); }
inline void addInternalBoundarySensitivityIntegrator(Jump &I, Fields &fl, MAPS, Array<int> *m, std::string st) { regInternal(I, fl, rs, rss, m, st, nullptr); }
inline void addDomainSensitivityIntegrator(Dom &I, Fields &fl, MAPS, Array<int> *m, std::string st) { regDom(I, fl, rs, rss, m, st, nullptr); }
inline void addBdrSensitivityIntegrator(Bdr &I, Fields &fl, MAPS, Array<int> *m, std::string st) { regBdr(I, fl, rs, rss, m, st, nullptr); }
inline void addInteriorFaceSensitivityIntegrator(Jump &I, Fields &fl, MAPS, std::string st) { regJump(I, fl, rs, rss, st, nullptr); }
#define SETTERS(T) inline void setInputs(T &I, const MISOInputs &in) { miso::setValueFromInputs(in, I.p.key, I.p.gain); } \
                   inline void setOptions(T &I, const json &o) { if (o.contains("scale")) { I.p.scale = o["scale"].get<double>(); } }
SETTERS(Dom) SETTERS(Bdr) SETTERS(Jump)

// ---- loads: kappa (1 + x) v ----------------------------------------------------
inline double xfun(ElementTransformation &T) { double d[3] = {0, 0, 0}; Vector x(d, 3); T.Transform(T.GetIntPoint(), x); return 1 + x(0); }
struct LDom : LinearFormIntegrator
{
   Par p;
   void AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &T, Vector &y) override
   { y.SetSize(el.GetDof()); y = 0.0; visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { y.Add(w * p.kappa(tr) * xfun(tr), s); }); }
};
/// boundary elements (AddBoundaryIntegrator) and boundary faces alike
struct LBdr : LDom { };
struct LFace : LinearFormIntegrator
{
   Par p;
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &) override { abort(); }
   void AssembleRHSElementVect(const FiniteElement &el, FaceElementTransformations &T, Vector &y) override
   { y.SetSize(el.GetDof()); y = 0.0; visit(el, nullptr, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { y.Add(w * p.kappa(tr) * xfun(tr), s); }); }
};
SETTERS(LDom) SETTERS(LFace)
inline void setInputs(LBdr &I, const MISOInputs &in) { setInputs(static_cast<LDom &>(I), in); }
inline void setOptions(LBdr &I, const json &o) { setOptions(static_cast<LDom &>(I), o); }
struct LDep { const Par &p; GridFunction &adj; Vector psi; void load(int e) { localVec(adj, e, psi); } };
struct LDomG : NonlinearFormIntegrator
{
   LDep d; LDomG(const Par &p, GridFunction &a) : d{p, a} { }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &) override
   { d.load(T.ElementNo); double e = 0; visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { e += w * d.p.scale * xfun(tr) * (s * d.psi); }); return e; }
};
struct LFaceG : NonlinearFormIntegrator
{
   LDep d; LFaceG(const Par &p, GridFunction &a) : d{p, a} { }
   double GetFaceEnergy(const FiniteElement &e1, const FiniteElement &, FaceElementTransformations &T, const Vector &)
   { d.load(T.Elem1No); double e = 0; visit(e1, nullptr, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { e += w * d.p.scale * xfun(tr) * (s * d.psi); }); return e; }
};
struct LDomT : LinearFormIntegrator
{
   LDep d; LDomT(const Par &p, GridFunction &a) : d{p, a} { }
   void AssembleRHSElementVect(const FiniteElement &tel, ElementTransformation &T, Vector &y) override
   { d.load(T.ElementNo); auto &el = *d.adj.FESpace()->GetFE(T.ElementNo); y.SetSize(tel.GetDof()); y = 0.0; Vector t(tel.GetDof());
     visit(el, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { tel.CalcShape(tr.GetIntPoint(), t); y.Add(w * xfun(tr) * (s * d.psi), t); }); }
};
struct LFaceTS : LinearFormIntegrator
{
   LDep d; LFaceTS(const Par &p, GridFunction &a) : d{p, a} { }
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &) override { abort(); }
   void AssembleRHSElementVect(const FiniteElement &t1, FaceElementTransformations &T, Vector &y) override
   { d.load(T.Elem1No); auto &el = *d.adj.FESpace()->GetFE(T.Elem1No); y.SetSize(t1.GetDof()); y = 0.0; Vector t(t1.GetDof());
     visit(el, nullptr, T, [&](double w, const Vector &s, const Vector &, ElementTransformation &tr) { t1.CalcShape(tr.GetIntPoint(), t); y.Add(w * xfun(tr) * (s * d.psi), t); }); }
};
inline void addDomainSensitivityIntegrator(LDom &I, Fields &fl, MAPS, FWD, Array<int> *m, std::string a)
{
   auto &adj = fl.at(a).gridFunc(); rss.emplace(I.p.key, &fl.at(a).space()); rs.emplace("temp", &fl.at("temp").space());
   if (m) { rss.at(I.p.key).AddDomainIntegrator(new LDomG(I.p, adj), *m); rs.at("temp").AddDomainIntegrator(new LDomT(I.p, adj), *m); }
   else { rss.at(I.p.key).AddDomainIntegrator(new LDomG(I.p, adj)); rs.at("temp").AddDomainIntegrator(new LDomT(I.p, adj)); }
}
inline void regLF(const Par &p, Fields &fl, MAPS, Array<int> *m, const std::string &a)
{
   auto &adj = fl.at(a).gridFunc(); rss.emplace(p.key, &fl.at(a).space()); rs.emplace("temp", &fl.at("temp").space());
   if (m) { rss.at(p.key).AddBdrFaceIntegrator(new LFaceG(p, adj), *m); rs.at("temp").AddBdrFaceIntegrator(new LFaceTS(p, adj), *m); }
   else { rss.at(p.key).AddBdrFaceIntegrator(new LFaceG(p, adj)); rs.at("temp").AddBdrFaceIntegrator(new LFaceTS(p, adj)); }
}
inline void addBdrSensitivityIntegrator(LBdr &I, Fields &fl, MAPS, FWD, Array<int> *m, std::string a) { regLF(I.p, fl, rs, rss, m, a); }
inline void addBdrSensitivityIntegrator(LFace &I, Fields &fl, MAPS, FWD, Array<int> *m, std::string a) { regLF(I.p, fl, rs, rss, m, a); }
}  // namespace ft
using namespace ft;

static Vector rvec(Rng &g, int n, double a = -1, double b = 1) { Vector v(n); for (int i = 0; i < n; ++i) { v(i) = g.uni(a, b); } return v; }
/// a mesh with random element and boundary attributes, and sometimes boundary
/// elements on interior faces
struct Base
{
   std::unique_ptr<Mesh> sm; std::unique_ptr<ParMesh> mesh; int na, nb; Fields fields; bool l2, internal = false;
   ParFiniteElementSpace *fes = nullptr; std::string sname;
   Base(Case &c, const std::string &state_name = "state", bool want_internal = false) : sname(state_name)
   {
      auto &g = c.rng; int dim = c.in("dim", g.coin(0.7) ? 2 : 3), shape = c.in("shape", g.irand(0, 1));
      if (shape == 0 || dim == 3) { sm = vmesh::random_mesh(c, dim, dim == 2 ? 3 : 1); }
      else { sm.reset(new Mesh(Mesh::MakeCartesian2D(g.irand(1, 3), g.irand(1, 3), Element::QUADRILATERAL, true, g.uni(0.5, 2), g.uni(0.5, 2), false))); }
      na = g.irand(1, 4); nb = g.irand(1, 5);
      if (want_internal && dim == 2)
      {  // rebuild with some interior edges as boundary elements of their own attribute
         std::set<int> bnd; for (int b = 0; b < sm->GetNBE(); ++b) { bnd.insert(sm->GetBdrElementEdgeIndex(b)); }
         std::vector<Array<int>> in; for (int e = 0; e < sm->GetNEdges(); ++e) { if (!bnd.count(e) && g.coin(0.6)) { Array<int> v; sm->GetEdgeVertices(e, v); in.push_back(v); } }
         std::unique_ptr<Mesh> m(new Mesh(2, sm->GetNV(), sm->GetNE(), sm->GetNBE() + int(in.size()), 2));
         for (int i = 0; i < sm->GetNV(); ++i) { m->AddVertex(sm->GetVertex(i)); }
         for (int i = 0; i < sm->GetNE(); ++i) { Array<int> v; sm->GetElementVertices(i, v); if (v.Size() == 3) { m->AddTriangle(v.GetData(), 1); } else { m->AddQuad(v.GetData(), 1); } }
         for (int b = 0; b < sm->GetNBE(); ++b) { Array<int> v; sm->GetBdrElementVertices(b, v); m->AddBdrSegment(v.GetData(), 1); }
         for (auto &v : in) { m->AddBdrSegment(v.GetData(), 1); }
         m->FinalizeTopology(); m->Finalize(false, false); sm = std::move(m); internal = !in.empty();
      }
      for (int e = 0; e < sm->GetNE(); ++e) { sm->SetAttribute(e, g.irand(1, na)); }
      for (int b = 0; b < sm->GetNBE(); ++b) { sm->GetBdrElement(b)->SetAttribute(g.irand(1, nb)); }
      sm->SetAttributes(); mesh.reset(new ParMesh(MPI_COMM_WORLD, *sm)); na = mesh->attributes.Max(); nb = mesh->bdr_attributes.Max();
      c.in("na", na); c.in("nb", nb);
      int p = c.in("order", g.irand(1, dim == 2 ? 3 : 2)); l2 = c.in("l2", g.coin(0.4));
      FiniteElementState::Options so; so.order = p; so.name = sname; if (l2) { so.coll.reset(new L2_FECollection(p, dim)); }
      FiniteElementState::Options to; to.order = g.irand(1, 2); to.name = "temp";
      fields.emplace(std::piecewise_construct, std::forward_as_tuple(sname), std::forward_as_tuple(*mesh, std::move(so)));
      fields.emplace(std::piecewise_construct, std::forward_as_tuple("temp"), std::forward_as_tuple(*mesh, std::move(to)));
      fes = &fields.at(sname).space();
   }
   std::vector<int> marks(Rng &g, int n) { std::vector<int> r; for (int i = 1; i <= n; ++i) { if (g.coin()) { r.push_back(i); } } if (r.empty()) { r.push_back(g.irand(1, n)); } if (g.coin(0.2)) { r.push_back(r[0]); } return r; }
};
static bool on(const std::vector<int> &m, int a) { return m.empty() || std::find(m.begin(), m.end(), a) != m.end(); }
/// one term of the reference: 'v' elements, 'b' boundary faces, 'f' interior
/// faces, 'i' interior faces that carry a boundary element
struct Term { char where; NonlinearFormIntegrator *I; Par *p; std::vector<int> marks; LinearFormIntegrator *L = nullptr; };
struct Ref
{
   Base &B; std::vector<Term> terms;
   explicit Ref(Base &b) : B(b) { }
   /// calls fn(term, element-or-face data)
   template <class FE, class FF> void each(FE &&fe, FF &&ff)
   {
      auto &m = *B.mesh;
      for (auto &t : terms)
      {
         if (t.where == 'v') { for (int e = 0; e < m.GetNE(); ++e) { if (on(t.marks, m.GetAttribute(e))) { fe(t, e); } } }
         else if (t.where == 'b') { for (int b = 0; b < m.GetNBE(); ++b) { if (!on(t.marks, m.GetBdrAttribute(b))) { continue; } auto *T = m.GetBdrFaceTransformations(b); if (T) { ff(t, *T); } } }
         else if (t.where == 'f') { for (int i = 0; i < m.GetNumFaces(); ++i) { auto *T = m.GetInteriorFaceTransformations(i); if (T) { ff(t, *T); } } }
         else { for (int b = 0; b < m.GetNBE(); ++b) { if (!on(t.marks, m.GetBdrAttribute(b))) { continue; } auto *T = m.GetInteriorFaceTransformations(m.GetBdrElementEdgeIndex(b)); if (T) { ff(t, *T); } } }
      }
   }
   Vector residual(const Vector &u)
   {
      auto &fes = *B.fes; Vector r(fes.GetVSize()), lu(fes.GetVSize()); r = 0.0; fes.GetProlongationMatrix()->Mult(u, lu);
      each([&](Term &t, int e) { Array<int> vd; fes.GetElementVDofs(e, vd); Vector x, y; lu.GetSubVector(vd, x); t.I->AssembleElementVector(*fes.GetFE(e), *fes.GetElementTransformation(e), x, y); r.AddElementVector(vd, y); },
           [&](Term &t, FaceElementTransformations &T) { Array<int> vd, v2; fes.GetElementVDofs(T.Elem1No, vd); bool two = t.where != 'b'; if (two) { fes.GetElementVDofs(T.Elem2No, v2); vd.Append(v2); }
              Vector x, y; lu.GetSubVector(vd, x); t.I->AssembleFaceVector(*fes.GetFE(T.Elem1No), *fes.GetFE(two ? T.Elem2No : T.Elem1No), T, x, y); r.AddElementVector(vd, y); });
      Vector tv(fes.GetTrueVSize()); fes.GetProlongationMatrix()->MultTranspose(r, tv); return tv;
   }
   double energy(const Vector &u)
   {
      auto &fes = *B.fes; Vector lu(fes.GetVSize()); fes.GetProlongationMatrix()->Mult(u, lu); double E = 0;
      each([&](Term &t, int e) { Array<int> vd; fes.GetElementVDofs(e, vd); Vector x; lu.GetSubVector(vd, x); E += t.I->GetElementEnergy(*fes.GetFE(e), *fes.GetElementTransformation(e), x); },
           [&](Term &t, FaceElementTransformations &T) { Array<int> vd, v2; fes.GetElementVDofs(T.Elem1No, vd); bool two = t.where != 'b'; if (two) { fes.GetElementVDofs(T.Elem2No, v2); vd.Append(v2); }
              Vector x; lu.GetSubVector(vd, x); auto &e1 = *fes.GetFE(T.Elem1No); auto &e2 = *fes.GetFE(two ? T.Elem2No : T.Elem1No);
              E += two ? static_cast<Jump *>(t.I)->GetFaceEnergy(e1, e2, T, x) : static_cast<Bdr *>(t.I)->GetFaceEnergy(e1, e2, T, x); });
      return E;
   }
};
/// private copies of the integrators, so that the reference never shares state
/// with the form under test
template <class T> static T *mk(Fields &f, const std::string &key) { auto *I = new T; I->p.key = key; I->p.temp = &f.at("temp").gridFunc(); return I; }
struct Owner { std::vector<std::unique_ptr<NonlinearFormIntegrator>> n; std::vector<std::unique_ptr<LinearFormIntegrator>> l; };

/// the derivative of a cubic vector function along d, exactly (5 points)
template <class F> static Vector dirder(F &&R, const Vector &u, const Vector &d)
{
   auto at = [&](double s) { Vector x(u); x.Add(s, d); return R(x); };
   Vector a = at(1), b = at(-1), e = at(2), h = at(-2), r(a.Size());
   for (int i = 0; i < a.Size(); ++i) { r(i) = (8 * (a(i) - b(i)) - (e(i) - h(i))) / 12; } return r;
}
struct DenseSolver : Solver
{
   DenseMatrix A; DenseMatrixInverse inv;
   void SetOperator(const Operator &op) override
   { height = width = op.Height(); A.SetSize(height); Vector e(height), y(height); for (int i = 0; i < height; ++i) { e = 0.0; e(i) = 1; op.Mult(e, y); for (int k = 0; k < height; ++k) { A(k, i) = y(k); } } inv.Factor(A); }
   void Mult(const Vector &x, Vector &y) const override { inv.Mult(x, y); }
};
static double norm(const Vector &v) { double s = 0; for (int i = 0; i < v.Size(); ++i) { s = std::max(s, std::fabs(v(i))); } return s; }
static void same(Case &c, const Vector &a, const Vector &b, double tol, const std::string &o, const std::string &m = "")
{
   if (!c.check(a.Size() == b.Size(), o, m + " size")) { return; }
   double s = 1 + std::max(norm(b), 0.0), w = 0; int at = 0; for (int i = 0; i < a.Size(); ++i) { double e = std::fabs(a(i) - b(i)); if (!(e <= w)) { w = e; at = i; } }
   c.near(a.Size() ? a(at) : 0, a.Size() ? b(at) : 0, tol * s, o, m + " entry " + std::to_string(at));
}

struct Form
{
   Base B; Owner own; Ref ref; std::string adjn; double scale = 1, g[3]; Vector state, temp; json opt; Array<int> ess; Vector bc; bool hasbc = false, positive;
   std::unique_ptr<miso::MISONonlinearForm> form; std::unique_ptr<miso::MISOResidual> res;
   Form(Case &c, bool pos = false) : B(c, "state", c.rng.coin(0.3)), ref(B), positive(pos)
   {
      auto &r = c.rng; adjn = r.coin() ? "adjoint" : "psi";
      if (r.coin(0.6)) { hasbc = c.in("dirichlet-field", true); B.fields.emplace(std::piecewise_construct, std::forward_as_tuple("dirichlet_bc"), std::forward_as_tuple(*B.mesh, *B.fes, "dirichlet_bc")); bc = rvec(r, B.fes->GetTrueVSize()); B.fields.at("dirichlet_bc").distributeSharedDofs(bc); }
      form.reset(new miso::MISONonlinearForm(*B.fes, B.fields, adjn));
      int n = r.irand(1, 4), nin = 0;
      for (int k = 0; k < n || (positive && !nin); ++k)
      {
         int kind = r.irand(0, B.l2 ? 3 : 2); std::string key = "gain" + std::to_string(r.irand(0, 2)); bool marked = r.coin(0.7);
         if (positive && k == 0) { kind = 0; marked = false; nin = 1; }
         if (kind <= 1 && (kind == 0 || !B.l2 || !B.internal)) { auto m = marked ? B.marks(r, B.na) : std::vector<int>{}; auto *I = mk<Dom>(B.fields, key), *J = mk<Dom>(B.fields, key); if (marked) { form->addDomainIntegrator(I, m); c.count("marked-domain-terms"); } else { form->addDomainIntegrator(I); } own.n.emplace_back(J); ref.terms.push_back({'v', J, &J->p, m}); c.desc << "dom(" << m.size() << ") "; }
         else if (kind == 2) { auto m = marked ? B.marks(r, B.nb) : std::vector<int>{}; auto *I = mk<Bdr>(B.fields, key), *J = mk<Bdr>(B.fields, key); if (marked) { form->addBdrFaceIntegrator(I, m); c.count("marked-boundary-terms"); } else { form->addBdrFaceIntegrator(I); } own.n.emplace_back(J); ref.terms.push_back({'b', J, &J->p, m}); c.desc << "bdr(" << m.size() << ") "; }
         else if (kind == 3) { auto *I = mk<Jump>(B.fields, key), *J = mk<Jump>(B.fields, key); form->addInteriorFaceIntegrator(I); own.n.emplace_back(J); ref.terms.push_back({'f', J, &J->p, {}}); c.desc << "jump "; c.count("jump-terms"); }
         else { auto m = marked ? B.marks(r, B.nb) : std::vector<int>{}; auto *I = mk<Jump>(B.fields, key), *J = mk<Jump>(B.fields, key); if (marked) { form->addInternalBoundaryFaceIntegrator(I, m); } else { form->addInternalBoundaryFaceIntegrator(I); } own.n.emplace_back(J); ref.terms.push_back({'i', J, &J->p, m}); c.desc << "internal(" << m.size() << ") "; c.count("internal-boundary-terms"); }
      }
      if (r.coin(0.6)) { opt["scale"] = scale = r.uni(0.3, 2); }
      if (!B.l2 && r.coin(0.75)) { auto m = B.marks(r, B.nb); opt["bcs"]["essential"] = m; Array<int> mk(B.nb); mk = 0; for (int a : m) { mk[a - 1] = 1; } B.fes->GetEssentialTrueDofs(mk, ess); }
      c.in("essential", ess.Size()); fresh(r);
      if (r.coin(0.5)) { res.reset(new miso::MISOResidual(std::move(*form))); c.count("type-erased"); }
   }
   void fresh(Rng &r) { for (auto &x : g) { x = positive ? r.uni(0.1, 1) : r.uni(-2, 2); } state = rvec(r, B.fes->GetTrueVSize()); temp = rvec(r, B.fields.at("temp").space().GetTrueVSize(), positive ? 0.1 : -1, 1); }
   MISOInputs inputs() { return {{"state", state}, {"temp", temp}, {"gain0", g[0]}, {"gain1", g[1]}, {"gain2", g[2]}, {"irrelevant", 17.0}}; }
   /// bring the private integrators (and the shared field) to (temp, g)
   void apply() { for (auto &t : ref.terms) { t.p->scale = scale; t.p->gain = g[t.p->key.back() - '0']; } B.fields.at("temp").distributeSharedDofs(temp); }
   Vector expect(const Vector &u) { apply(); Vector r = ref.residual(u); for (int i = 0; i < ess.Size(); ++i) { r(ess[i]) = hasbc ? u(ess[i]) - bc(ess[i]) : 0.0; } return r; }
   Vector freed(const Vector &v) { Vector r(v); r.SetSubVector(ess, 0.0); return r; }
   template <class F> auto on(F &&f) { return res ? f(*res) : f(*form); }
};

static void residual(Case &c)
{
   Quiet q; Form F(c); auto &r = c.rng;
   F.on([&](auto &R) {
      setOptions(R, F.opt); c.check(getSize(R) == F.B.fes->GetTrueVSize(), "size");
      for (int round = 0, n = r.irand(1, 3); round < n; ++round)
      {
         if (round) { F.fresh(r); }
         MISOInputs in = F.inputs(); Vector s0(F.state), res(F.state.Size()); res = NAN;
         if (round && r.coin(0.3)) { double keep = F.g[1]; in.erase("gain1"); F.g[1] = keep; /* keep the earlier value */ setInputs(R, {{"gain1", keep}}); }
         setInputs(R, in); Vector t; F.B.fields.at("temp").setTrueVec(t); same(c, t, F.temp, 0, "fields-take-their-inputs"); F.B.fields.at("state").setTrueVec(t); same(c, t, F.state, 0, "fields-take-their-inputs");
         evaluate(R, in, res); Vector ex = F.expect(F.state); same(c, res, ex, 1e-11, "residual-is-the-sum-of-its-terms"); same(c, F.state, s0, 0, "state-unchanged");
         if (F.ess.Size()) { c.count("essential-dofs", F.ess.Size()); }
         // Jacobian
         auto &J = getJacobian(R, in, "state"); Vector d = rvec(r, res.Size()), Jd(res.Size()), psi = rvec(r, res.Size()), Jtp(res.Size());
         Vector df = F.freed(d), fd = dirder([&](const Vector &u) { return F.expect(u); }, F.state, df), want = F.freed(fd); for (int i = 0; i < F.ess.Size(); ++i) { want(F.ess[i]) = d(F.ess[i]); }
         J.Mult(d, Jd); same(c, Jd, want, 1e-10, "jacobian-is-the-derivative");
         auto &JT = getJacobianTranspose(R, in, "state"); JT.Mult(psi, Jtp); double sc = 1 + Jd.Norml2() * psi.Norml2(); c.near(Jtp * d, psi * Jd, 1e-12 * sc, "transpose-is-the-transpose");
         c.count("residuals"); if (round) { c.count("re-evaluations"); }
      }
      if constexpr (std::is_same_v<std::decay_t<decltype(R)>, miso::MISONonlinearForm>)
      { F.state = rvec(r, F.state.Size()); F.g[0] += r.uni(0.1, 1); F.g[1] -= r.uni(0.1, 1); F.g[2] *= 1.5; /* values the form has not been given before */ auto in = F.inputs(); F.B.fields.at("temp").distributeSharedDofs(F.temp); double e = calcFormOutput(R, in); F.apply(); c.rel(e, F.ref.energy(F.state), 1e-11, 1e-11, "form-output-is-the-energy"); c.count("energies"); }
      return 0; });
}
static void products(Case &c)
{
   Quiet q; Form F(c); auto &r = c.rng;
   F.on([&](auto &R) {
      setOptions(R, F.opt); int N = F.state.Size();
      for (int round = 0, n = r.irand(1, 3); round < n; ++round)
      {
         if (round) { F.fresh(r); }
         MISOInputs in = F.inputs(); linearize(R, in);
         Vector d = rvec(r, N), psi = rvec(r, N), out0 = rvec(r, N), out(out0), bar0 = rvec(r, N), bar(bar0), psi0(psi), d0(d);
         Vector dR = dirder([&](const Vector &u) { return F.expect(u); }, F.state, d); double sc = 1 + dR.Norml2() * psi.Norml2(); if (F.hasbc && F.ess.Size()) { c.count("products-with-essential-values"); }
         jacobianVectorProduct(R, d, "state", out); out -= out0; same(c, out, dR, 1e-10, "product-is-the-derivative");
         vectorJacobianProduct(R, psi, "state", bar); c.near(bar * d - bar0 * d, psi * dR, 1e-11 * sc, "transposed-product-is-the-adjoint");
         // a field
         { int T = F.temp.Size(); Vector b0 = rvec(r, T), b(b0), dt = rvec(r, T); vectorJacobianProduct(R, psi, "temp", b);
           Vector t0(F.temp), r0 = F.expect(F.state); F.temp += dt; Vector r1 = F.expect(F.state); F.temp = t0; F.apply(); r1 -= r0; c.near(b * dt - b0 * dt, F.freed(psi) * r1, 1e-10 * (1 + r1.Norml2() * psi.Norml2()), "field-product-is-the-derivative"); }
         // a scalar
         for (int k = 0; k < 3; ++k)
         { std::string key = "gain" + std::to_string(k); double b = vectorJacobianProduct(R, psi, key), g0 = F.g[k]; Vector r0 = F.expect(F.state); F.g[k] += 1; Vector r1 = F.expect(F.state); F.g[k] = g0; F.apply(); r1 -= r0;
           c.near(b, F.freed(psi) * r1, 1e-10 * (1 + r1.Norml2() * psi.Norml2()), "scalar-product-is-the-derivative"); if (F.ess.Size() && r1.Norml2() > 0) { c.count("scalar-products-with-essential-dofs"); } }
         { Vector b0 = rvec(r, 5), b(b0), o(out0); vectorJacobianProduct(R, psi, "unknown", b); jacobianVectorProduct(R, b0, "unknown", o); same(c, b, b0, 0, "unknown-input-has-no-effect"); same(c, o, out0, 0, "unknown-input-has-no-effect"); c.check(vectorJacobianProduct(R, psi, "unknown") == 0 && jacobianVectorProduct(R, b0, "unknown") == 0, "unknown-input-has-no-effect"); }
         same(c, psi, psi0, 0, "arguments-unchanged"); same(c, d, d0, 0, "arguments-unchanged"); c.count("products"); if (round) { c.count("relinearizations"); }
      }
      return 0; });
}
static void adjoint(Case &c)
{
   Quiet q; Form F(c, true); auto &r = c.rng;
   F.on([&](auto &R) {
      setOptions(R, F.opt); int N = F.state.Size(); DenseSolver S;
      for (int round = 0, n = r.irand(1, 2); round < n; ++round)
      {
         if (round) { F.fresh(r); }
         MISOInputs in = F.inputs(); linearize(R, in); Vector sb = rvec(r, N), sb0(sb), adj = rvec(r, N);
         setUpAdjointSystem(R, S, in, sb, adj); S.Mult(sb, adj); finalizeAdjointSystem(R, S, in, sb, adj);
         Vector pf = F.freed(adj);
         for (int k = 0; k < 3; ++k)
         {
            Vector d = rvec(r, N), dR = F.freed(dirder([&](const Vector &u) { return F.expect(u); }, F.state, d)); double lhs = pf * dR; for (int i = 0; i < F.ess.Size(); ++i) { lhs += adj(F.ess[i]) * d(F.ess[i]); }
            c.near(lhs, sb0 * d, 1e-8 * (1 + pf.Norml2() * dR.Norml2()), "adjoint-solves-the-transposed-system");
         }
         c.count("adjoints"); if (F.ess.Size()) { c.count("adjoints-with-essential-dofs"); }
      }
      return 0; });
}
static void load(Case &c)
{
   Quiet q; Base B(c); auto &r = c.rng; Owner own; struct LT { char where; LinearFormIntegrator *I; Par *p; std::vector<int> marks; }; std::vector<LT> terms;
   std::string adjn = r.coin() ? "adjoint" : "psi"; auto &fes = *B.fes; int N = fes.GetTrueVSize();
   miso::MISOLinearForm lf(fes, B.fields, adjn); double g[3], scale = 1; Vector temp, state = rvec(r, N); Array<int> ess; json opt;
   for (int k = 0, n = r.irand(1, 4); k < n; ++k)
   {
      std::string key = "gain" + std::to_string(r.irand(0, 2)); bool marked = r.coin(0.7); int kind = r.irand(0, B.l2 ? 1 : 2); auto m = marked ? B.marks(r, kind ? B.nb : B.na) : std::vector<int>{}; c.desc << "load" << kind << "(" << m.size() << ") ";
      if (kind == 0) { auto *I = mk<LDom>(B.fields, key), *J = mk<LDom>(B.fields, key); if (marked) { lf.addDomainIntegrator(I, m); } else { lf.addDomainIntegrator(I); } own.l.emplace_back(J); terms.push_back({'v', J, &J->p, m}); }
      if (kind == 1) { auto *I = mk<LFace>(B.fields, key), *J = mk<LFace>(B.fields, key); if (marked) { lf.addBdrFaceIntegrator(I, m); } else { lf.addBdrFaceIntegrator(I); } own.l.emplace_back(J); terms.push_back({'b', J, &J->p, m}); }
      if (kind == 2) { auto *I = mk<LBdr>(B.fields, key); auto *J = mk<LFace>(B.fields, key); if (marked) { lf.addBoundaryIntegrator(I, m); } else { lf.addBoundaryIntegrator(I); } own.l.emplace_back(J); terms.push_back({'b', J, &J->p, m}); }
   }
   if (r.coin(0.6)) { opt["scale"] = scale = r.uni(0.3, 2); }
   if (!B.l2 && r.coin(0.75)) { auto m = B.marks(r, B.nb); opt["bcs"]["essential"] = m; Array<int> mk(B.nb); mk = 0; for (int a : m) { mk[a - 1] = 1; } fes.GetEssentialTrueDofs(mk, ess); }
   c.in("essential", ess.Size());
   auto fresh = [&] { for (auto &x : g) { x = r.uni(-2, 2); } temp = rvec(r, B.fields.at("temp").space().GetTrueVSize()); };
   auto freed = [&](const Vector &v) { Vector x(v); x.SetSubVector(ess, 0.0); return x; };
   auto expect = [&] {
      for (auto &t : terms) { t.p->scale = scale; t.p->gain = g[t.p->key.back() - '0']; } B.fields.at("temp").distributeSharedDofs(temp);
      Vector v(fes.GetVSize()), y, tv(N); v = 0.0; Array<int> vd; auto &m = *B.mesh;
      for (auto &t : terms)
      {
         if (t.where == 'v') { for (int e = 0; e < m.GetNE(); ++e) { if (on(t.marks, m.GetAttribute(e))) { fes.GetElementVDofs(e, vd); t.I->AssembleRHSElementVect(*fes.GetFE(e), *fes.GetElementTransformation(e), y); v.AddElementVector(vd, y); } } }
         else { for (int b = 0; b < m.GetNBE(); ++b) { auto *T = m.GetBdrFaceTransformations(b); if (T && on(t.marks, m.GetBdrAttribute(b))) { fes.GetElementVDofs(T->Elem1No, vd); t.I->AssembleRHSElementVect(*fes.GetFE(T->Elem1No), *T, y); v.AddElementVector(vd, y); } } }
      }
      fes.GetProlongationMatrix()->MultTranspose(v, tv); return freed(tv); };
   auto body = [&](auto &L) {
      setOptions(L, opt);
      for (int round = 0, n = r.irand(1, 3); round < n; ++round)
      {
         fresh(); MISOInputs in{{"temp", temp}, {"state", state}, {"gain0", g[0]}, {"gain1", g[1]}, {"gain2", g[2]}}; setInputs(L, in);
         Vector t0 = rvec(r, N), t(t0), ex = expect(); addLoad(L, t); t -= t0; same(c, t, ex, 1e-11, "load-is-added-without-essential-rows");
         Vector psi = rvec(r, N), psi0(psi);
         { int T = temp.Size(); Vector b0 = rvec(r, T), b(b0), dt = rvec(r, T), k(temp); vectorJacobianProduct(L, psi, "temp", b); temp += dt; Vector r1 = expect(); temp = k; expect(); r1 -= ex; c.near(b * dt - b0 * dt, psi * r1, 1e-10 * (1 + r1.Norml2() * psi.Norml2()), "field-product-is-the-derivative"); }
         for (int k = 0; k < 3; ++k) { double b = vectorJacobianProduct(L, psi, "gain" + std::to_string(k)); g[k] += 1; Vector r1 = expect(); g[k] -= 1; expect(); r1 -= ex; c.near(b, psi * r1, 1e-10 * (1 + r1.Norml2() * psi.Norml2()), "scalar-product-is-the-derivative"); }
         { Vector b0 = rvec(r, 4), b(b0); vectorJacobianProduct(L, psi, "unknown", b); same(c, b, b0, 0, "unknown-input-has-no-effect"); c.check(vectorJacobianProduct(L, psi, "unknown") == 0, "unknown-input-has-no-effect"); }
         same(c, psi, psi0, 0, "arguments-unchanged"); c.count("loads"); if (ess.Size()) { c.count("loads-with-essential-dofs"); }
      } };
   if (r.coin()) { miso::MISOLoad L(std::move(lf)); body(L); } else { c.check(getSize(lf) == N, "size"); body(lf); }
}
static void output(Case &c)
{
   auto &r = c.rng; Quiet q; std::string sn = r.coin(0.6) ? "state" : "other"; Base B(c, sn, r.coin(0.3)); Ref ref(B); Owner own; auto &fes = *B.fes; int N = fes.GetTrueVSize(); c.in("state-name", sn);
   miso::FunctionalOutput fo(fes, B.fields, sn); double g[3], scale = 1; Vector state, temp; json opt; std::vector<int> attrs;
   for (int k = 0, n = r.irand(1, 4); k < n; ++k)
   {
      std::string key = "gain" + std::to_string(r.irand(0, 2)); bool marked = r.coin(0.7); int kind = r.irand(0, 3); if (kind == 3 && !B.internal) { kind = 2; }
      auto m = marked ? B.marks(r, kind ? B.nb : B.na) : std::vector<int>{}; c.desc << "term" << kind << "(" << m.size() << ") ";
      if (kind == 0) { auto *I = mk<Dom>(B.fields, key), *J = mk<Dom>(B.fields, key); if (marked) { fo.addOutputDomainIntegrator(I, m); } else { fo.addOutputDomainIntegrator(I); } own.n.emplace_back(J); ref.terms.push_back({'v', J, &J->p, m}); }
      else if (kind == 1) { auto *I = mk<Bdr>(B.fields, key), *J = mk<Bdr>(B.fields, key); if (marked) { fo.addOutputBdrFaceIntegrator(I, m); } else { fo.addOutputBdrFaceIntegrator(I); } own.n.emplace_back(J); ref.terms.push_back({'b', J, &J->p, m}); }
      else if (kind == 2) { auto *I = mk<Jump>(B.fields, key), *J = mk<Jump>(B.fields, key); fo.addOutputInteriorFaceIntegrator(I); own.n.emplace_back(J); ref.terms.push_back({'f', J, &J->p, {}}); }
      else { auto *I = mk<Jump>(B.fields, key), *J = mk<Jump>(B.fields, key); if (marked) { fo.addInternalBoundaryFaceIntegrator(I, m); } else { fo.addInternalBoundaryFaceIntegrator(I); } own.n.emplace_back(J); ref.terms.push_back({'i', J, &J->p, m}); }
   }
   if (r.coin(0.6)) { opt["scale"] = scale = r.uni(0.3, 2); }
   if (r.coin(0.4)) { attrs = B.marks(r, std::min(B.na, B.nb)); opt["attributes"] = attrs; for (auto &t : ref.terms) { if (!t.marks.empty()) { t.marks = attrs; } } c.count("re-marked"); }
   auto expect = [&](const Vector &u) { for (auto &t : ref.terms) { t.p->scale = scale; t.p->gain = g[t.p->key.back() - '0']; } B.fields.at("temp").distributeSharedDofs(temp); return ref.energy(u); };
   auto body = [&](auto &O) {
      setOptions(O, opt); c.check(getSize(O) == 1, "size");
      for (int round = 0, n = r.irand(1, 3); round < n; ++round)
      {
         for (auto &x : g) { x = r.uni(-2, 2); } state = rvec(r, N); temp = rvec(r, B.fields.at("temp").space().GetTrueVSize()); Vector s0(state);
         MISOInputs in{{sn, state}, {"temp", temp}, {"gain0", g[0]}, {"gain1", g[1]}, {"gain2", g[2]}};
         double v = calcOutput(O, in), ex = expect(state); c.rel(v, ex, 1e-11, 1e-11, "output-is-the-sum-of-its-terms");
         // partial derivatives, then products, all at the inputs given
         if (!B.l2 || true)
         {
            Vector P(N), d = rvec(r, N); P = NAN; calcOutputPartial(O, sn, in, P); auto at = [&](double s) { Vector x(state); x.Add(s, d); return expect(x); };
            double fd = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / 12, sc = 1 + std::fabs(fd) + P.Norml2() * d.Norml2(); expect(state); c.near(P * d, fd, 1e-10 * sc, "partial-wrt-the-state");
            double jv = jacobianVectorProduct(O, d, sn); c.near(jv, fd, 1e-10 * sc, "product-wrt-the-state");
            Vector w(1), b0 = rvec(r, N), b(b0); w(0) = r.uni(-2, 2); vectorJacobianProduct(O, w, sn, b); b -= b0; Vector wp(P); wp *= w(0); same(c, b, wp, 1e-11, "transposed-product-accumulates");
         }
         {
            int T = temp.Size(); Vector P(T), d = rvec(r, T), k(temp); P = NAN; bool has = !ref.terms.empty(); if (has)
            {
               calcOutputPartial(O, "temp", in, P); double e0 = expect(state); temp += d; double e1 = expect(state); temp = k; expect(state); double sc = 1 + std::fabs(e1) + std::fabs(e0) + P.Norml2() * d.Norml2(); c.near(P * d, e1 - e0, 1e-10 * sc, "partial-wrt-a-field");
               if (T > 1) { c.near(jacobianVectorProduct(O, d, "temp"), e1 - e0, 1e-10 * sc, "product-wrt-a-field"); }
               Vector w(1), b0 = rvec(r, T), b(b0); w(0) = r.uni(-2, 2); vectorJacobianProduct(O, w, "temp", b); b -= b0; Vector wp(P); wp *= w(0); same(c, b, wp, 1e-11, "transposed-product-accumulates");
            }
         }
         for (int k = 0; k < 3; ++k)
         {
            std::string key = "gain" + std::to_string(k); bool has = false; for (auto &t : ref.terms) { has = has || t.p->key == key; } if (!has) { continue; }
            double e0 = expect(state); g[k] += 1; double e1 = expect(state); g[k] -= 1; expect(state); Vector w(1); w(0) = r.uni(-2, 2); double sc = 1 + std::fabs(e1) + std::fabs(e0); std::string name = r.coin(0.3) ? key + ":" + std::to_string(r.irand(0, 4)) : key;
            c.near(vectorJacobianProduct(O, w, name), w(0) * (e1 - e0), 1e-10 * sc, "scalar-transposed-product"); c.near(jacobianVectorProduct(O, w, name), w(0) * (e1 - e0), 1e-10 * sc, "scalar-product"); c.count("scalar-output-products");
         }
         same(c, state, s0, 0, "state-unchanged"); c.count("outputs"); if (sn != "state") { c.count("outputs-of-a-named-state"); }
      } };
   if (r.coin()) { miso::MISOOutput O(std::move(fo)); body(O); } else { body(fo); }
}

// ---- type erasure: every call reaches the wrapped object, and only it -----------
namespace rec
{
struct Log { std::vector<std::string> calls; const void *a = nullptr, *b = nullptr, *d = nullptr; double ret = 0; std::string wrt; };
struct Full { Log *L; int n; mfem::IdentityOperator *op; };
struct Bare { Log *L; int n; mfem::IdentityOperator *op; };
#define HIT(name) r.L->calls.push_back(name)
inline int getSize(const Full &r) { return r.n; }
inline int getSize(const Bare &r) { return r.n; }
inline MPI_Comm getMPIComm(const Full &r) { HIT("comm"); return MPI_COMM_SELF; }
inline void setInputs(Full &r, const MISOInputs &i) { HIT("setInputs"); r.L->a = &i; }
inline void setOptions(Full &r, const json &i) { HIT("setOptions"); r.L->a = &i; }
inline void evaluate(Full &r, const MISOInputs &i, Vector &v) { HIT("evaluate"); r.L->a = &i; r.L->b = &v; auto it = i.find("state"); r.L->d = it == i.end() ? nullptr : std::get<miso::InputVector>(it->second).data; }
inline void linearize(Full &r, const MISOInputs &i) { HIT("linearize"); r.L->a = &i; }
inline Operator &getJacobian(Full &r, const MISOInputs &i, const std::string &w) { HIT("jac"); r.L->a = &i; r.L->wrt = w; auto it = i.find("state"); r.L->d = it == i.end() ? nullptr : std::get<miso::InputVector>(it->second).data; return *r.op; }
inline Operator &getJacobianTranspose(Full &r, const MISOInputs &i, const std::string &w) { HIT("jacT"); r.L->a = &i; r.L->wrt = w; return *r.op; }
inline Operator &getJacobianBlock(Full &r, const MISOInputs &i, int b) { HIT("block" + std::to_string(b)); r.L->a = &i; return *r.op; }
inline void setUpAdjointSystem(Full &r, Solver &s, const MISOInputs &i, Vector &a, Vector &b) { HIT("setup"); r.L->a = &a; r.L->b = &b; r.L->d = &s; (void)i; }
inline void finalizeAdjointSystem(Full &r, Solver &s, const MISOInputs &i, Vector &a, Vector &b) { HIT("finalize"); r.L->a = &a; r.L->b = &b; r.L->d = &s; (void)i; }
inline double jacobianVectorProduct(Full &r, const Vector &v, const std::string &w) { HIT("jvp"); r.L->a = &v; r.L->wrt = w; return r.L->ret; }
inline void jacobianVectorProduct(Full &r, const Vector &v, const std::string &w, Vector &o) { HIT("jvpv"); r.L->a = &v; r.L->b = &o; r.L->wrt = w; }
inline double vectorJacobianProduct(Full &r, const Vector &v, const std::string &w) { HIT("vjp"); r.L->a = &v; r.L->wrt = w; return r.L->ret; }
inline void vectorJacobianProduct(Full &r, const Vector &v, const std::string &w, Vector &o) { HIT("vjpv"); r.L->a = &v; r.L->b = &o; r.L->wrt = w; }
inline double calcEntropy(Full &r, const MISOInputs &i) { HIT("entropy"); r.L->a = &i; return r.L->ret; }
inline double calcEntropyChange(Full &r, const MISOInputs &i) { HIT("entropyChange"); r.L->a = &i; return r.L->ret; }
inline double calcSupplyRate(Full &r, const MISOInputs &i) { HIT("supply"); r.L->a = &i; return r.L->ret; }
inline Operator *getMassMatrix(Full &r, const json &o) { HIT("mass"); r.L->a = &o; return r.op; }
inline Solver *getPreconditioner(Full &r) { HIT("prec"); return reinterpret_cast<Solver *>(r.op); }
inline double calcOutput(Full &r, const MISOInputs &i) { HIT("out"); r.L->a = &i; return r.L->ret; }
inline void calcOutput(Full &r, const MISOInputs &i, Vector &v) { HIT("outv"); r.L->a = &i; r.L->b = &v; }
inline double calcOutputPartial(Full &r, const std::string &w, const MISOInputs &i) { HIT("part"); r.L->a = &i; r.L->wrt = w; return r.L->ret; }
inline void calcOutputPartial(Full &r, const std::string &w, const MISOInputs &i, Vector &v) { HIT("partv"); r.L->a = &i; r.L->b = &v; r.L->wrt = w; }
inline void addLoad(Full &r, Vector &v) { HIT("addLoad"); r.L->a = &v; }
// the minimum a residual or an output must provide
inline void setInputs(Bare &r, const MISOInputs &) { HIT("setInputs"); }
inline void setOptions(Bare &r, const json &) { HIT("setOptions"); }
inline void evaluate(Bare &r, const MISOInputs &, Vector &) { HIT("evaluate"); }
inline Operator &getJacobian(Bare &r, const MISOInputs &, const std::string &) { HIT("jac"); return *r.op; }
inline double calcOutput(Bare &r, const MISOInputs &) { HIT("out"); return r.L->ret; }
}
template <class F> static bool refused(F &&f) { try { f(); } catch (const miso::MISOException &) { return true; } return false; }
static void dispatch(Case &c)
{
   auto &r = c.rng; Quiet q; mfem::IdentityOperator op(3); rec::Log L, LB; int n = r.irand(1, 50); L.ret = r.uni(-9, 9);
   miso::MISOResidual R{rec::Full{&L, n, &op}}, RB{rec::Bare{&LB, n + 1, &op}}; miso::MISOOutput O{rec::Full{&L, n, &op}}, OB{rec::Bare{&LB, 1, &op}}; miso::MISOLoad D{rec::Full{&L, n, &op}};
   MISOInputs in; json opt; Vector v(2), w(2), x(n); DenseSolver S; std::string wrt = r.pick(std::vector<std::string>{"state", "x", "mesh_coords", ""});
   c.check(getSize(R) == n && getSize(O) == n && R.Height() == n && R.Width() == n && getSize(RB) == n + 1, "dispatch-size");
   auto one = [&](const std::string &name, const void *a, const void *b, const void *d, bool w, auto &&fn) {
      L.calls.clear(); L.a = L.b = L.d = nullptr; L.wrt = "?"; size_t before = LB.calls.size(); fn();
      c.check(L.calls.size() == 1 && L.calls[0] == name && (!a || L.a == a) && (!b || L.b == b) && (!d || L.d == d) && (!w || L.wrt == wrt) && LB.calls.size() == before, "call-reaches-the-wrapped-object", name); c.count("dispatched-calls"); };
   auto val = [&](double y) { c.check(y == L.ret, "value-is-passed-back"); };
   for (int k = 0; k < 30; ++k)
   {
      int b = r.irand(0, 9); L.ret = r.uni(-9, 9);
      switch (r.irand(0, 30))
      {
         case 0: one("setInputs", &in, 0, 0, false, [&] { setInputs(R, in); }); break;
         case 1: one("setOptions", &opt, 0, 0, false, [&] { setOptions(R, opt); }); break;
         case 2: one("evaluate", &in, &v, 0, false, [&] { evaluate(R, in, v); }); break;
         case 3: one("linearize", &in, 0, 0, false, [&] { linearize(R, in); }); break;
         case 4: one("jac", &in, 0, 0, true, [&] { c.check(&getJacobian(R, in, wrt) == &op, "value-is-passed-back"); }); break;
         case 5: one("jacT", &in, 0, 0, true, [&] { c.check(&getJacobianTranspose(R, in, wrt) == &op, "value-is-passed-back"); }); break;
         case 6: one("block" + std::to_string(b), &in, 0, 0, false, [&] { c.check(&getJacobianBlock(R, in, b) == &op, "value-is-passed-back"); }); break;
         case 7: one("setup", &v, &w, &S, false, [&] { setUpAdjointSystem(R, S, in, v, w); }); break;
         case 8: one("finalize", &v, &w, &S, false, [&] { finalizeAdjointSystem(R, S, in, v, w); }); break;
         case 9: one("jvp", &v, 0, 0, true, [&] { val(jacobianVectorProduct(R, v, wrt)); }); break;
         case 10: one("jvpv", &v, &w, 0, true, [&] { jacobianVectorProduct(R, v, wrt, w); }); break;
         case 11: one("vjp", &v, 0, 0, true, [&] { val(vectorJacobianProduct(R, v, wrt)); }); break;
         case 12: one("vjpv", &v, &w, 0, true, [&] { vectorJacobianProduct(R, v, wrt, w); }); break;
         case 13: one("entropy", &in, 0, 0, false, [&] { val(calcEntropy(R, in)); }); break;
         case 14: one("entropyChange", &in, 0, 0, false, [&] { val(calcEntropyChange(R, in)); }); break;
         case 15: one("supply", &in, 0, 0, false, [&] { val(calcSupplyRate(R, in)); }); break;
         case 16: one("mass", &opt, 0, 0, false, [&] { c.check(getMassMatrix(R, opt) == &op, "value-is-passed-back"); }); break;
         case 17: one("prec", 0, 0, 0, false, [&] { c.check((void *)getPreconditioner(R) == (void *)&op, "value-is-passed-back"); }); break;
         case 18: one("evaluate", 0, &v, x.GetData(), false, [&] { R.Mult(x, v); }); break;
         case 19: { std::string k = wrt; wrt = "state"; one("jac", 0, 0, x.GetData(), true, [&] { c.check(&R.GetGradient(x) == &op, "value-is-passed-back"); }); wrt = k; break; }
         case 20: one("comm", 0, 0, 0, false, [&] { c.check(getMPIComm(R) == MPI_COMM_SELF, "value-is-passed-back"); }); break;
         case 21: one("out", &in, 0, 0, false, [&] { val(calcOutput(O, in)); }); break;
         case 22: one("outv", &in, &v, 0, false, [&] { calcOutput(O, in, v); }); break;
         case 23: one("part", &in, 0, 0, true, [&] { val(calcOutputPartial(O, wrt, in)); }); break;
         case 24: one("partv", &in, &v, 0, true, [&] { calcOutputPartial(O, wrt, in, v); }); break;
         case 25: if (r.coin()) { one("jvp", &v, 0, 0, true, [&] { val(jacobianVectorProduct(O, v, wrt)); }); } else { one("jvpv", &v, &w, 0, true, [&] { jacobianVectorProduct(O, v, wrt, w); }); } break;
         case 26: if (r.coin()) { one("vjp", &v, 0, 0, true, [&] { val(vectorJacobianProduct(O, v, wrt)); }); } else { one("vjpv", &v, &w, 0, true, [&] { vectorJacobianProduct(O, v, wrt, w); }); } break;
         case 27: if (r.coin()) { one("setInputs", &in, 0, 0, false, [&] { setInputs(O, in); }); } else { one("setOptions", &opt, 0, 0, false, [&] { setOptions(O, opt); }); } break;
         case 28: if (r.coin()) { one("setInputs", &in, 0, 0, false, [&] { setInputs(D, in); }); } else { one("setOptions", &opt, 0, 0, false, [&] { setOptions(D, opt); }); } break;
         case 29: one("addLoad", &v, 0, 0, false, [&] { addLoad(D, v); }); break;
         case 30: { int z = r.irand(0, 3); if (z == 0) { one("jvp", &v, 0, 0, true, [&] { val(jacobianVectorProduct(D, v, wrt)); }); } else if (z == 1) { one("jvpv", &v, &w, 0, true, [&] { jacobianVectorProduct(D, v, wrt, w); }); }
                    else if (z == 2) { one("vjp", &v, 0, 0, true, [&] { val(vectorJacobianProduct(D, v, wrt)); }); } else { one("vjpv", &v, &w, 0, true, [&] { vectorJacobianProduct(D, v, wrt, w); }); } break; }
      }
   }
   // what a concrete type leaves out is refused (or absent), never invented
   c.check(refused([&] { linearize(RB, in); }) && refused([&] { getJacobianTranspose(RB, in, wrt); }) && refused([&] { getJacobianBlock(RB, in, 0); }) && refused([&] { setUpAdjointSystem(RB, S, in, v, w); }) && refused([&] { finalizeAdjointSystem(RB, S, in, v, w); })
      && refused([&] { jacobianVectorProduct(RB, v, wrt); }) && refused([&] { jacobianVectorProduct(RB, v, wrt, w); }) && refused([&] { vectorJacobianProduct(RB, v, wrt); }) && refused([&] { vectorJacobianProduct(RB, v, wrt, w); })
      && refused([&] { calcEntropy(RB, in); }) && refused([&] { calcEntropyChange(RB, in); }) && refused([&] { calcSupplyRate(RB, in); }) && refused([&] { getMPIComm(RB); }), "missing-residual-operations-are-refused");
   c.check(getMassMatrix(RB, opt) == nullptr && getPreconditioner(RB) == nullptr, "missing-operators-are-absent");
   c.check(refused([&] { calcOutputPartial(OB, wrt, in); }) && refused([&] { calcOutputPartial(OB, wrt, in, v); }) && refused([&] { calcOutput(OB, in, v); }) && refused([&] { jacobianVectorProduct(OB, v, wrt); }) && refused([&] { vectorJacobianProduct(OB, v, wrt, w); }), "missing-output-operations-are-refused");
   rec::Full *conc = &miso::getConcrete<rec::Full>(R); c.check(conc->L == &L && conc->n == n, "concrete-object-is-reachable");
   c.count("dispatch");
}
static void inputs(Case &c)
{
   auto &r = c.rng; int n = r.irand(1, 20); Vector a = rvec(r, n), a0(a), out(r.irand(0, 5)); double g = r.uni(-5, 5), v = 3; MISOInputs in{{"vec", a}, {"num", g}};
   miso::setValueFromInputs(in, "num", v); c.check(v == g, "value"); v = 3; miso::setValueFromInputs(in, "absent", v); c.check(v == 3, "absent-input-leaves-the-value"); c.check(refused([&] { miso::setValueFromInputs(in, "absent", v, true); }), "absent-input-refused");
   { Vector deep(r.irand(0, 3)); miso::setVectorFromInputs(in, "vec", deep, true); same(c, deep, a, 0, "deep-copy"); a(0) += 1; c.check(deep(0) == a0(0), "deep-copy-is-independent"); Vector sh; miso::setVectorFromInputs(in, "vec", sh); c.check(sh.Size() == n && sh.GetData() == a.GetData(), "reference-follows-the-input"); }
   { Vector keep = rvec(r, 3), k0(keep); miso::setVectorFromInputs(in, "absent", keep); same(c, keep, k0, 0, "absent-input-leaves-the-value"); c.check(refused([&] { miso::setVectorFromInputs(in, "absent", keep, false, true); }), "absent-input-refused"); }
   bool t1 = false, t2 = false; try { miso::setValueFromInputs(in, "vec", v); } catch (const std::bad_variant_access &) { t1 = true; } Vector z; try { miso::setVectorFromInputs(in, "num", z); } catch (const std::bad_variant_access &) { t2 = true; } c.check(t1 && t2, "wrong-kind-refused");
   // integrator handles refer to the integrator they were made from, copies included
   Dom I, J; I.p.key = "num"; J.p.key = "other"; std::vector<miso::MISOIntegrator> hs; hs.emplace_back(I); hs.emplace_back(J); auto copy = hs; hs.clear(); double s = r.uni(0, 5); setInputs(copy, in); setOptions(copy, {{"scale", s}}); c.check(I.p.gain == g && J.p.gain == 0 && I.p.scale == s && J.p.scale == s, "handles-reach-their-integrator"); c.count("inputs");
}
int main(int argc, char **argv)
{
   int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov);
   init(argc, argv);
   run("residual", 240, residual); run("products", 240, products); run("adjoint", 160, adjoint); run("load", 240, load); run("output", 240, output);
   run("dispatch", 200, dispatch); run("inputs", 200, inputs);
   int rc = finish(); MPI_Finalize(); return rc;
}
