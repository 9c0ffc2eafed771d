// Implementation of the overlay's additions to MFEM (see make_overlay.py).
#include "mfem.hpp"
#include <map>
#include <memory>
#include <unordered_map>

namespace mfem
{
#include "coeff_revdiff.inc"

void Coefficient::EvalRevDiff(const double, ElementTransformation &,
                              const IntegrationPoint &, DenseMatrix &)
{ mfem_error("overlay: Coefficient::EvalRevDiff is not implemented for this type"); }
void VectorCoefficient::EvalRevDiff(const Vector &, ElementTransformation &,
                                    const IntegrationPoint &, DenseMatrix &)
{ mfem_error("overlay: VectorCoefficient::EvalRevDiff is not implemented for this type"); }

static void addTransformRev(ElementTransformation &T, const IntegrationPoint &ip,
                            const Vector &x_bar, DenseMatrix &PM_bar)
{
   auto *iso = dynamic_cast<IsoparametricTransformation *>(&T);
   if (!iso) { mfem_error("overlay: not an isoparametric transformation"); }
   iso->TransformRevDiff(ip, x_bar, PM_bar);
}

void ProductCoefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T,
                                     const IntegrationPoint &ip, DenseMatrix &PM_bar)
{
   const double b = GetBCoef()->Eval(T, ip);
   const double a = GetACoef() ? GetACoef()->Eval(T, ip) : GetAConst();
   if (GetACoef()) { GetACoef()->EvalRevDiff(Q_bar * b, T, ip, PM_bar); }
   GetBCoef()->EvalRevDiff(Q_bar * a, T, ip, PM_bar);
}

void ScalarVectorProductCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T,
                                                 const IntegrationPoint &ip, DenseMatrix &PM_bar)
{
   Vector v(GetVDim());
   GetBCoef()->Eval(v, T, ip);
   const double a = GetACoef() ? GetACoef()->Eval(T, ip) : GetAConst();
   if (GetACoef()) { GetACoef()->EvalRevDiff(v * V_bar, T, ip, PM_bar); }
   Vector vb(V_bar);
   vb *= a;
   GetBCoef()->EvalRevDiff(vb, T, ip, PM_bar);
}

void FunctionCoefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T,
                                      const IntegrationPoint &ip, DenseMatrix &PM_bar)
{
   double xd[3] = {0, 0, 0};
   Vector x(xd, 3);
   T.Transform(ip, x);
   Vector x_bar(x.Size());
   x_bar = 0.0;
   if (FunctionRevDiff) { FunctionRevDiff(x, Q_bar, x_bar); }
   else if (TDFunctionRevDiff) { TDFunctionRevDiff(x, time, Q_bar, x_bar); }
   else { mfem_error("overlay: FunctionCoefficient without a derivative"); }
   addTransformRev(T, ip, x_bar, PM_bar);
}

void VectorFunctionCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T,
                                            const IntegrationPoint &ip, DenseMatrix &PM_bar)
{
   double xd[3] = {0, 0, 0};
   Vector x(xd, 3);
   T.Transform(ip, x);
   Vector x_bar(x.Size());
   x_bar = 0.0;
   if (!FunctionRevDiff || Q) { mfem_error("overlay: VectorFunctionCoefficient without a derivative"); }
   FunctionRevDiff(x, V_bar, x_bar);
   addTransformRev(T, ip, x_bar, PM_bar);
}

// ---- element transformations ------------------------------------------------
static void prep(DenseMatrix &PM_bar, const DenseMatrix &PM)
{
   if (PM_bar.Height() != PM.Height() || PM_bar.Width() != PM.Width())
   { mfem_error("overlay: PointMat_bar has the wrong size"); }
}

void IsoparametricTransformation::JacobianRevDiff(const DenseMatrix &J_bar,
                                                  DenseMatrix &PM_bar)
{
   prep(PM_bar, PointMat);
   DenseMatrix ds(FElem->GetDof(), FElem->GetDim());
   if (FElem->GetDim() == 0) { return; }
   FElem->CalcDShape(*IntPoint, ds);
   AddMultABt(J_bar, ds, PM_bar);
}

void IsoparametricTransformation::TransformRevDiff(const IntegrationPoint &ip,
                                                   const Vector &x_bar,
                                                   DenseMatrix &PM_bar)
{
   prep(PM_bar, PointMat);
   Vector sh(FElem->GetDof());
   FElem->CalcShape(ip, sh);
   AddMultVWt(x_bar, sh, PM_bar);
}

void IsoparametricTransformation::WeightRevDiff(double W_bar, DenseMatrix &PM_bar)
{
   prep(PM_bar, PointMat);
   const DenseMatrix &J = Jacobian();
   const int n = J.Height(), d = J.Width();
   if (d == 0) { return; }
   DenseMatrix J_bar(n, d);
   if (n == d)
   {
      DenseMatrix A(d, n);
      CalcAdjugate(J, A);
      for (int i = 0; i < n; ++i)
         for (int j = 0; j < d; ++j) { J_bar(i, j) = W_bar * A(j, i); }
   }
   else
   {
      DenseMatrix M(d), Mi(d);
      MultAtB(J, J, M);
      CalcInverse(M, Mi);
      Mult(J, Mi, J_bar);
      J_bar *= W_bar * J.Weight();
   }
   JacobianRevDiff(J_bar, PM_bar);
}

void IsoparametricTransformation::AdjugateJacobianRevDiff(const DenseMatrix &A_bar,
                                                          DenseMatrix &PM_bar)
{
   prep(PM_bar, PointMat);
   const DenseMatrix &J = Jacobian();
   const int n = J.Height(), d = J.Width();
   DenseMatrix J_bar(n, d);
   J_bar = 0.0;
   if (n == d)
   {
      if (d == 2)
      {
         J_bar(0, 0) = A_bar(1, 1);
         J_bar(1, 1) = A_bar(0, 0);
         J_bar(0, 1) = -A_bar(0, 1);
         J_bar(1, 0) = -A_bar(1, 0);
      }
      else if (d == 3)
      {
         for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
            {
               const int r1 = (j + 1) % 3, r2 = (j + 2) % 3;
               const int c1 = (i + 1) % 3, c2 = (i + 2) % 3;
               const double b = A_bar(i, j);
               J_bar(r1, c1) += b * J(r2, c2);
               J_bar(r2, c2) += b * J(r1, c1);
               J_bar(r1, c2) -= b * J(r2, c1);
               J_bar(r2, c1) -= b * J(r1, c2);
            }
      }
   }
   else if (d == 1)
   {
      for (int i = 0; i < n; ++i) { J_bar(i, 0) = A_bar(0, i); }
   }
   else if (d == 2 && n == 3)
   {
      DenseMatrix M(2), aM(2), aM_bar(2), M_bar(2);
      MultAtB(J, J, M);
      CalcAdjugate(M, aM);
      // A = adj(M) J^T
      Mult(A_bar, J, aM_bar);
      MultAtB(A_bar, aM, J_bar);
      M_bar(0, 0) = aM_bar(1, 1);
      M_bar(1, 1) = aM_bar(0, 0);
      M_bar(0, 1) = -aM_bar(0, 1);
      M_bar(1, 0) = -aM_bar(1, 0);
      DenseMatrix S(2);
      for (int i = 0; i < 2; ++i)
         for (int j = 0; j < 2; ++j) { S(i, j) = M_bar(i, j) + M_bar(j, i); }
      AddMult(J, S, J_bar);
   }
   else { mfem_error("overlay: AdjugateJacobianRevDiff shape"); }
   JacobianRevDiff(J_bar, PM_bar);
}

void IsoparametricTransformation::InverseJacobianRevDiff(const DenseMatrix &A_bar,
                                                         DenseMatrix &PM_bar)
{
   prep(PM_bar, PointMat);
   const DenseMatrix &J = Jacobian();
   const int n = J.Height();
   if (n != J.Width()) { mfem_error("overlay: InverseJacobianRevDiff shape"); }
   DenseMatrix Ji(n), t(n), J_bar(n);
   CalcInverse(J, Ji);
   MultAtB(Ji, A_bar, t);    // Ji^T A_bar
   MultABt(t, Ji, J_bar);    // (Ji^T A_bar) Ji^T
   J_bar *= -1.0;
   JacobianRevDiff(J_bar, PM_bar);
}

void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &nb, DenseMatrix &J_bar)
{
   J_bar.SetSize(J.Height(), J.Width());
   J_bar = 0.0;   // assigned, not accumulated: callers rely on it
   if (J.Height() == 2)
   {
      J_bar(1, 0) += nb(0);
      J_bar(0, 0) -= nb(1);
   }
   else
   {
      const double *a = J.Data(), *b = J.Data() + 3;
      J_bar(0, 0) += b[1] * nb(2) - b[2] * nb(1);
      J_bar(1, 0) += b[2] * nb(0) - b[0] * nb(2);
      J_bar(2, 0) += b[0] * nb(1) - b[1] * nb(0);
      J_bar(0, 1) += nb(1) * a[2] - nb(2) * a[1];
      J_bar(1, 1) += nb(2) * a[0] - nb(0) * a[2];
      J_bar(2, 1) += nb(0) * a[1] - nb(1) * a[0];
   }
}

// ---- finite elements ---------------------------------------------------------
static IsoparametricTransformation &iso(ElementTransformation &T)
{
   auto *p = dynamic_cast<IsoparametricTransformation *>(&T);
   if (!p) { mfem_error("overlay: not an isoparametric transformation"); }
   return *p;
}

void FiniteElement::CalcPhysShapeRevDiff(ElementTransformation &T, const Vector &sb,
                                         DenseMatrix &PM_bar) const
{
   if (map_type != INTEGRAL) { return; }
   // shape = ref/W
   Vector ref(dof);
   CalcShape(T.GetIntPoint(), ref);
   const double W = T.Weight();
   iso(T).WeightRevDiff(-(ref * sb) / (W * W), PM_bar);
}

void FiniteElement::CalcVShapeRevDiff(ElementTransformation &T, const DenseMatrix &vb,
                                      DenseMatrix &PM_bar) const
{
   const int d = T.Jacobian().Width(), sd = T.Jacobian().Height();
   DenseMatrix ref(dof, d);
   CalcVShape(T.GetIntPoint(), ref);
   if (map_type == H_CURL)
   {
      // v = ref * Jinv
      DenseMatrix Ab(d, sd);
      MultAtB(ref, vb, Ab);
      iso(T).InverseJacobianRevDiff(Ab, PM_bar);
   }
   else if (map_type == H_DIV)
   {
      // v = ref * J^T / W
      const double W = T.Weight();
      DenseMatrix v(dof, sd), Jb(sd, d);
      MultABt(ref, T.Jacobian(), v);
      double s = 0.0;
      for (int i = 0; i < dof; ++i)
         for (int j = 0; j < sd; ++j) { s += v(i, j) * vb(i, j); }
      MultAtB(vb, ref, Jb);
      Jb *= 1.0 / W;
      iso(T).JacobianRevDiff(Jb, PM_bar);
      iso(T).WeightRevDiff(-s / (W * W), PM_bar);
   }
   else { mfem_error("overlay: CalcVShapeRevDiff map type"); }
}

void FiniteElement::CalcPhysCurlShapeRevDiff(ElementTransformation &T,
                                             const DenseMatrix &cb,
                                             DenseMatrix &PM_bar) const
{
   const double W = T.Weight();
   if (dim == 3)
   {
      DenseMatrix ref(dof, 3), v(dof, 3), Jb(3);
      CalcCurlShape(T.GetIntPoint(), ref);
      MultABt(ref, T.Jacobian(), v);
      double s = 0.0;
      for (int i = 0; i < dof; ++i)
         for (int j = 0; j < 3; ++j) { s += v(i, j) * cb(i, j); }
      MultAtB(cb, ref, Jb);
      Jb *= 1.0 / W;
      iso(T).JacobianRevDiff(Jb, PM_bar);
      iso(T).WeightRevDiff(-s / (W * W), PM_bar);
   }
   else
   {
      DenseMatrix ref(dof, cb.Width());
      CalcCurlShape(T.GetIntPoint(), ref);
      double s = 0.0;
      for (int i = 0; i < dof; ++i)
         for (int j = 0; j < cb.Width(); ++j) { s += ref(i, j) * cb(i, j); }
      iso(T).WeightRevDiff(-s / (W * W), PM_bar);
   }
}

// ---- forms -------------------------------------------------------------------
namespace odl
{
static std::unordered_map<const void *, FaceEnergy> &table()
{
   static auto *t = new std::unordered_map<const void *, FaceEnergy>;
   return *t;
}
void SetFaceEnergy(const void *integ, FaceEnergy f)
{
   if (f) { table()[integ] = std::move(f); }
   else { table().erase(integ); }
}
const FaceEnergy *FindFaceEnergy(const void *integ)
{
   auto it = table().find(integ);
   return it == table().end() ? nullptr : &it->second;
}

class MarkedDomain : public NonlinearFormIntegrator
{
   std::unique_ptr<NonlinearFormIntegrator> in;
   Array<int> &marker;
   bool on(ElementTransformation &T) const { return marker[T.Attribute - 1] != 0; }

public:
   MarkedDomain(NonlinearFormIntegrator *n, Array<int> &m) : in(n), marker(m) { }
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T,
                              const Vector &x, Vector &y)
   {
      if (on(T)) { in->AssembleElementVector(el, T, x, y); }
      else { y.SetSize(x.Size()); y = 0.0; }
   }
   void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T,
                            const Vector &x, DenseMatrix &m)
   {
      if (on(T)) { in->AssembleElementGrad(el, T, x, m); }
      else { m.SetSize(x.Size()); m = 0.0; }
   }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T,
                           const Vector &x)
   { return on(T) ? in->GetElementEnergy(el, T, x) : 0.0; }
};

struct FaceAttr
{
   Mesh *mesh;
   long sequence = -1;
   std::map<int, int> face2be;
   explicit FaceAttr(FiniteElementSpace &fes) : mesh(fes.GetMesh()) { }
   /// boundary element on interior face f, or -1
   int find(int f)
   {
      if (sequence != mesh->GetSequence())
      {
         face2be.clear();
         for (int i = 0; i < mesh->GetNBE(); ++i)
         { face2be[mesh->GetBdrElementEdgeIndex(i)] = i; }
         sequence = mesh->GetSequence();
      }
      auto it = face2be.find(f);
      return it == face2be.end() ? -1 : it->second;
   }
};

struct InternalFaces
{
   FiniteElementSpace &fes;
   FaceAttr fa;
   Array<int> *marker;
   InternalFaces(FiniteElementSpace &f, Array<int> *m) : fes(f), fa(f), marker(m) { }
   /// attribute of the internal boundary face or 0 if it is not (marked) one
   int attr(FaceElementTransformations &T)
   {
      int be = fa.find(T.ElementNo);
      if (be < 0) { return 0; }
      int a = fa.mesh->GetBdrAttribute(be);
      if (marker && !(*marker)[a - 1]) { return 0; }
      return a;
   }
};
struct SetAttr
{
   FaceElementTransformations &T;
   int old;
   SetAttr(FaceElementTransformations &t, int a) : T(t), old(t.Attribute) { T.Attribute = a; }
   ~SetAttr() { T.Attribute = old; }
};

class InternalBdrNL : public NonlinearFormIntegrator
{
   std::unique_ptr<NonlinearFormIntegrator> in;
   InternalFaces f;

public:
   InternalBdrNL(FiniteElementSpace &fes, NonlinearFormIntegrator *n, Array<int> *m)
    : in(n), f(fes, m)
   { }
   void AssembleFaceVector(const FiniteElement &e1, const FiniteElement &e2,
                           FaceElementTransformations &T, const Vector &x, Vector &y)
   {
      if (int a = f.attr(T)) { SetAttr s(T, a); in->AssembleFaceVector(e1, e2, T, x, y); }
      else { y.SetSize(x.Size()); y = 0.0; }
   }
   void AssembleFaceGrad(const FiniteElement &e1, const FiniteElement &e2,
                         FaceElementTransformations &T, const Vector &x, DenseMatrix &m)
   {
      if (int a = f.attr(T)) { SetAttr s(T, a); in->AssembleFaceGrad(e1, e2, T, x, m); }
      else { m.SetSize(x.Size()); m = 0.0; }
   }
   double Energy(const FiniteElement &e1, const FiniteElement &e2,
                 FaceElementTransformations &T, const Vector &x)
   {
      int a = f.attr(T);
      if (!a) { return 0.0; }
      const FaceEnergy *fe = FindFaceEnergy(in.get());
      if (!fe) { return 0.0; }
      SetAttr s(T, a);
      return (*fe)(e1, e2, T, x);
   }
};

class InternalBdrLF : public LinearFormIntegrator
{
   std::unique_ptr<LinearFormIntegrator> in;
   InternalFaces f;

public:
   InternalBdrLF(FiniteElementSpace &fes, LinearFormIntegrator *n, Array<int> *m)
    : in(n), f(fes, m)
   { }
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &)
   { mfem_error("overlay: domain assembly of a face integrator"); }
   using LinearFormIntegrator::AssembleRHSElementVect;
   void AssembleRHSElementVect(const FiniteElement &e1, const FiniteElement &e2,
                               FaceElementTransformations &T, Vector &y)
   {
      if (int a = f.attr(T))
      {
         SetAttr s(T, a);
         in->AssembleRHSElementVect(e1, e2, T, y);
      }
      else
      {
         y.SetSize((e1.GetDof() + e2.GetDof()) * f.fes.GetVDim());
         y = 0.0;
      }
   }
};

NonlinearFormIntegrator *WrapMarkedDomain(NonlinearFormIntegrator *n, Array<int> &m)
{ return new MarkedDomain(n, m); }
NonlinearFormIntegrator *WrapInternalBdr(FiniteElementSpace &fes,
                                         NonlinearFormIntegrator *n, Array<int> *m)
{
   auto *w = new InternalBdrNL(fes, n, m);
   SetFaceEnergy(static_cast<NonlinearFormIntegrator *>(w),
                 [w](const FiniteElement &a, const FiniteElement &b,
                     FaceElementTransformations &t, const Vector &x)
                 { return w->Energy(a, b, t, x); });
   return w;
}
LinearFormIntegrator *WrapInternalBdr(FiniteElementSpace &fes,
                                      LinearFormIntegrator *n, Array<int> *m)
{ return new InternalBdrLF(fes, n, m); }
}  // namespace odl

double NonlinearForm::GetGridFunctionEnergy(const Vector &x) const
{
   if (ext) { return ext->GetGridFunctionEnergy(x); }
   Mesh *mesh = fes->GetMesh();
   Array<int> vdofs, vdofs2;
   Vector el_x;
   double energy = 0.0;
   if (dnfi.Size())
   {
      for (int i = 0; i < fes->GetNE(); i++)
      {
         const FiniteElement *fe = fes->GetFE(i);
         DofTransformation *dt = fes->GetElementVDofs(i, vdofs);
         ElementTransformation *T = fes->GetElementTransformation(i);
         x.GetSubVector(vdofs, el_x);
         if (dt) { dt->InvTransformPrimal(el_x); }
         for (int k = 0; k < dnfi.Size(); k++)
         { energy += dnfi[k]->GetElementEnergy(*fe, *T, el_x); }
      }
   }
   if (fnfi.Size())
   {
      for (int i = 0; i < mesh->GetNumFaces(); i++)
      {
         auto *tr = mesh->GetInteriorFaceTransformations(i);
         if (!tr) { continue; }
         fes->GetElementVDofs(tr->Elem1No, vdofs);
         fes->GetElementVDofs(tr->Elem2No, vdofs2);
         vdofs.Append(vdofs2);
         x.GetSubVector(vdofs, el_x);
         for (int k = 0; k < fnfi.Size(); k++)
         {
            if (auto *f = odl::FindFaceEnergy(fnfi[k]))
            { energy += (*f)(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, el_x); }
         }
      }
   }
   if (bfnfi.Size())
   {
      for (int i = 0; i < fes->GetNBE(); i++)
      {
         const int attr = mesh->GetBdrAttribute(i);
         auto *tr = mesh->GetBdrFaceTransformations(i);
         if (!tr) { continue; }
         fes->GetElementVDofs(tr->Elem1No, vdofs);
         x.GetSubVector(vdofs, el_x);
         const FiniteElement *fe = fes->GetFE(tr->Elem1No);
         for (int k = 0; k < bfnfi.Size(); k++)
         {
            if (bfnfi_marker[k] && (*bfnfi_marker[k])[attr - 1] == 0) { continue; }
            if (auto *f = odl::FindFaceEnergy(bfnfi[k]))
            { energy += (*f)(*fe, *fe, *tr, el_x); }
         }
      }
   }
   return energy;
}

double ParNonlinearForm::GetParGridFunctionEnergy(const Vector &x) const
{
   double loc = NonlinearForm::GetGridFunctionEnergy(x), glob = 0.0;
   MPI_Allreduce(&loc, &glob, 1, MPI_DOUBLE, MPI_SUM, ParFESpace()->GetComm());
   return glob;
}

// As in MFEM 4.5.2, without refusing interior-face integrators when there are
// no shared faces.  (These four definitions interpose on libmfem's.)
Operator &ParNonlinearForm::GetGradient(const Vector &x) const
{
   if (NonlinearForm::ext) { return NonlinearForm::GetGradient(x); }
   ParFiniteElementSpace *pfes = ParFESpace();
   if (fnfi.Size() && pfes->GetParMesh()->GetNSharedFaces())
   { mfem_error("overlay: gradient with shared interior faces"); }
   pGrad.Clear();
   NonlinearForm::GetGradient(x);
   OperatorHandle dA(pGrad.Type()), Ph(pGrad.Type());
   dA.MakeSquareBlockDiag(pfes->GetComm(), pfes->GlobalVSize(), pfes->GetDofOffsets(), Grad);
   Ph.ConvertFrom(pfes->Dof_TrueDof_Matrix());
   pGrad.MakePtAP(dA, Ph);
   OperatorHandle pGrad_e;
   pGrad_e.EliminateRowsCols(pGrad, ess_tdof_list);
   return *pGrad.Ptr();
}
}  // namespace mfem
