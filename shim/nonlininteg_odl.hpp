// Overlay helpers (see make_overlay.py): face energies, marked domain
// integrators and interior-boundary-face integrators on top of MFEM 4.5.2.
#ifndef VERIF_NONLININTEG_ODL_HPP
#define VERIF_NONLININTEG_ODL_HPP
#include <functional>
#include <type_traits>
#include <utility>
#include "fem/nonlininteg.hpp"
#include "fem/lininteg.hpp"
#include "fem/fespace.hpp"
namespace mfem
{
namespace odl
{
typedef std::function<double(const FiniteElement &, const FiniteElement &,
                             FaceElementTransformations &, const Vector &)>
   FaceEnergy;
void SetFaceEnergy(const void *integ, FaceEnergy f);   // empty f: forget
const FaceEnergy *FindFaceEnergy(const void *integ);

template <class T, class = void>
struct has_face_energy : std::false_type { };
template <class T>
struct has_face_energy<T, decltype((void)std::declval<T &>().GetFaceEnergy(
   std::declval<const FiniteElement &>(), std::declval<const FiniteElement &>(),
   std::declval<FaceElementTransformations &>(), std::declval<const Vector &>()))>
 : std::true_type { };

template <class T>
void RegisterFaceEnergy(T *integ)
{
   const void *key = static_cast<NonlinearFormIntegrator *>(integ);
   if constexpr (has_face_energy<T>::value)
   {
      SetFaceEnergy(key,
                    [integ](const FiniteElement &a, const FiniteElement &b,
                            FaceElementTransformations &t, const Vector &x)
                    { return integ->GetFaceEnergy(a, b, t, x); });
   }
   else { SetFaceEnergy(key, FaceEnergy()); }
}

NonlinearFormIntegrator *WrapMarkedDomain(NonlinearFormIntegrator *nlfi,
                                          Array<int> &marker);
NonlinearFormIntegrator *WrapInternalBdr(FiniteElementSpace &fes,
                                         NonlinearFormIntegrator *nlfi,
                                         Array<int> *marker);
LinearFormIntegrator *WrapInternalBdr(FiniteElementSpace &fes,
                                      LinearFormIntegrator *lfi,
                                      Array<int> *marker);
}  // namespace odl
}  // namespace mfem
#endif
