From ee81d5314a2f70099a641576e4fbe1aaacb72208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 01/98] fix: line search: minimiser of the degenerate
 (quadratic) cubic interpolant had the wrong sign

---
 src/common/linesearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 2d3cd77..efc3cc4 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -40,7 +40,7 @@ double cubic_interp(double phi0,
 
    if (abs(a) < std::numeric_limits<double>::epsilon())
    {
-      return dphi0 / (2 * b);
+      return -dphi0 / (2 * b);
    }
    else
    {
-- 
2.43.0


From d97e2c926117a784a8062819c2f0b2ab0ac2fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 02/98] fix: line search: do not accept (or return) a NaN step
 when phi is not finite

---
 src/common/linesearch.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index efc3cc4..3540bd6 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -68,7 +68,8 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
    int iter = 0;
    // std::cout << "linesearch iter 0: phi(0) = " << phi0
    //           << ", dphi(0)/dalpha = " << dphi0 << "\n";
-   while (phi2 > phi0 + mu * alpha2 * dphi0)
+   // negated so that a NaN phi (e.g. a non-physical state) is not accepted
+   while (!(phi2 <= phi0 + mu * alpha2 * dphi0))
    {
       iter += 1;
       // std::cout << "linesearch iter " << iter << ": alpha = " << alpha2
@@ -95,8 +96,9 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
       alpha1 = alpha2;
       phi1 = phi2;
 
-      alpha_tmp = std::min(alpha_tmp, alpha2 * rho_hi);
-      alpha2 = std::max(alpha_tmp, alpha2 * rho_lo);
+      // if the interpolation is not finite these pick alpha2 * rho_hi
+      alpha_tmp = std::min(alpha2 * rho_hi, alpha_tmp);
+      alpha2 = std::max(alpha2 * rho_lo, alpha_tmp);
 
       phi2 = phi(alpha2);
    }
-- 
2.43.0


From 1ab0cb1c41dbec04d6f0014aefc96480c3358d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 03/98] fix: bisection: return the root when it is an end of
 the bracket

---
 src/utils/utils.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4c345f1..ae6832c 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -299,6 +299,15 @@ double bisection(const std::function<double(double)> &func,
       cerr << "bisection: func(xl)*func(xr) is positive." << endl;
       throw(-1);
    }
+   // a root at an end of the bracket has no sign change to bisect towards
+   if (fl == 0.0)
+   {
+      return xl;
+   }
+   if (fr == 0.0)
+   {
+      return xr;
+   }
    double xm = 0.5 * (xl + xr);
    double fm = func(xm);
    int iter = 0;
-- 
2.43.0


From 3466e7ac7ffb2980d5b7dffc9cc77a8e28ca5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 04/98] fix: refuse attributes the mesh does not have instead
 of writing out of bounds

---
 src/utils/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index ae6832c..0c6334f 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -132,6 +132,11 @@ void attrVecToArray(const std::vector<int> &vec_attributes,
    attributes = 0;
    for (const auto &attr : vec_attributes)
    {
+      if (attr < 1 || attr > attributes.Size())
+      {
+         throw MISOException("attribute " + std::to_string(attr) +
+                             " is not an attribute of the mesh!\n");
+      }
       attributes[attr - 1] = 1;
    }
 }
-- 
2.43.0


From ac9a9bfedf92ae92ec1a69d2d9e619c6c44dce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 05/98] fix: jacobiPoly: degree-one polynomial was wrong for
 beta != 0

---
 src/common/orthopoly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/orthopoly.cpp b/src/common/orthopoly.cpp
index 6d775c4..f248981 100644
--- a/src/common/orthopoly.cpp
+++ b/src/common/orthopoly.cpp
@@ -83,7 +83,7 @@ void jacobiPoly(const Vector &x,
    double gamma1 = (alpha + 1) * (beta + 1) * gamma0 / (alpha + beta + 3);
    // Set poly_1(:) = ((alpha+beta+2)*x(:) + (alpha-beta))*0.5/sqrt(gamma1)
    Vector poly_1(size);
-   poly_1 = alpha + beta;
+   poly_1 = alpha - beta;
    add(poly_1, alpha + beta + 2, x, poly_1);
    poly_1 *= 0.5 / sqrt(gamma1);
    if (degree == 1)
-- 
2.43.0


From 8bee83fa0b7d76bb69aac653210f3a3aca6cecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 06/98] fix: SBPSegmentElement: shape functions off the nodes
 were scaled by sqrt(2)

---
 src/common/sbp_fe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index bc4de9c..10fc5f5 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -453,7 +453,7 @@ void SBPSegmentElement::CalcShape(const IntegrationPoint &ip,
       for (int i = 0; i <= order; ++i)
       {
          miso::jacobiPoly(xvec, 0.0, 0.0, i, poly);
-         poly *= 2.0;  // scale to mfem reference element
+         poly *= sqrt(2.0);  // scale to mfem reference element
          for (int k = 0; k < GetDof(); ++k)
          {
             shape(k) += poly(0) * V(k, ptr) * H(k);
-- 
2.43.0


From e724b3f7cc57b2cd840513ac0c9acb147ad7f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 07/98] fix: SBP elements: CalcDShape must scale row i of Q by
 H(i), not by the norm of each column

---
 src/common/sbp_fe.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 10fc5f5..4be5add 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -503,7 +503,7 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
    Vector tempVec(dof);
    Q[0].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(0, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);  // row ipIdx of H^{-1} Q
 }
 
 // //////////////////////////////////////////////////////////////////////////
@@ -923,7 +923,7 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
    dshape.SetCol(0, tempVec);
    Q[1].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(1, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);  // row ipIdx of H^{-1} Q
 }
 
 SBPTetrahedronElement::SBPTetrahedronElement(const int degree, const int num_nodes)
@@ -1121,7 +1121,7 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
    dshape.SetCol(1, tempVec);
    Q[2].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(2, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);  // row ipIdx of H^{-1} Q
 }
 
 SBPCollection::SBPCollection(const int p, const int dim)
-- 
2.43.0


From 5e54e69f29c80ac6aec1d9f9b2fe8bcdf3ade8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 08/98] fix: IrrotationalProjector: mesh sensitivity must use
 the projection's quadrature rule

---
 src/utils/irrotational_projector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/irrotational_projector.cpp b/src/utils/irrotational_projector.cpp
index fb59dca..6136c5f 100644
--- a/src/utils/irrotational_projector.cpp
+++ b/src/utils/irrotational_projector.cpp
@@ -41,6 +41,9 @@ IrrotationalProjector::IrrotationalProjector(ParFiniteElementSpace &h1_fes,
    auto &x_nodes = dynamic_cast<ParGridFunction &>(*mesh.GetNodes());
    auto &mesh_fes = *x_nodes.ParFESpace();
    mesh_sens.Update(&mesh_fes);
+   // differentiate the same quadrature that the projection uses
+   diff_mesh_sens->SetIntRule(ir);
+   div_mesh_sens->SetIntRule(ir);
 
    mesh_sens.AddDomainIntegrator(diff_mesh_sens);
 
-- 
2.43.0


From 60162865cc61f65efd8cd47584a7f2f1e76ffcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 09/98] fix: FirstOrderODE: report an unknown integrator by
 name instead of aborting on a missing key

---
 src/common/ode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f4a4a82..327ccac 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -246,8 +246,7 @@ void FirstOrderODE::setTimestepper(const nlohmann::json &ode_options)
    }
    else
    {
-      throw MISOException("Unknown ODE solver type: " +
-                          ode_options["ode-solver"].get<std::string>());
+      throw MISOException("Unknown ODE solver type: " + timestepper);
       // TODO: parallel exit
    }
    ode_solver_->Init(*this);
-- 
2.43.0


From 0ba2681d6eb6c48b6bfc0671378000dc2f580824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 10/98] fix: constructLinearSolver: pass the absolute tolerance
 to hypre's FGMRES

---
 src/common/mfem_extensions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/mfem_extensions.cpp b/src/common/mfem_extensions.cpp
index 9d72388..509bd8d 100644
--- a/src/common/mfem_extensions.cpp
+++ b/src/common/mfem_extensions.cpp
@@ -439,6 +439,8 @@ std::unique_ptr<mfem::Solver> constructLinearSolver(
    {
       auto fgmres = std::make_unique<mfem::HypreFGMRES>(comm);
       fgmres->SetTol(reltol);
+      // mfem does not wrap the absolute tolerance of hypre's FGMRES
+      HYPRE_ParCSRFlexGMRESSetAbsoluteTol(*fgmres, abstol);
       fgmres->SetMaxIter(maxiter);
       fgmres->SetPrintLevel(ptl);
       if (kdim != -1)
-- 
2.43.0


From 80b448bb52875ab22b3af951f67c97f5e3afd78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 11/98] fix: InexactNewton: slope of the merit function is -r^T
 J c, not -c^T J r

---
 src/common/inexact_newton.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 0e3bdfd..e85390b 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -21,10 +21,10 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    Vector temp(r.Size());
 
    double p0 = 0.5 * norm * norm;
-   // temp=F'(x_i)*r(x_i)
-   jac->Mult(r, temp);
-   // c is the negative inexact newton step size.
-   double p0p = -Dot(c, temp);
+   // temp=F'(x_i)*c; c is the negative inexact newton step
+   jac->Mult(c, temp);
+   // p'(0) = -r(x_i)^T F'(x_i) c
+   double p0p = -Dot(r, temp);
    // Calculate the new norm.
 
    add(x, -1.0, c, x_new);
-- 
2.43.0


From 26c3846053973e8b459d08755a5fe2a50d7eb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 12/98] fix: SumOfOperators, JacobianFree: vanishing
 coefficients and rectangular operators

---
 src/common/matrix_operators.cpp | 16 ++++++++++++++--
 src/common/matrix_operators.hpp |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 6412dac..f16b1f2 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -16,7 +16,7 @@ SumOfOperators::SumOfOperators(double alpha,
    b(beta),
    oper_a(&oper1),
    oper_b(&oper2),
-   work_vec(oper1.Width())
+   work_vec(oper1.Height())
 {
    if ((oper_a->Height() != oper_b->Height()) ||
        (oper_a->Width() != oper_b->Width()))
@@ -38,7 +38,7 @@ void SumOfOperators::Add(double alpha,
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
 {
-   y.SetSize(x.Size());
+   y.SetSize(height);
    const double zero = 1e-16;
    if (fabs(a) > zero)
    {
@@ -48,6 +48,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          work_vec *= a;
       }
    }
+   else
+   {
+      work_vec = 0.0;
+   }
    if (fabs(b) > zero)
    {
       oper_b->Mult(x, y);
@@ -56,6 +60,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          y *= b;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    y += work_vec;
 }
 
@@ -103,6 +111,10 @@ void JacobianFree::Mult(const mfem::Vector &x, mfem::Vector &y) const
          y *= scale;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    if (explicit_part)
    {
       // Include contribution from explicit operator, if necessary
diff --git a/src/common/matrix_operators.hpp b/src/common/matrix_operators.hpp
index 66ad0d7..de5efbe 100644
--- a/src/common/matrix_operators.hpp
+++ b/src/common/matrix_operators.hpp
@@ -21,7 +21,7 @@ public:
       b(0.0),
       oper_a(nullptr),
       oper_b(nullptr),
-      work_vec(width)
+      work_vec(height)
    { }
 
    /// Construct an empty operator with a pre-defined height
-- 
2.43.0


From d01ff54e412d2f204842fbd069d48eb2a815227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 13/98] fix: 3D viscous MMS: out-of-bounds coordinate and
 kinetic energy of the third velocity component

---
 .../fluidflow/navier_stokes_fluxes.hpp        | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 4347f77..e371b9a 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -372,7 +372,7 @@ void viscousMMSExact(int dim, const xdouble *x, xdouble *u)
             const double w_0 = 0.5;
             const double T_0 = 1.0;
 
-            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[3]);
+            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[2]);
             u[1] = u_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[2] = v_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[3] = w_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
@@ -475,6 +475,8 @@ void calcViscousMMS(int dim, double mu, double Pr, const xdouble *x, xdouble *sr
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + 
                 (1.0/3.0)*r_0*pow(w_0, 2)*x[2]*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2));
+        // six times each velocity component, divided by u_0, v_0 and w_0
+        const xdouble g = 2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2);
         src[4] =(1.0/72.0)*(12*mu*(gamma - 1)*(-1.3333333333333333*pow(u_0, 2)*(2*x[0] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) - pow(u_0, 2)*(2*x[1] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) - pow(u_0, 2)*(2*x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
@@ -489,35 +491,35 @@ void calcViscousMMS(int dim, double mu, double Pr, const xdouble *x, xdouble *sr
                 - 6*w_0*x[0]*(x[0] - 1)*(u_0*x[2]*(x[2] - 1) + w_0*x[0]*(x[0] - 1)) - 6*w_0*x[1]*(x[1] - 1)*(v_0*x[2]*(x[2] - 1) + w_0*x[1]*(x[1] - 1)) 
                 + 4.0*w_0*x[2]*(x[2] - 1)*(u_0*x[0]*(x[0] - 1) + v_0*x[1]*(x[1] - 1) - 2*w_0*x[2]*(x[2] - 1))) + r_0*u_0*x[0]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
-                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + 36*pow(x[2], 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(w_0, 2)*pow(g, 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*u_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(g, 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*v_0*x[1]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(g, 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*v_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(g, 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*w_0*x[2]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(g, 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*w_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
                 + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
+                + pow(w_0, 2)*pow(g, 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 2*x[2]*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(pow(u_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(v_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) 
-                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + 6)))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
+                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(w_0, 2)*(x[2] - 1)*g)))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
             // src[0] = 10.0;
             // src[1] = 11.0;
             // src[2] = 12.0;
-- 
2.43.0


From 4cf5dd83dc941c19aeded21c7bfee719ea0d564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 14/98] fix: InviscidMMSExact: squares belong to the sines, as
 in the manufactured source

---
 src/physics/fluidflow/euler_fluxes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 213e4db..0cd3a11 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1289,9 +1289,9 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
          const double scale = 1.0;
          const double T0    = 1.0;
          const double Tp    = 0.1;
-         u[0] = rho0 + rhop*(sin(M_PI*pow((x[0] + trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
-         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*(sin(M_PI*pow((x[0]+trans)/scale,2.0)));
-         u[2] = -up*(sin(2*M_PI*pow((x[0]+trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
+         u[0] = rho0 + rhop*pow(sin(M_PI*(x[0] + trans)/scale), 2.0)*sin(M_PI*(x[1]+trans)/scale);
+         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*pow(sin(M_PI*(x[0] + trans)/scale), 2.0);
+         u[2] = -up*pow(sin(2*M_PI*(x[0] + trans)/scale), 2.0)*sin(M_PI*(x[1]+trans)/scale);
          u[3] = 0.0;
          double Tem  = T0 + Tp*(pow(((x[0]+trans)/scale),4.0) - 2.0*pow(((x[0]+trans)/scale),3.0) + pow(((x[0]+trans)/scale),2.0) 
                      + pow(((x[1]+trans)/scale),4.0) - 2.0*pow(((x[1]+trans)/scale),3.0) + pow(((x[1]+trans)/scale),2.0));
-- 
2.43.0


From 5fb56887cee90f75f279b5dc84328a60008ca2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 15/98] fix: inviscid MMS: zero only the dim + 2 entries the
 caller provides

---
 src/physics/fluidflow/euler_fluxes.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 0cd3a11..9a293b4 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1304,7 +1304,10 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
       }
       default:
       {  
-         u[0] = 0.0; u[1] = 0.0; u[2] = 0.0; u[3] = 0.0; u[4] = 0.0;
+         for (int i = 0; i < dim + 2; ++i)
+         {
+            u[i] = 0.0;
+         }
          break;
       }
    }
@@ -1413,7 +1416,10 @@ void calcInviscidMMS(int dim, const xdouble *x, xdouble *src)
       }
       default:
       {  
-         src[0] = 0.0; src[1] = 0.0; src[2] = 0.0; src[3] = 0.0; src[4] = 0.0;
+         for (int i = 0; i < dim + 2; ++i)
+         {
+            src[i] = 0.0;
+         }
          break;
       }
    }
-- 
2.43.0


From 1c010eec24511266065cf1e4c76ebfdfcf86d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 16/98] fix: BoundaryEntropy: take the pressure of the
 conservative state, not of the entropy variables

---
 src/physics/fluidflow/euler_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index 6a8f8f8..fdc403c 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -971,7 +971,9 @@ double BoundaryEntropy<dim, entvar>::calcBndryFun(const mfem::Vector &x,
 {
    // evaluate the entropy, then return the scaled value
    double S = entropy<double, dim, entvar>(q.GetData());
-   double press = pressure<double, dim>(q.GetData());
+   double qcons[dim + 2];
+   calcConservativeVars<double, dim, entvar>(q.GetData(), qcons);
+   double press = pressure<double, dim>(qcons);
    S += euler::rho_ref*(press - euler::press_ref)/euler::press_ref;
    double scale = control_scale(len_scale, x_actuator, x);
    double dA = sqrt(dot<double, dim>(dir.GetData(), dir.GetData()));
-- 
2.43.0


From 298dc9fe63b2669334125f1db8ae0c53e8886425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 17/98] fix: LPSIntegrator: the Jacobian carries lps_coeff like
 the residual

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 54a7a80..fbd7699 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -410,7 +410,7 @@ void LPSIntegrator<Derived>::AssembleElementGrad(
          }
       }
    }
-   elmat *= alpha;
+   elmat *= alpha * lps_coeff;
 }
 
 template <typename Derived>
-- 
2.43.0


From 28436ca1021a525532deba9aa39ee0b258f99ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 18/98] fix: InviscidFaceIntegrator: scale the face energy and
 the Jacobian by alpha like the residual

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index fbd7699..1026007 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -665,7 +665,7 @@ double InviscidFaceIntegrator<Derived>::GetFaceEnergy(
       trans.Face->SetIntPoint(&ip_face);
       CalcOrtho(trans.Face->Jacobian(), nrm);
       nrm *= ip_face.weight;
-      fun += iFaceFun(nrm, u_face_left, u_face_right);
+      fun += alpha * iFaceFun(nrm, u_face_left, u_face_right);
    }
    return fun;
 }
@@ -810,10 +810,12 @@ void InviscidFaceIntegrator<Derived>::AssembleFaceGrad(
       // get the normal vector and the flux Jacobians on the face
       trans.Face->SetIntPoint(&ip_face);
       CalcOrtho(trans.Face->Jacobian(), nrm);
-      nrm *= alpha * ip_face.weight;
+      nrm *= ip_face.weight;
       // flux(nrm, u_face_left, u_face_right, flux_face);
       fluxJacStates(
           nrm, u_face_left, u_face_right, flux_jac_left, flux_jac_right);
+      flux_jac_left *= alpha;
+      flux_jac_right *= alpha;
 
       // insert flux Jacobians into element stiffness matrices
       const int offset = num_states * num_nodes_left;
-- 
2.43.0


From 0f999a3a18d3a5329c8e712d8a4ed1aadb1ba6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 19/98] fix: ViscousBoundaryIntegrator: scale the Jacobian and
 the test-derivative flux by alpha

---
 src/physics/fluidflow/viscous_integ_def.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/viscous_integ_def.hpp b/src/physics/fluidflow/viscous_integ_def.hpp
index b488822..53a06f1 100644
--- a/src/physics/fluidflow/viscous_integ_def.hpp
+++ b/src/physics/fluidflow/viscous_integ_def.hpp
@@ -429,7 +429,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceVector(
       // get the flux terms that are scaled by the test-function derivative
       // (reuse Dwi here)
       fluxDv(x, nrm, u_face, Dwi);
-      Dwi *= face_ip.weight;
+      Dwi *= alpha * face_ip.weight;
 
       // multiply flux_Dvi by the test-function derivative
       Dwi *= Hinv;
@@ -614,6 +614,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceGrad(
          }  // d loop
       }     // j loop
    }        // k/i loop
+   elmat *= alpha;
 }
 
 }  // namespace miso
-- 
2.43.0


From 424f188c7bb4b72b2b541af9e48bbc67e85562b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 20/98] fix: FlowResidual: refuse roll and pitch axes beyond
 the dimension of the mesh

---
 src/physics/fluidflow/flow_residual.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 6576d21..5a6d44d 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -416,6 +416,10 @@ void FlowResidual<dim, entvar>::setOptions_(const nlohmann::json &options)
    {
       throw MISOException("ipitch axis must be between 0 and 2!");
    }
+   if ((dim > 1) && ((iroll >= dim) || (ipitch >= dim)))
+   {
+      throw MISOException("iroll and ipitch must be axes of the mesh!");
+   }
    setOptions(res, options);
 }
 
-- 
2.43.0


From 4dd2b3567620eb3b49eb01d7d4f03c134d424606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 21/98] fix: FlowResidual: set the inputs before evaluating the
 Jacobian

---
 src/physics/fluidflow/flow_residual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 5a6d44d..f144f42 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -436,6 +436,7 @@ mfem::Operator &FlowResidual<dim, entvar>::getJacobian_(
     const MISOInputs &inputs,
     const string &wrt)
 {
+   setInputs(res, inputs);
    return getJacobian(res, inputs, wrt);
 }
 
-- 
2.43.0


From 0558acd6dc243872ff553b6a0346bb1f00e0f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 22/98] fix: EntropyOutput: the entropy is a scalar output

---
 src/common/miso_output.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/common/miso_output.hpp b/src/common/miso_output.hpp
index 9187623..571dcdb 100644
--- a/src/common/miso_output.hpp
+++ b/src/common/miso_output.hpp
@@ -306,10 +306,7 @@ template <typename T>
 class EntropyOutput final
 {
 public:
-   friend int getSize(const EntropyOutput &output)
-   {
-      return getSize(output.res);
-   }
+   friend int getSize(const EntropyOutput &output) { return 1; }
    friend void setInputs(EntropyOutput &output, const MISOInputs &inputs) { }
    friend void setOptions(EntropyOutput &output, const nlohmann::json &options)
    { }
-- 
2.43.0


From 82a946784dad1080c961989362b13f22a84b2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 23/98] fix: restrict marked domain integrators of
 MISONonlinearForm to their elements

---
 src/physics/miso_nonlinearform.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/miso_nonlinearform.hpp b/src/physics/miso_nonlinearform.hpp
index 091d207..4a3dbec 100644
--- a/src/physics/miso_nonlinearform.hpp
+++ b/src/physics/miso_nonlinearform.hpp
@@ -234,13 +234,13 @@ void MISONonlinearForm::addDomainIntegrator(T *integrator)
 template <typename T>
 void MISONonlinearForm::addDomainIntegrator(
     T *integrator,
-    const std::vector<int> &bdr_attr_marker)
+    const std::vector<int> &attr_marker)
 {
    integs.emplace_back(*integrator);
-   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->bdr_attributes.Max();
+   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->attributes.Max();
    auto &marker = domain_markers.emplace_back(mesh_attr_size);
-   attrVecToArray(bdr_attr_marker, marker);
-   nf.AddDomainIntegrator(integrator);
+   attrVecToArray(attr_marker, marker);
+   nf.AddDomainIntegrator(integrator, marker);
    addDomainSensitivityIntegrator(*integrator,
                                   nf_fields,
                                   rev_sens,
-- 
2.43.0


From 43e9f43a5606a99018b1f09e2e356b69967438fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 24/98] fix: leave essential rows out of scalar vector-Jacobian
 products

---
 src/common/miso_linearform.cpp     | 5 ++++-
 src/physics/miso_nonlinearform.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/miso_linearform.cpp b/src/common/miso_linearform.cpp
index 94921b9..c350c88 100644
--- a/src/common/miso_linearform.cpp
+++ b/src/common/miso_linearform.cpp
@@ -95,7 +95,10 @@ double vectorJacobianProduct(MISOLinearForm &load,
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
       /// func so we update it here
       auto &adjoint = load.lf_fields->at(load.adjoint_name);
-      adjoint.distributeSharedDofs(load_bar);
+      load.scratch.SetSize(load_bar.Size());
+      load.scratch = load_bar;
+      load.scratch.SetSubVector(load.getEssentialDofs(), 0.0);
+      adjoint.distributeSharedDofs(load.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index ed6284f..9bea4e2 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -262,7 +262,10 @@ double vectorJacobianProduct(MISONonlinearForm &form,
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
       /// func so we update it here
       auto &adjoint = form.nf_fields.at(form.adjoint_name);
-      adjoint.distributeSharedDofs(res_bar);
+      form.scratch.SetSize(res_bar.Size());
+      form.scratch = res_bar;
+      form.scratch.SetSubVector(form.getEssentialDofs(), 0.0);
+      adjoint.distributeSharedDofs(form.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
-- 
2.43.0


From f7e2383848ec175ea142afd6d6691bf3a9c89aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 25/98] fix: keep the free part of the adjoint when recovering
 its essential part

---
 src/physics/miso_nonlinearform.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 9bea4e2..cdabfa1 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -191,9 +191,6 @@ void finalizeAdjointSystem(MISONonlinearForm &form,
       return;
    }
 
-   /// New approach
-   adjoint.SetSubVector(ess_tdof_list, form.scratch);
-
    auto *hypre_jac_e = form.jac_e.As<mfem::HypreParMatrix>();
    if (hypre_jac_e == nullptr)
    {
@@ -202,7 +199,15 @@ void finalizeAdjointSystem(MISONonlinearForm &form,
           "Jacobian matrices assembled to a HypreParMatrix!\n");
    }
 
-   hypre_jac_e->MultTranspose(1.0, adjoint, -1.0, adjoint);
+   /// New approach: the essential rows of the Jacobian are identity, so
+   /// adjoint_e = state_bar_e - (jac_e^T adjoint)_e
+   form.adj_work1.SetSize(adjoint.Size());
+   hypre_jac_e->MultTranspose(1.0, adjoint, 0.0, form.adj_work1);
+   for (int i = 0; i < ess_tdof_list.Size(); ++i)
+   {
+      adjoint(ess_tdof_list[i]) =
+          form.scratch(i) - form.adj_work1(ess_tdof_list[i]);
+   }
 }
 
 double jacobianVectorProduct(MISONonlinearForm &form,
-- 
2.43.0


From 19975e46e192010ad9a9a1e3fadb70cabf536db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 26/98] fix: linearize a nonlinear form at the inputs it is
 given

---
 src/physics/miso_nonlinearform.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index cdabfa1..2cd0f5b 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -92,14 +92,8 @@ void linearize(MISONonlinearForm &form, const MISOInputs &inputs)
 {
    std::cout << "In linearize!\n";
    setInputs(form, inputs);
-   if (form.jac.Ptr() == nullptr)
-   {
-      getJacobian(form, inputs, "state");
-   }
-   if (form.jac_trans == nullptr)
-   {
-      getJacobianTranspose(form, inputs, "state");
-   }
+   getJacobian(form, inputs, "state");
+   getJacobianTranspose(form, inputs, "state");
 }
 
 mfem::Operator &getJacobian(MISONonlinearForm &form,
-- 
2.43.0


From b9f4d80660618ea21a67dcf64a6f0c066dfe36f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 27/98] fix: differentiate a functional output with respect to
 the state it is named after

---
 src/common/functional_output.cpp | 19 ++++++++++---------
 src/common/functional_output.hpp |  7 +++++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 158e5dc..8aa35c2 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -78,10 +78,10 @@ void calcOutputPartial(FunctionalOutput &output,
 {
    setInputs(output, inputs);
 
-   if (wrt == "state")
+   if (output.isState(wrt))
    {
       Vector state;
-      setVectorFromInputs(inputs, "state", state, false, true);
+      setVectorFromInputs(inputs, output.state_name, state, false, true);
       output.output.Mult(state, partial);
    }
    else
@@ -96,10 +96,10 @@ double jacobianVectorProduct(FunctionalOutput &output,
                              const std::string &wrt)
 {
    output.scratch.SetSize(wrt_dot.Size());
-   if (wrt == "state")
+   if (output.isState(wrt))
    {
       Vector state;
-      output.func_fields->at("state").setTrueVec(state);
+      output.func_fields->at(output.state_name).setTrueVec(state);
       output.output.Mult(state, output.scratch);
    }
    else
@@ -107,8 +107,9 @@ double jacobianVectorProduct(FunctionalOutput &output,
       if (wrt_dot.Size() == 1)
       {
          Vector state;
-         output.func_fields->at("state").setTrueVec(state);
-         const auto &state_gf = output.func_fields->at("state").gridFunc();
+         output.func_fields->at(output.state_name).setTrueVec(state);
+         const auto &state_gf =
+             output.func_fields->at(output.state_name).gridFunc();
 
          auto wrt_key = wrt.substr(0, wrt.find(':'));
          // output.scratch(0) =
@@ -134,7 +135,7 @@ double vectorJacobianProduct(FunctionalOutput &output,
 {
    // Vector state;
    // output.func_fields->at("state").setTrueVec(state);
-   const auto &state_gf = output.func_fields->at("state").gridFunc();
+   const auto &state_gf = output.func_fields->at(output.state_name).gridFunc();
 
    auto wrt_key = wrt.substr(0, wrt.find(':'));
    // double sens = output.output_scalar_sens.at(wrt_key).GetEnergy(state);
@@ -151,10 +152,10 @@ void vectorJacobianProduct(FunctionalOutput &output,
                            mfem::Vector &wrt_bar)
 {
    output.scratch.SetSize(wrt_bar.Size());
-   if (wrt == "state")
+   if (output.isState(wrt))
    {
       Vector state;
-      output.func_fields->at("state").setTrueVec(state);
+      output.func_fields->at(output.state_name).setTrueVec(state);
       output.output.Mult(state, output.scratch);
    }
    else
diff --git a/src/common/functional_output.hpp b/src/common/functional_output.hpp
index 5556364..30fd9da 100644
--- a/src/common/functional_output.hpp
+++ b/src/common/functional_output.hpp
@@ -128,6 +128,13 @@ public:
    { }
 
 protected:
+   /// true if the derivative with respect to \a wrt is the gradient of the
+   /// nonlinear form, and not one of the registered sensitivities
+   bool isState(const std::string &wrt) const
+   {
+      return wrt == state_name && output_sens.find(wrt) == output_sens.end();
+   }
+
    /// underlying nonlinear form object
    mfem::ParNonlinearForm output;
    /// work vector
-- 
2.43.0


From 64140e8a1c70dd703d1d5e1705fe3e7abb3998e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 28/98] fix: size the work vector of StateIntegrator, left
 unallocated for elements that do not resize it

---
 src/physics/mfem_common_integ.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 77259cd..3698853 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -302,6 +302,7 @@ double StateIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
+   shape.SetSize(el.GetDof());
    double fun = 0.0;
    for (int i = 0; i < ir->GetNPoints(); ++i)
    {
@@ -321,6 +322,7 @@ void StateIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
+   shape.SetSize(el.GetDof());
    elfun_bar.SetSize(elfun.Size());
    elfun_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); ++i)
-- 
2.43.0


From 93ad3f66d62e60b94524718acb7d78ed0aae8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 29/98] fix: IEAggregateFunctional kept a pointer to a
 temporary set of inputs after calcOutput

---
 src/physics/common_outputs.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index 7a91fd9..a030788 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -293,7 +293,10 @@ public:
       mfem::Vector state;
       setVectorFromInputs(inputs, "state", state);
       double true_max = state.Max();
-      setInputs(output, {{"true_max", true_max}});
+      const MISOInputs max_inputs{{"true_max", true_max}};
+      setInputs(output.numerator, max_inputs);
+      setInputs(output.denominator, max_inputs);
+      output.inputs = &inputs;
 
       double num = calcOutput(output.numerator, inputs);
       double denom = calcOutput(output.denominator, inputs);
-- 
2.43.0


From cfe8f11b25112a434c640b002de12eec67f1072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 30/98] fix: IEAggregateFunctional scaled by the maximum of
 "state", not of the field it aggregates

---
 src/physics/common_outputs.cpp | 5 +++--
 src/physics/common_outputs.hpp | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 0804a0e..6055a01 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -197,8 +197,9 @@ IEAggregateFunctional::IEAggregateFunctional(
     mfem::ParFiniteElementSpace &fes,
     std::map<std::string, FiniteElementState> &fields,
     const nlohmann::json &options)
- : numerator(fes, fields, options.value("state", "state")),
-   denominator(fes, fields, options.value("state", "state"))
+ : state_name(options.value("state", "state")),
+   numerator(fes, fields, state_name),
+   denominator(fes, fields, state_name)
 {
    auto rho = options.value("rho", 1.0);
    // auto state_name = options.value("state", "state");
diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index a030788..4968f7f 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -291,7 +291,7 @@ public:
                             const MISOInputs &inputs)
    {
       mfem::Vector state;
-      setVectorFromInputs(inputs, "state", state);
+      setVectorFromInputs(inputs, output.state_name, state);
       double true_max = state.Max();
       const MISOInputs max_inputs{{"true_max", true_max}};
       setInputs(output.numerator, max_inputs);
@@ -321,6 +321,8 @@ public:
                          const nlohmann::json &options);
 
 private:
+   /// name of the field that is aggregated
+   std::string state_name;
    FunctionalOutput numerator;
    FunctionalOutput denominator;
    MISOInputs const *inputs = nullptr;
-- 
2.43.0


From aee0d3cd4e22abf156469f3cd4086f4c916799b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 31/98] fix: mesh sensitivity of the edge-element mass term
 ignored alpha in the Jacobian weight

---
 src/physics/mfem_common_integ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 3698853..ee571af 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -2847,7 +2847,8 @@ void VectorFEMassIntegratorMeshSens::AssembleRHSElementVect(
       MultAtB(vshape, vshapedxt_bar, adj_jac_bar);
 
       /// double w = alpha * ip.weight / trans.Weight();
-      double trans_weight_bar = -w_bar * ip.weight / pow(trans.Weight(), 2);
+      double trans_weight_bar =
+          -w_bar * alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 9321d39d1e83dc3fd6306264ff56b76cf19aaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 32/98] fix: mesh sensitivity of the domain load used another
 quadrature rule than the load on tensor-product elements

---
 src/physics/mfem_common_integ.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index ee571af..25ba445 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3158,27 +3158,9 @@ void DomainLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = [&]()
-      {
-         if (el.Space() == FunctionSpace::Pk)
-         {
-            return 2 * el.GetOrder() - 2;
-         }
-         else
-         {
-            // order = 2*el.GetOrder() - 2;  // <-- this seems to work fine too
-            return 2 * el.GetOrder() + el.GetDim() - 1;
-         }
-      }();
-
-      if (el.Space() == FunctionSpace::rQk)
-      {
-         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
-      }
-      else
-      {
-         ir = &IntRules.Get(el.GetGeomType(), order);
-      }
+      /// the rule of the primal integrator
+      int order = 2 * el.GetOrder() - 2;
+      ir = &IntRules.Get(el.GetGeomType(), order);
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From e0620268d99232c71a3da65194c26fa96b83151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 33/98] fix: component with a single attr takes its own
 coefficient model, not the default one

---
 src/physics/electromagnetics/cal2_ke_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/cal2_kh_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/demag_flux_coefficient.cpp    | 4 ++--
 src/physics/electromagnetics/pm_demag_constraint_coeff.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index a7d7070..75db13f 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index 029cf72..aba0ae7 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/demag_flux_coefficient.cpp b/src/physics/electromagnetics/demag_flux_coefficient.cpp
index 6e88fff..51edacd 100644
--- a/src/physics/electromagnetics/demag_flux_coefficient.cpp
+++ b/src/physics/electromagnetics/demag_flux_coefficient.cpp
@@ -228,7 +228,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
@@ -251,7 +251,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
index d5006d4..c75f328 100644
--- a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
+++ b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
@@ -467,7 +467,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
@@ -492,7 +492,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
-- 
2.43.0


From 6c441fd4b40de2bb1805d31511f4e44a0fbfaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 34/98] fix: derivatives of the CAL2 coefficients at zero flux
 density are not NaN

---
 .../electromagnetics/cal2_ke_coefficient.cpp     | 16 ++++++++--------
 .../electromagnetics/cal2_kh_coefficient.cpp     | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index 75db13f..b6adb48 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarEddyCurrentLossCoeff::EvalDerivS3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3(
 
    // double dke_T0_f_BdB_m = 0.0;
    double d2ke_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // dke_T0_f_BdB_m += i*ke_T0[i]*std::pow(B_m,i-1);
       d2ke_T0_f_BdB_m2 += (i - 1) * i * ke_T0[i] * std::pow(B_m, i - 2);
    }
    double dke_T1_f_BdB_m = 0.0;
    double d2ke_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // dke_T1_f_BdB_m += i*ke_T1[i]*std::pow(B_m,i-1);
       d2ke_T1_f_BdB_m2 += (i - 1) * i * ke_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS1S3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3S1(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index aba0ae7..242dfe1 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarHysteresisLossCoeff::EvalDerivS3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3(
 
    // double dkh_T0_f_BdB_m = 0.0;
    double d2kh_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // dkh_T0_f_BdB_m += i*kh_T0[i]*std::pow(B_m,i-1);
       d2kh_T0_f_BdB_m2 += (i - 1) * i * kh_T0[i] * std::pow(B_m, i - 2);
    }
    // double dkh_T1_f_BdB_m = 0.0;
    double d2kh_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // dkh_T1_f_BdB_m += i*kh_T1[i]*std::pow(B_m,i-1);
       d2kh_T1_f_BdB_m2 += (i - 1) * i * kh_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS1S3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3S1(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
-- 
2.43.0


From 3bd7e11d9702132dca6c24e72f344ca83c9ed774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 35/98] fix: stator current sources refer to the stored inputs,
 not to expired locals

---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 596a771..6b1da0c 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -729,9 +729,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          if (source == "cwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
@@ -764,9 +764,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          else if (source == "ccwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
-- 
2.43.0


From 19d4e55d955b9f5d11ed3db07ebcca50f986937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 36/98] fix: restoring the current density skips cached inputs
 that are not current groups

---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 6b1da0c..f1c0ffe 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -664,9 +664,9 @@ void CurrentDensityCoefficient::zeroCurrentDensity()
 
 void CurrentDensityCoefficient::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
@@ -999,9 +999,9 @@ void CurrentDensityCoefficient2D::zeroCurrentDensity()
 
 void CurrentDensityCoefficient2D::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
-- 
2.43.0


From 9b49990344ea3a7f6778ada7b9c64da90d3d7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 37/98] fix: second derivative of the B-H spline reluctivity,
 and its derivatives at zero flux

---
 .../reluctivity_coefficient.cpp               | 53 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/reluctivity_coefficient.cpp b/src/physics/electromagnetics/reluctivity_coefficient.cpp
index 5e9f908..e743f9d 100644
--- a/src/physics/electromagnetics/reluctivity_coefficient.cpp
+++ b/src/physics/electromagnetics/reluctivity_coefficient.cpp
@@ -99,6 +99,10 @@ public:
                          const mfem::IntegrationPoint &ip,
                          double state) override;
 
+   double EvalState2ndDeriv(mfem::ElementTransformation &trans,
+                            const mfem::IntegrationPoint &ip,
+                            const double state) override;
+
    void EvalRevDiff(const double Q_bar,
                     mfem::ElementTransformation &trans,
                     const mfem::IntegrationPoint &ip,
@@ -117,6 +121,10 @@ protected:
    std::unique_ptr<tinyspline::BSpline> bh;
    /// spline representing dH(B)/dB
    std::unique_ptr<tinyspline::BSpline> dbdh;
+   /// spline representing d2H(B)/dB2
+   std::unique_ptr<tinyspline::BSpline> d2bdh2;
+   /// spline representing d3H(B)/dB3
+   std::unique_ptr<tinyspline::BSpline> d3bdh3;
 };
 
 class team13ReluctivityCoefficient : public miso::StateCoefficient
@@ -496,6 +504,14 @@ BHBSplineReluctivityCoefficient::BHBSplineReluctivityCoefficient(
    bh->setKnots(scaled_knots);
 
    dbdh = std::make_unique<tinyspline::BSpline>(bh->derive());
+   if (degree > 1)
+   {
+      d2bdh2 = std::make_unique<tinyspline::BSpline>(dbdh->derive());
+   }
+   if (degree > 2)
+   {
+      d3bdh3 = std::make_unique<tinyspline::BSpline>(d2bdh2->derive());
+   }
    // dnudb = nu.derive();
 }
 
@@ -531,8 +547,13 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
 {
    constexpr double nu0 = 1 / (4e-7 * M_PI);
 
-   /// TODO: handle state == 0
-   if (state <= b_max)
+   if (state <= 1e-14)
+   {
+      /// limit of d(H/B)/dB as B vanishes
+      double t = state / b_max;
+      return d2bdh2 ? d2bdh2->eval(t).result()[0] / (2 * pow(b_max, 2)) : 0.0;
+   }
+   else if (state <= b_max)
    {
       double t = state / b_max;
       double h = bh->eval(t).result()[0];
@@ -544,6 +565,34 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
    }
 }
 
+double BHBSplineReluctivityCoefficient::EvalState2ndDeriv(
+    mfem::ElementTransformation &trans,
+    const mfem::IntegrationPoint &ip,
+    const double state)
+{
+   constexpr double nu0 = 1 / (4e-7 * M_PI);
+
+   if (state <= 1e-14)
+   {
+      /// limit of d2(H/B)/dB2 as B vanishes
+      double t = state / b_max;
+      return d3bdh3 ? d3bdh3->eval(t).result()[0] / (3 * pow(b_max, 3)) : 0.0;
+   }
+   else if (state <= b_max)
+   {
+      double t = state / b_max;
+      double h = bh->eval(t).result()[0];
+      double dhdb = dbdh->eval(t).result()[0] / b_max;
+      double d2hdb2 =
+          d2bdh2 ? d2bdh2->eval(t).result()[0] / pow(b_max, 2) : 0.0;
+      return d2hdb2 / state - 2 * dhdb / pow(state, 2) + 2 * h / pow(state, 3);
+   }
+   else
+   {
+      return 2 * (h_max - nu0 * b_max) / pow(state, 3);
+   }
+}
+
 // BHBSplineReluctivityCoefficient::~BHBSplineReluctivityCoefficient() =
 // default;
 
-- 
2.43.0


From 02ef2f48eae25d8a00ef89d71973224ab1d87ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 38/98] fix: DG diffusion Jacobians evaluate the material
 derivative at the element's point, not the face's

---
 src/physics/electromagnetics/electromag_integ.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index e9988ca..77264ab 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -628,7 +628,7 @@ void NonlinearDGDiffusionIntegrator::AssembleFaceGrad(
 
       double model_val = model.Eval(*trans.Elem1, eip1, pointflux_norm);
       double model_deriv =
-          model.EvalStateDeriv(*trans.Elem1, ip, pointflux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, pointflux_norm);
       pointflux_norm_dot *= model_deriv;
 
       dshapedxt.Mult(nor, dshapedn);
@@ -858,7 +858,7 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// double model_val = model.Eval(trans, eip1, ip_flux_norm);
       const double model_val_dot =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux_norm);
       double ip_flux_norm_bar = model_val_bar * model_val_dot;
 
       /// const double ip_flux_norm = ip_flux.Norml2();
@@ -1164,12 +1164,12 @@ void DGInteriorFaceDiffusionIntegrator::AssembleFaceGrad(
 
       const double model_val1 = model.Eval(*trans.Elem1, eip1, ip_flux1_norm);
       double model_deriv1 =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux1_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux1_norm);
       ip_flux1_norm_dot *= model_deriv1;
 
       const double model_val2 = model.Eval(*trans.Elem2, eip2, ip_flux2_norm);
       double model_deriv2 =
-          model.EvalStateDeriv(*trans.Elem2, ip, ip_flux2_norm);
+          model.EvalStateDeriv(*trans.Elem2, eip2, ip_flux2_norm);
       ip_flux2_norm_dot *= model_deriv2;
 
       elmat11 = 0.0;
-- 
2.43.0


From 3947f1c917e019c70ad27c654afb736f2b36ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 39/98] fix: mesh sensitivities on boundary faces scattered by
 the boundary element's node order, not the face's

---
 src/physics/electromagnetics/electromag_integ.cpp | 10 ++++++++--
 src/physics/thermal/thermal_integ.cpp             | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 77264ab..373a2c0 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -691,7 +691,10 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    }
 
    dof_tr = mesh_fes.GetElementVDofs(trans.Elem1->ElementNo, vdofs);
-   mesh_fes.GetBdrElementVDofs(trans.ElementNo, vdofs2);
+   // in the order of the face's transformation, which the boundary element may
+   // list differently
+   mesh_fes.GetFaceVDofs(
+       mesh_fes.GetMesh()->GetBdrElementEdgeIndex(trans.ElementNo), vdofs2);
 
 #ifdef MFEM_THREAD_SAFE
    mfem::Vector shape;
@@ -1353,7 +1356,10 @@ void DGInteriorFaceDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    }
    else
    {
-      mesh_fes.GetBdrElementVDofs(trans.ElementNo, vdofs2);
+      // in the order of the face's transformation, which the boundary element may
+      // list differently
+      mesh_fes.GetFaceVDofs(
+          mesh_fes.GetMesh()->GetBdrElementEdgeIndex(trans.ElementNo), vdofs2);
    }
 
 #ifdef MFEM_THREAD_SAFE
diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 04c0f4e..8695f66 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -569,7 +569,10 @@ void ThermalContactResistanceIntegratorMeshRevSens::AssembleRHSElementVect(
    }
    else
    {
-      mesh_fes.GetBdrElementVDofs(trans.ElementNo, vdofs2);
+      // in the order of the face's transformation, which the boundary element may
+      // list differently
+      mesh_fes.GetFaceVDofs(
+          mesh_fes.GetMesh()->GetBdrElementEdgeIndex(trans.ElementNo), vdofs2);
    }
 
 #ifdef MFEM_THREAD_SAFE
@@ -1031,7 +1034,10 @@ void InternalConvectionInterfaceIntegratorMeshRevSens::AssembleRHSElementVect(
    }
    else
    {
-      mesh_fes.GetBdrElementVDofs(trans.ElementNo, vdofs2);
+      // in the order of the face's transformation, which the boundary element may
+      // list differently
+      mesh_fes.GetFaceVDofs(
+          mesh_fes.GetMesh()->GetBdrElementEdgeIndex(trans.ElementNo), vdofs2);
    }
 
 #ifdef MFEM_THREAD_SAFE
-- 
2.43.0


From e497a74a74a6a3370cd4d8050eb5d7b44dcd847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 40/98] fix: mesh sensitivity of the DG boundary diffusion used
 another quadrature rule than its residual

---
 src/physics/electromagnetics/electromag_integ.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 373a2c0..22936aa 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -749,7 +749,17 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    const mfem::IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * el.GetOrder();
+      int order = [&]()
+      {
+         if (el.Space() == FunctionSpace::Pk)
+         {
+            return 2 * el.GetOrder();
+         }
+         else
+         {
+            return 2 * el.GetOrder() + el.GetDim();
+         }
+      }();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From c442a88a15ee930198be3a6dd81bf1d1f51b9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 41/98] fix: derivatives of the EM forms and energy are
 not-a-number where the flux vanishes

---
 .../electromagnetics/electromag_integ.cpp     | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 22936aa..07fc625 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -876,7 +876,10 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// const double ip_flux_norm = ip_flux.Norml2();
       ip_flux_bar = 0.0;
-      ip_flux_bar.Add(ip_flux_norm_bar / ip_flux_norm, ip_flux);
+      if (ip_flux_norm > 1e-14)
+      {
+         ip_flux_bar.Add(ip_flux_norm_bar / ip_flux_norm, ip_flux);
+      }
 
       /// dshapedxt.MultTranspose(elfun, ip_flux);
       AddMultVWt(elfun, ip_flux_bar, dshapedxt_bar);
@@ -3595,7 +3598,10 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       double b_vec_bar_buffer[3] = {};
       Vector b_vec_bar(b_vec_bar_buffer, dim);
       b_vec_bar = 0.0;
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// const double curl_psi_dot_b = curl_psi * b_vec;
       double curl_psi_bar_buffer[3] = {};
@@ -4497,7 +4503,10 @@ void MagneticEnergyIntegrator::AssembleElementVector(
 
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, b_vec);
       curlshape_dFt.AddMult(b_vec_bar, elfun_bar);
@@ -4626,7 +4635,10 @@ void MagneticEnergyIntegratorMeshSens::AssembleRHSElementVect(
 
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       PointMat_bar = 0.0;
       if (dim == 3)
@@ -4723,7 +4735,10 @@ void MagneticEnergyIntegratorMeshSens::AssembleRHSElementVect(
       Vector b_vec_bar(curl_dim);
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, b_vec);
       MultVWt(b_vec_bar, elfun, curlshape_dFt_bar);
-- 
2.43.0


From a9dfcde4d97fa4f75af0fd5666e85d0f96ec3631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 42/98] fix: electromagnetic force is not-a-number on an
 element without flux

---
 .../electromagnetics/electromag_integ.cpp      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 07fc625..d67cd47 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -9813,6 +9813,12 @@ double ForceIntegrator3::GetElementEnergy(const FiniteElement &el,
       curlshape_dFt.MultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
       const double b_mag = b_vec_norm / trans_weight;
+      /// the energy and its force are quadratic in the flux: no contribution,
+      /// and no direction to differentiate the norm in
+      if (b_vec_norm < 1e-14)
+      {
+         continue;
+      }
 
       /// compute d(b_mag)/dJ
       double db_magdJ_buffer[9] = {};
@@ -9975,6 +9981,12 @@ void ForceIntegrator3::AssembleElementVector(const FiniteElement &el,
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
       const double b_mag = b_vec_norm / trans_weight;
+      /// the energy and its force are quadratic in the flux: no contribution,
+      /// and no direction to differentiate the norm in
+      if (b_vec_norm < 1e-14)
+      {
+         continue;
+      }
 
       /// compute d(b_mag)/dJ
       double db_magdJ_buffer[9] = {};
@@ -10313,6 +10325,12 @@ void ForceIntegratorMeshSens3::AssembleRHSElementVect(
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
       const double b_mag = b_vec_norm / trans_weight;
+      /// the energy and its force are quadratic in the flux: no contribution,
+      /// and no direction to differentiate the norm in
+      if (b_vec_norm < 1e-14)
+      {
+         continue;
+      }
 
       /// compute d(b_mag)/dJ
       double db_magdJ_buffer[9] = {};
-- 
2.43.0


From 99c54e1241fab2a020097d0bff51c1fe5f24bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 43/98] fix: sensitivities of a curl-curl form restricted to
 some attributes were taken over all elements

---
 .../electromagnetics/electromag_integ.hpp     | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.hpp b/src/physics/electromagnetics/electromag_integ.hpp
index bdbfd5f..32e0d0c 100644
--- a/src/physics/electromagnetics/electromag_integ.hpp
+++ b/src/physics/electromagnetics/electromag_integ.hpp
@@ -959,28 +959,41 @@ inline void addDomainSensitivityIntegrator(
    auto &state = fields.at("state");
    auto &state_fes = fields.at("state").space();
    rev_sens.emplace("state", &state_fes);
-   rev_sens.at("state").AddDomainIntegrator(
+   auto *state_rev_sens =
        new CurlCurlNLFIntegratorStateRevSens(fields.at("state").gridFunc(),
                                              fields.at(adjoint_name).gridFunc(),
-                                             primal_integ));
+                                             primal_integ);
 
    fields.emplace(std::piecewise_construct,
                   std::forward_as_tuple("state_dot"),
                   std::forward_as_tuple(state.mesh(), state_fes));
 
    fwd_sens.emplace("state", &state_fes);
-   fwd_sens.at("state").AddDomainIntegrator(
+   auto *state_fwd_sens =
        new CurlCurlNLFIntegratorStateFwdSens(fields.at("state").gridFunc(),
                                              fields.at("state_dot").gridFunc(),
-                                             primal_integ));
+                                             primal_integ);
 
    auto &mesh_fes = fields.at("mesh_coords").space();
    rev_sens.emplace("mesh_coords", &mesh_fes);
-   rev_sens.at("mesh_coords")
-       .AddDomainIntegrator(new CurlCurlNLFIntegratorMeshRevSens(
-           fields.at("state").gridFunc(),
-           fields.at(adjoint_name).gridFunc(),
-           primal_integ));
+   auto *mesh_rev_sens =
+       new CurlCurlNLFIntegratorMeshRevSens(fields.at("state").gridFunc(),
+                                            fields.at(adjoint_name).gridFunc(),
+                                            primal_integ);
+
+   if (attr_marker == nullptr)
+   {
+      rev_sens.at("state").AddDomainIntegrator(state_rev_sens);
+      fwd_sens.at("state").AddDomainIntegrator(state_fwd_sens);
+      rev_sens.at("mesh_coords").AddDomainIntegrator(mesh_rev_sens);
+   }
+   else
+   {
+      rev_sens.at("state").AddDomainIntegrator(state_rev_sens, *attr_marker);
+      fwd_sens.at("state").AddDomainIntegrator(state_fwd_sens, *attr_marker);
+      rev_sens.at("mesh_coords")
+          .AddDomainIntegrator(mesh_rev_sens, *attr_marker);
+   }
 }
 
 /// Integrator for (\nu(u) M, curl v) for Nedelec Elements
-- 
2.43.0


From d9f58d9045e977bbb3ebc3c36fddc31e986a1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 44/98] fix: mesh sensitivity of a scaled curl-curl form
 ignored the scale

---
 src/physics/electromagnetics/electromag_integ.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index d67cd47..a93a144 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3549,7 +3549,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       const IntegrationPoint &ip = ir->IntPoint(i);
       isotrans.SetIntPoint(&ip);
 
-      const double w = ip.weight / trans.Weight();
+      const double w = integ.alpha * ip.weight / trans.Weight();
 
       if (dim == 3)
       {
@@ -3622,8 +3622,9 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       jac_bar = 0.0;
       AddMult(curlshape_dFt_bar, curlshape, jac_bar);
 
-      /// const double w = ip.weight / trans.Weight();
-      trans_weight_bar -= w_bar * ip.weight / pow(trans.Weight(), 2);
+      /// const double w = integ.alpha * ip.weight / trans.Weight();
+      trans_weight_bar -=
+          w_bar * integ.alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 9f87b4b90e2d6a9da52cbebe6c2295bc81e396fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 45/98] fix: frequency derivative of the AC loss used the wrong
 power of the strand radius

---
 src/physics/electromagnetics/electromag_outputs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 8266cd0..62ae9c4 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -749,7 +749,7 @@ double jacobianVectorProduct(ACLossFunctional &output,
       //                      pow(output.radius, 4) *
       //                      pow(2 * M_PI * output.freq, 2) / 8.0;
       double strand_loss_dot = 2 * sigma_b2 * output.stack_length * M_PI *
-                               pow(output.radius, 3) * output.freq *
+                               pow(output.radius, 4) * output.freq *
                                pow(2 * M_PI, 2) / 8.0 * wrt_dot(0);
 
       double num_strands =
-- 
2.43.0


From ad311ab000a90dc01293fedad1796c75f230b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 46/98] fix: demagnetization constraint negated its running sum
 at every quadrature point

---
 src/physics/electromagnetics/electromag_integ.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index a93a144..90b96ae 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -13125,13 +13125,12 @@ double PMDemagIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
       // ", C(B,T)=" << constraint_val << "\n"; Add the contribution to the
       // overall Permanent Magnet Demagnetization constraint equation value
       fun += constraint_val * w;
-
-      /// TODO: Negating PMDM constraint for IE constraint agg purposes (so
-      /// becomes a max rather than a min). Decide if want to move this logic
-      /// to the coefficient level
-      fun *= -1;
    }
-   return fun;
+
+   /// TODO: Negating PMDM constraint for IE constraint agg purposes (so
+   /// becomes a max rather than a min). Decide if want to move this logic
+   /// to the coefficient level
+   return -fun;
 }
 
 void PMDemagIntegrator::AssembleElementVector(
-- 
2.43.0


From 070d6b2fd99e7f754359235d9b9de8601b026ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 47/98] fix: contact conductance sensitivity used another
 quadrature rule than the residual

---
 src/physics/thermal/thermal_integ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 8695f66..ccb7dec 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -751,7 +751,7 @@ double ThermalContactResistanceIntegratorHRevSens::GetFaceEnergy(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From 3aa832e7ca373f56105dad30f3c32b3e66ccbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 48/98] fix: derivatives of the internal convection interface
 used another quadrature rule than the residual

---
 src/physics/thermal/thermal_integ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index ccb7dec..1b21d3d 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -919,7 +919,7 @@ void InternalConvectionInterfaceIntegrator::AssembleFaceGrad(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -1059,7 +1059,7 @@ void InternalConvectionInterfaceIntegratorMeshRevSens::AssembleRHSElementVect(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From 55630eb7812216370ddba75b8e1c723053d5e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 49/98] fix: mesh sensitivity of thermal boundary conditions
 mixed up face and boundary-element node order

---
 src/physics/thermal/thermal_integ.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 1b21d3d..f841620 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -1485,6 +1485,13 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
    const int ndof = el1.GetDof();
    const int space_dim = trans.GetSpaceDim();
 
+   const auto &mesh = *state.FESpace()->GetMesh();
+   const auto &mesh_fes = *mesh.GetNodes()->FESpace();
+   mfem::Array<int> face_vdofs;
+   mfem::Array<int> bdr_vdofs;
+   mesh_fes.GetFaceVDofs(mesh.GetBdrElementEdgeIndex(element), face_vdofs);
+   mesh_fes.GetBdrElementVDofs(element, bdr_vdofs);
+
    /// get the proper element, transformation, and state vector
 #ifdef MFEM_THREAD_SAFE
    mfem::Array<int> vdofs;
@@ -1564,12 +1571,14 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
       PointMat_bar = 0.0;
       trans.WeightRevDiff(trans_weight_bar, PointMat_bar);
 
-      // code to insert PointMat_bar into mesh_coords_bar;
+      // code to insert PointMat_bar, which numbers the nodes of the face, into
+      // mesh_coords_bar, which numbers those of the boundary element;
       for (int j = 0; j < mesh_ndof; ++j)
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            const int idx = bdr_vdofs.Find(face_vdofs[k * mesh_ndof + j]);
+            mesh_coords_bar(idx) += PointMat_bar(k, j);
          }
       }
    }
@@ -1802,6 +1811,13 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
    const int ndof = el1.GetDof();
    const int space_dim = trans.GetSpaceDim();
 
+   const auto &mesh = *state.FESpace()->GetMesh();
+   const auto &mesh_fes = *mesh.GetNodes()->FESpace();
+   mfem::Array<int> face_vdofs;
+   mfem::Array<int> bdr_vdofs;
+   mesh_fes.GetFaceVDofs(mesh.GetBdrElementEdgeIndex(element), face_vdofs);
+   mesh_fes.GetBdrElementVDofs(element, bdr_vdofs);
+
    /// get the proper element, transformation, and state vector
 #ifdef MFEM_THREAD_SAFE
    mfem::Array<int> vdofs;
@@ -1878,12 +1894,14 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
       PointMat_bar = 0.0;
       trans.WeightRevDiff(trans_weight_bar, PointMat_bar);
 
-      // code to insert PointMat_bar into mesh_coords_bar;
+      // code to insert PointMat_bar, which numbers the nodes of the face, into
+      // mesh_coords_bar, which numbers those of the boundary element;
       for (int j = 0; j < mesh_ndof; ++j)
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            const int idx = bdr_vdofs.Find(face_vdofs[k * mesh_ndof + j]);
+            mesh_coords_bar(idx) += PointMat_bar(k, j);
          }
       }
    }
-- 
2.43.0


From e231e1593459730add56f15db8b4dba376430f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 50/98] fix: thermal residual zeroed the essential entries of
 the caller's thermal load

---
 src/physics/thermal/thermal_residual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index c2a1ebc..8422550 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -23,7 +23,8 @@ void setInputs(ThermalResidual &residual, const miso::MISOInputs &inputs)
 
    setInputs(residual.res, inputs);
 
-   setVectorFromInputs(inputs, "thermal_load", residual.load);
+   // copy the load, since its essential entries are zeroed below
+   setVectorFromInputs(inputs, "thermal_load", residual.load, true);
    if (residual.load.Size() != 0)
    {
       residual.load.SetSubVector(residual.res.getEssentialDofs(), 0.0);
-- 
2.43.0


From 3df10cebb3994785890ca0ae0a777127d5f98078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 51/98] fix: thermal load products overwrote the result and
 included essential entries

---
 src/physics/thermal/thermal_residual.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index 8422550..db28a1c 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -106,8 +106,10 @@ void jacobianVectorProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      res_dot = 0.0;
-      res_dot.Add(-1.0, wrt_dot);
+      // The residual does not depend on the essential entries of the load
+      mfem::Vector load_dot(wrt_dot);
+      load_dot.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      res_dot.Add(-1.0, load_dot);
       return;
    }
    // if wrt starts with prefix "temperature"
@@ -142,8 +144,10 @@ void vectorJacobianProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      wrt_bar = 0.0;
-      wrt_bar.Add(-1.0, res_bar);
+      // The residual does not depend on the essential entries of the load
+      mfem::Vector load_bar(res_bar);
+      load_bar.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      wrt_bar.Add(-1.0, load_bar);
       return;
    }
    // if wrt starts with prefix "temperature"
-- 
2.43.0


From 21191f6771cd52e74d7b2ad0f295270821aacf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 52/98] fix: current density products of the magnetostatic
 residual included the magnets

---
 .../magnetostatic_residual.cpp                 | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 5817318..39ecf2c 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -177,12 +177,15 @@ void jacobianVectorProduct(MagnetostaticResidual &residual,
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
 
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(*residual.current_coeff, inputs);
-
+      // sources other than the current do not depend on the current density
       residual.scratch.SetSize(res_dot.Size());
       residual.scratch = 0.0;
       addLoad(*residual.load, residual.scratch);
+      residual.scratch.Neg();
+
+      MISOInputs inputs{{wrt, 1.0}};
+      setInputs(*residual.current_coeff, inputs);
+      addLoad(*residual.load, residual.scratch);
       residual.current_coeff->resetCurrentDensityFromCache();
 
       residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
@@ -203,12 +206,15 @@ double vectorJacobianProduct(MagnetostaticResidual &residual,
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
 
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(*residual.current_coeff, inputs);
-
+      // sources other than the current do not depend on the current density
       residual.scratch.SetSize(res_bar.Size());
       residual.scratch = 0.0;
       addLoad(*residual.load, residual.scratch);
+      residual.scratch.Neg();
+
+      MISOInputs inputs{{wrt, 1.0}};
+      setInputs(*residual.current_coeff, inputs);
+      addLoad(*residual.load, residual.scratch);
       residual.current_coeff->resetCurrentDensityFromCache();
 
       residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
-- 
2.43.0


From 74fc09fdfe33939874803483cf2b55028c1bb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 53/98] fix: current density products dereferenced a null
 coefficient without 2D currents

---
 .../electromagnetics/magnetostatic_residual.cpp        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 39ecf2c..68222bd 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -171,8 +171,9 @@ void jacobianVectorProduct(MagnetostaticResidual &residual,
                            const std::string &wrt,
                            mfem::Vector &res_dot)
 {
-   // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   // if wrt starts with prefix "current_density:" and the residual itself holds
+   // the current (in 3D the load does)
+   if (residual.current_coeff != nullptr && wrt.rfind("current_density:", 0) == 0)
    {
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
@@ -200,8 +201,9 @@ double vectorJacobianProduct(MagnetostaticResidual &residual,
                              const mfem::Vector &res_bar,
                              const std::string &wrt)
 {
-   // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   // if wrt starts with prefix "current_density:" and the residual itself holds
+   // the current (in 3D the load does)
+   if (residual.current_coeff != nullptr && wrt.rfind("current_density:", 0) == 0)
    {
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
-- 
2.43.0


From 208949fd7275882f4b5dac489d2b6e46b5d6eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 54/98] fix: magnets without a temperature field dereferenced
 the end iterator

---
 src/physics/electromagnetics/magnetostatic_residual.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 68222bd..8ac5b35 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -379,9 +379,7 @@ MagnetostaticResidual::MagnetostaticResidual(
          nuM = std::make_unique<miso::ScalarVectorProductCoefficient>(
              nu, *mag_coeff);
 
-         const auto &temp_field_iter = fields.find("temperature");
-
-         auto &temp_field = temp_field_iter->second;
+         auto &temp_field = fields.at("temperature");
 
          auto magnet_attrs = getMagnetAttributes(options);
          linear_form.addDomainIntegrator(new MagnetizationSource2DIntegrator(
-- 
2.43.0


From e7d5dc564a2e1d41cd3c4a159dfda574c69fe460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 55/98] fix: magnetostatic residual built but did not return
 its ILU preconditioner

---
 src/physics/electromagnetics/magnetostatic_residual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 8ac5b35..ef44c3a 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -42,6 +42,7 @@ std::unique_ptr<mfem::Solver> constructPreconditioner(
       HYPRE_ILUSetLevelOfFill(*ilu, prec_options["lev-fill"]);
       HYPRE_ILUSetLocalReordering(*ilu, prec_options["ilu-reorder"]);
       HYPRE_ILUSetPrintLevel(*ilu, prec_options["printlevel"]);
+      return ilu;
    }
    return nullptr;
 }
-- 
2.43.0


From 82f2716ca366fdaa74b98fdfd91edc0d76057e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 56/98] fix: forward products of the 3D magnetostatic residual
 always threw

---
 src/physics/electromagnetics/current_load.cpp | 54 ++++++++++++++-----
 src/physics/electromagnetics/current_load.hpp | 13 +++++
 .../electromagnetics/magnetostatic_load.hpp   | 35 ++++++++++++
 3 files changed, 90 insertions(+), 12 deletions(-)

diff --git a/src/physics/electromagnetics/current_load.cpp b/src/physics/electromagnetics/current_load.cpp
index 18a17e7..db3c8a1 100644
--- a/src/physics/electromagnetics/current_load.cpp
+++ b/src/physics/electromagnetics/current_load.cpp
@@ -56,6 +56,31 @@ void addLoad(CurrentLoad &load, Vector &tv)
    subtract(tv, load.load, tv);
 }
 
+double jacobianVectorProduct(CurrentLoad &load,
+                             const mfem::Vector &wrt_dot,
+                             const std::string &wrt)
+{
+   return 0.0;
+}
+
+void jacobianVectorProduct(CurrentLoad &load,
+                           const mfem::Vector &wrt_dot,
+                           const std::string &wrt,
+                           mfem::Vector &res_dot)
+{
+   // if wrt starts with prefix "current_density:"
+   if (wrt.rfind("current_density:", 0) == 0)
+   {
+      load.assembleLoadDerivative(wrt);
+      res_dot.Add(-wrt_dot(0), load.load);
+   }
+   else if (wrt == "mesh_coords")
+   {
+      throw NotImplementedException(
+          "not implemented for mesh coordinates sensitivities!\n");
+   }
+}
+
 double vectorJacobianProduct(CurrentLoad &load,
                              const mfem::Vector &load_bar,
                              const std::string &wrt)
@@ -63,18 +88,7 @@ double vectorJacobianProduct(CurrentLoad &load,
    // if wrt starts with prefix "current_density:"
    if (wrt.rfind("current_density:", 0) == 0)
    {
-      load.current.cacheCurrentDensity();
-      load.current.zeroCurrentDensity();
-
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(load.current, inputs);
-
-      // load.nd_mass.Update();
-      load.assembleLoad();
-      load.current.resetCurrentDensityFromCache();
-      load.dirty = true;
-
-      load.load.SetSubVector(load.ess_tdof_list, 0.0);
+      load.assembleLoadDerivative(wrt);
       return -(load.load * load_bar);
    }
    return 0.0;
@@ -238,6 +252,22 @@ CurrentLoad::CurrentLoad(adept::Stack &diff_stack,
    setOptions(*this, options);
 }
 
+void CurrentLoad::assembleLoadDerivative(const std::string &wrt)
+{
+   current.cacheCurrentDensity();
+   current.zeroCurrentDensity();
+
+   MISOInputs inputs{{wrt, 1.0}};
+   setInputs(current, inputs);
+
+   // nd_mass.Update();
+   assembleLoad();
+   current.resetCurrentDensityFromCache();
+   dirty = true;
+
+   load.SetSubVector(ess_tdof_list, 0.0);
+}
+
 void CurrentLoad::assembleLoad()
 {
    /// assemble linear form
diff --git a/src/physics/electromagnetics/current_load.hpp b/src/physics/electromagnetics/current_load.hpp
index 3f99d45..806ef35 100644
--- a/src/physics/electromagnetics/current_load.hpp
+++ b/src/physics/electromagnetics/current_load.hpp
@@ -29,6 +29,15 @@ public:
    /// Assemble the load vector on the true dofs and store in tv
    friend void addLoad(CurrentLoad &load, mfem::Vector &tv);
 
+   friend double jacobianVectorProduct(CurrentLoad &load,
+                                       const mfem::Vector &wrt_dot,
+                                       const std::string &wrt);
+
+   friend void jacobianVectorProduct(CurrentLoad &load,
+                                     const mfem::Vector &wrt_dot,
+                                     const std::string &wrt,
+                                     mfem::Vector &res_dot);
+
    friend double vectorJacobianProduct(CurrentLoad &load,
                                        const mfem::Vector &load_bar,
                                        const std::string &wrt);
@@ -82,6 +91,10 @@ private:
 
    /// Assemble the divergence free load vector
    void assembleLoad();
+
+   /// Assemble the load's derivative with respect to the current density of the
+   /// group named by @a wrt
+   void assembleLoadDerivative(const std::string &wrt);
 };
 
 }  // namespace miso
diff --git a/src/physics/electromagnetics/magnetostatic_load.hpp b/src/physics/electromagnetics/magnetostatic_load.hpp
index 8d9e20e..11a5ba5 100644
--- a/src/physics/electromagnetics/magnetostatic_load.hpp
+++ b/src/physics/electromagnetics/magnetostatic_load.hpp
@@ -57,6 +57,41 @@ public:
       }
    }
 
+   friend inline double jacobianVectorProduct(MagnetostaticLoad &load,
+                                              const mfem::Vector &wrt_dot,
+                                              const std::string &wrt)
+   {
+      double res_dot = 0.0;
+      if (load.current_load.has_value())
+      {
+         res_dot +=
+             jacobianVectorProduct(*load.current_load.value(), wrt_dot, wrt);
+      }
+      if (load.magnetic_load.has_value())
+      {
+         res_dot +=
+             jacobianVectorProduct(load.magnetic_load.value(), wrt_dot, wrt);
+      }
+      return res_dot;
+   }
+
+   friend inline void jacobianVectorProduct(MagnetostaticLoad &load,
+                                            const mfem::Vector &wrt_dot,
+                                            const std::string &wrt,
+                                            mfem::Vector &res_dot)
+   {
+      if (load.current_load.has_value())
+      {
+         jacobianVectorProduct(
+             *load.current_load.value(), wrt_dot, wrt, res_dot);
+      }
+      if (load.magnetic_load.has_value())
+      {
+         jacobianVectorProduct(
+             load.magnetic_load.value(), wrt_dot, wrt, res_dot);
+      }
+   }
+
    friend inline double vectorJacobianProduct(MagnetostaticLoad &load,
                                               const mfem::Vector &res_bar,
                                               const std::string &wrt)
-- 
2.43.0


From 7307677797044703b8971e44feb545a98eeda1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 57/98] fix: curl load's mesh sensitivity was never registered
 with the linear form

---
 src/physics/mfem_common_integ.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/physics/mfem_common_integ.hpp b/src/physics/mfem_common_integ.hpp
index d3b05ab..1ed5e73 100644
--- a/src/physics/mfem_common_integ.hpp
+++ b/src/physics/mfem_common_integ.hpp
@@ -1183,19 +1183,28 @@ private:
 #endif
 };
 
-inline void addSensitivityIntegrator(
+inline void addDomainSensitivityIntegrator(
     VectorFEDomainLFCurlIntegrator &primal_integ,
     std::map<std::string, FiniteElementState> &fields,
     std::map<std::string, mfem::ParLinearForm> &rev_sens,
     std::map<std::string, mfem::ParNonlinearForm> &rev_scalar_sens,
     std::map<std::string, mfem::ParLinearForm> &fwd_sens,
-    std::map<std::string, mfem::ParNonlinearForm> &fwd_scalar_sens)
+    std::map<std::string, mfem::ParNonlinearForm> &fwd_scalar_sens,
+    mfem::Array<int> *attr_marker,
+    std::string adjoint_name)
 {
    auto &mesh_fes = fields.at("mesh_coords").space();
    rev_sens.emplace("mesh_coords", &mesh_fes);
    auto *sens_integ = new VectorFEDomainLFCurlIntegratorMeshSens(primal_integ);
-   sens_integ->setAdjoint(fields.at("adjoint").gridFunc());
-   rev_sens.at("mesh_coords").AddDomainIntegrator(sens_integ);
+   sens_integ->setAdjoint(fields.at(adjoint_name).gridFunc());
+   if (attr_marker == nullptr)
+   {
+      rev_sens.at("mesh_coords").AddDomainIntegrator(sens_integ);
+   }
+   else
+   {
+      rev_sens.at("mesh_coords").AddDomainIntegrator(sens_integ, *attr_marker);
+   }
 }
 
 class DomainLFIntegrator final : public mfem::DomainLFIntegrator
-- 
2.43.0


From b43b7b99a7bc6a10429afdd33bdd1111ed910241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 58/98] fix: thermal residual built but did not return its ILU
 preconditioner

---
 src/physics/thermal/thermal_residual.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/thermal/thermal_residual.hpp b/src/physics/thermal/thermal_residual.hpp
index c248df3..7616b42 100644
--- a/src/physics/thermal/thermal_residual.hpp
+++ b/src/physics/thermal/thermal_residual.hpp
@@ -115,6 +115,7 @@ private:
          HYPRE_ILUSetLevelOfFill(*ilu, prec_options["lev-fill"]);
          HYPRE_ILUSetLocalReordering(*ilu, prec_options["ilu-reorder"]);
          HYPRE_ILUSetPrintLevel(*ilu, prec_options["printlevel"]);
+         return ilu;
       }
       return nullptr;
    }
-- 
2.43.0


From e5f59d06067e87964fc87d959b1f868de1c757a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 59/98] fix: state products of a form left out the rows of its
 essential dofs

---
 src/physics/miso_nonlinearform.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 2cd0f5b..9f5f71d 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -244,6 +244,15 @@ void jacobianVectorProduct(MISONonlinearForm &form,
              "Jacobian matrices assembled to a HypreParMatrix!\n");
       }
       hypre_jac_e->Mult(1.0, wrt_dot, 1.0, res_dot);
+
+      // residual of an essential dof is its difference from the boundary value
+      if (form.nf_fields.count("dirichlet_bc") != 0)
+      {
+         for (int i = 0; i < ess_tdof_list.Size(); ++i)
+         {
+            res_dot(ess_tdof_list[i]) += wrt_dot(ess_tdof_list[i]);
+         }
+      }
    }
    else if (form.fwd_sens.count(wrt) != 0)
    {
@@ -307,6 +316,15 @@ void vectorJacobianProduct(MISONonlinearForm &form,
       }
       hypre_jac_e->MultTranspose(1.0, res_bar, 1.0, wrt_bar);
 
+      // residual of an essential dof is its difference from the boundary value
+      if (form.nf_fields.count("dirichlet_bc") != 0)
+      {
+         for (int i = 0; i < ess_tdof_list.Size(); ++i)
+         {
+            wrt_bar(ess_tdof_list[i]) += res_bar(ess_tdof_list[i]);
+         }
+      }
+
       // form.adjoint_jac_trans->Mult(res_bar, wrt_bar);
    }
    else if (form.rev_sens.count(wrt) != 0)
-- 
2.43.0


From 5a6b220a8c6905682984f73eca1d965753bd0c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 60/98] fix: state products of the mesh warper left out the
 surface rows

---
 src/utils/mesh_warper/mesh_warper.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utils/mesh_warper/mesh_warper.cpp b/src/utils/mesh_warper/mesh_warper.cpp
index 18e6ebe..f27e83d 100644
--- a/src/utils/mesh_warper/mesh_warper.cpp
+++ b/src/utils/mesh_warper/mesh_warper.cpp
@@ -188,6 +188,14 @@ void jacobianVectorProduct(MeshWarperResidual &residual,
          res_dot(surface_indices[i]) -= wrt_dot(i);
       }
    }
+   else if (wrt == "state")
+   {
+      auto &surface_indices = residual.surface_indices;
+      for (int i = 0; i < surface_indices.Size(); ++i)
+      {
+         res_dot(surface_indices[i]) += wrt_dot(surface_indices[i]);
+      }
+   }
    jacobianVectorProduct(residual.res, wrt_dot, wrt, res_dot);
 }
 
@@ -211,6 +219,14 @@ void vectorJacobianProduct(MeshWarperResidual &residual,
          wrt_bar(i) -= res_bar(surface_indices[i]);
       }
    }
+   else if (wrt == "state")
+   {
+      auto &surface_indices = residual.surface_indices;
+      for (int i = 0; i < surface_indices.Size(); ++i)
+      {
+         wrt_bar(surface_indices[i]) += res_bar(surface_indices[i]);
+      }
+   }
    vectorJacobianProduct(residual.res, res_bar, wrt, wrt_bar);
 }
 
-- 
2.43.0


From 7ddc9c89e56c301f18bf20ad9600ede7b3d46a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 61/98] fix: adjoint solves left the entries of essential dofs
 zero

---
 src/common/abstract_solver.cpp        |  2 ++
 src/utils/mesh_warper/mesh_warper.cpp | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index c756032..901b5bf 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -164,6 +164,8 @@ void AbstractSolver2::solveForAdjoint(const MISOInputs &inputs,
 
       adj_solver->Mult(work, adjoint);
 
+      finalizeAdjointSystem(*spatial_res, *adj_solver, inputs, work, adjoint);
+
       /// log final state
       for (auto &pair : loggers)
       {
diff --git a/src/utils/mesh_warper/mesh_warper.cpp b/src/utils/mesh_warper/mesh_warper.cpp
index f27e83d..d2df9f8 100644
--- a/src/utils/mesh_warper/mesh_warper.cpp
+++ b/src/utils/mesh_warper/mesh_warper.cpp
@@ -43,6 +43,12 @@ public:
                                   mfem::Vector &state_bar,
                                   mfem::Vector &adjoint);
 
+   friend void finalizeAdjointSystem(MeshWarperResidual &residual,
+                                     mfem::Solver &adj_solver,
+                                     const miso::MISOInputs &inputs,
+                                     mfem::Vector &state_bar,
+                                     mfem::Vector &adjoint);
+
    friend double jacobianVectorProduct(MeshWarperResidual &residual,
                                        const mfem::Vector &wrt_dot,
                                        const std::string &wrt);
@@ -168,6 +174,15 @@ void setUpAdjointSystem(MeshWarperResidual &residual,
    setUpAdjointSystem(residual.res, adj_solver, inputs, state_bar, adjoint);
 }
 
+void finalizeAdjointSystem(MeshWarperResidual &residual,
+                           mfem::Solver &adj_solver,
+                           const miso::MISOInputs &inputs,
+                           mfem::Vector &state_bar,
+                           mfem::Vector &adjoint)
+{
+   finalizeAdjointSystem(residual.res, adj_solver, inputs, state_bar, adjoint);
+}
+
 double jacobianVectorProduct(MeshWarperResidual &residual,
                              const mfem::Vector &wrt_dot,
                              const std::string &wrt)
-- 
2.43.0


From 64b80981ca7aa39af6e2fe844084fea474127320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 62/98] fix: final snapshot of a march overwrote the one of its
 last step

---
 src/common/abstract_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 901b5bf..c309055 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -109,6 +109,8 @@ void AbstractSolver2::solveForState(const MISOInputs &inputs,
          ode->step(state, t, dt);
          if (iterationExit(ti, t, t_final, dt, state))
          {
+            // the final state comes after this iteration's (logged) state
+            ++ti;
             break;
          }
       }
-- 
2.43.0


From 6cee76dc450bd39adfa7cbbf9fc85cc0af608225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 63/98] fix: outputs created without options get an empty
 object, not null

---
 src/common/abstract_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index c309055..13f9433 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -233,7 +233,7 @@ int AbstractSolver2::getFieldSize(const std::string &name) const
 
 void AbstractSolver2::createOutput(const std::string &output)
 {
-   nlohmann::json options;
+   nlohmann::json options = nlohmann::json::object();
    createOutput(output, options);
 }
 
-- 
2.43.0


From d9b7dc47a2f8eb37df4f99a5df0709ead6c9b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 64/98] fix: averages of a state look at the state their
 options name

---
 src/physics/common_outputs.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 6055a01..70695f3 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -70,11 +70,19 @@ MassFunctional::MassFunctional(
    }
 }
 
+/// \return the name of the field that is averaged, "state" if not given
+static std::string getStateName(const nlohmann::json &options)
+{
+   return options.contains("state") ? options["state"].get<std::string>()
+                                    : "state";
+}
+
 StateAverageFunctional::StateAverageFunctional(
     mfem::ParFiniteElementSpace &fes,
     std::map<std::string, FiniteElementState> &fields,
     const nlohmann::json &options)
- : state_integ(fes, fields), volume(fes, fields)
+ : state_integ(fes, fields, getStateName(options)),
+   volume(fes, fields, getStateName(options))
 {
    if (options.contains("attributes"))
    {
-- 
2.43.0


From 05dbc1181c124189cc2f1460ce113e3fb28c8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 65/98] fix: the aggregate of the flux magnitude has a default
 parameter

---
 src/physics/common_outputs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 70695f3..c1128b3 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -269,7 +269,7 @@ IECurlMagnitudeAggregateFunctional::IECurlMagnitudeAggregateFunctional(
     const nlohmann::json &options)
  : numerator(fes, fields), denominator(fes, fields)
 {
-   auto rho = options["rho"].get<double>();
+   auto rho = options.value("rho", 1.0);
 
    if (options.contains("attributes"))
    {
-- 
2.43.0


From 0f15eef03ff7a0db8a576b4cb51b425e553523e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 66/98] fix: the flux density in the plane is the curl of the
 potential, not its negative

---
 src/utils/l2_transfer_operator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/l2_transfer_operator.cpp b/src/utils/l2_transfer_operator.cpp
index f35f7a0..6a5a6d7 100644
--- a/src/utils/l2_transfer_operator.cpp
+++ b/src/utils/l2_transfer_operator.cpp
@@ -372,6 +372,7 @@ public:
             mfem::DenseMatrix tmp(
                 curlshape_dFt.GetData(), space_dim * state_dof, 1);
             scratch.GradToCurl(tmp);
+            tmp *= -1.0;  // GradToCurl gives (-dA/dy, dA/dx)
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -432,6 +433,7 @@ public:
             mfem::DenseMatrix tmp(
                 curlshape_dFt.GetData(), space_dim * state_dof, 1);
             scratch.GradToCurl(tmp);
+            tmp *= -1.0;  // GradToCurl gives (-dA/dy, dA/dx)
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -536,6 +538,7 @@ public:
             mfem::DenseMatrix tmp(
                 curlshape_dFt.GetData(), space_dim * state_dof, 1);
             scratch.GradToCurl(tmp);
+            tmp *= -1.0;  // GradToCurl gives (-dA/dy, dA/dx)
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -615,7 +618,6 @@ public:
             mfem::DenseMatrix tmp(
                 scratch_bar.GetData(), space_dim * state_dof, 1);
             curlshape_dFt_bar.GradToCurl(tmp);
-            scratch_bar *= -1.0;
 
             /// Mult(curlshape, trans.AdjugateJacobian(), scratch);
             double adj_bar_buffer[9] = {};
-- 
2.43.0


From 8ec00790de6a356dbc12feaa5e428bcbe9ad18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 67/98] fix: every force and torque output has a displacement
 field of its own

---
 .../electromagnetics/electromag_outputs.cpp   |  8 ++++----
 .../electromagnetics/electromag_outputs.hpp   | 20 ++++++++++++-------
 .../electromagnetics/magnetostatic.cpp        |  4 ++--
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 62ae9c4..895b8a1 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -27,11 +27,11 @@ void setOptions(ForceFunctional &output, const nlohmann::json &options)
    auto &&attrs = options["attributes"].get<std::unordered_set<int>>();
    auto &&axis = options["axis"].get<std::vector<double>>();
 
-   auto space_dim = output.fields.at("vforce").mesh().SpaceDimension();
+   auto space_dim = output.fields.at(output.v_name).mesh().SpaceDimension();
    mfem::VectorConstantCoefficient axis_vector(
        mfem::Vector(axis.data(), space_dim));
 
-   auto &v = output.fields.at("vforce").gridFunc();
+   auto &v = output.fields.at(output.v_name).gridFunc();
    v = 0.0;
    for (const auto &attr : attrs)
    {
@@ -47,7 +47,7 @@ void setOptions(TorqueFunctional &output, const nlohmann::json &options)
    mfem::Vector axis_vector(axis.data(), axis.size());
    axis_vector /= axis_vector.Norml2();
 
-   auto space_dim = output.fields.at("vtorque").mesh().SpaceDimension();
+   auto space_dim = output.fields.at(output.v_name).mesh().SpaceDimension();
    mfem::Vector about_vector(about.data(), space_dim);
    double r_data[3];
    mfem::Vector r(r_data, space_dim);
@@ -74,7 +74,7 @@ void setOptions(TorqueFunctional &output, const nlohmann::json &options)
           //    v /= v.Norml2();
        });
 
-   auto &v = output.fields.at("vtorque").gridFunc();
+   auto &v = output.fields.at(output.v_name).gridFunc();
    v = 0.0;
    for (const auto &attr : attrs)
    {
diff --git a/src/physics/electromagnetics/electromag_outputs.hpp b/src/physics/electromagnetics/electromag_outputs.hpp
index 2fd6dec..a76eef8 100644
--- a/src/physics/electromagnetics/electromag_outputs.hpp
+++ b/src/physics/electromagnetics/electromag_outputs.hpp
@@ -74,20 +74,23 @@ public:
    ForceFunctional(mfem::ParFiniteElementSpace &fes,
                    std::map<std::string, FiniteElementState> &fields,
                    const nlohmann::json &options,
-                   miso::StateCoefficient &nu)
-    : output(fes, fields), fields(fields)
+                   miso::StateCoefficient &nu,
+                   std::string v_name = "vforce")
+    : output(fes, fields), fields(fields), v_name(std::move(v_name))
    {
       setOptions(*this, options);
 
       auto &&attrs = options["attributes"].get<std::unordered_set<int>>();
       output.addOutputDomainIntegrator(
-          new ForceIntegrator3(nu, fields.at("vforce").gridFunc(), attrs));
+          new ForceIntegrator3(nu, fields.at(this->v_name).gridFunc(), attrs));
       //  new ForceIntegrator(nu, fields.at("vforce").gridFunc(), attrs));
    }
 
 private:
    FunctionalOutput output;
    std::map<std::string, FiniteElementState> &fields;
+   /// name of the field that holds the virtual displacement
+   std::string v_name;
 };
 
 class TorqueFunctional final
@@ -146,8 +149,9 @@ public:
    TorqueFunctional(mfem::ParFiniteElementSpace &fes,
                     std::map<std::string, FiniteElementState> &fields,
                     const nlohmann::json &options,
-                    miso::StateCoefficient &nu)
-    : output(fes, fields), fields(fields)
+                    miso::StateCoefficient &nu,
+                    std::string v_name = "vtorque")
+    : output(fes, fields), fields(fields), v_name(std::move(v_name))
    {
       setOptions(*this, options);
 
@@ -156,7 +160,7 @@ public:
       {
          auto &&air_attrs = options["air_attributes"].get<std::vector<int>>();
          output.addOutputDomainIntegrator(
-             new ForceIntegrator3(nu, fields.at("vtorque").gridFunc(), attrs),
+             new ForceIntegrator3(nu, fields.at(this->v_name).gridFunc(), attrs),
              //  new ForceIntegrator(nu, fields.at("vtorque").gridFunc(),
              //  attrs),
              air_attrs);
@@ -164,7 +168,7 @@ public:
       else
       {
          output.addOutputDomainIntegrator(
-             new ForceIntegrator3(nu, fields.at("vtorque").gridFunc(), attrs));
+             new ForceIntegrator3(nu, fields.at(this->v_name).gridFunc(), attrs));
          //  new ForceIntegrator(nu, fields.at("vtorque").gridFunc(), attrs));
       }
    }
@@ -172,6 +176,8 @@ public:
 private:
    FunctionalOutput output;
    std::map<std::string, FiniteElementState> &fields;
+   /// name of the field that holds the virtual displacement
+   std::string v_name;
 };
 
 // class ResistivityFunctional final
diff --git a/src/physics/electromagnetics/magnetostatic.cpp b/src/physics/electromagnetics/magnetostatic.cpp
index 7c9fcf6..eae0df4 100644
--- a/src/physics/electromagnetics/magnetostatic.cpp
+++ b/src/physics/electromagnetics/magnetostatic.cpp
@@ -191,7 +191,7 @@ void MagnetostaticSolver::addOutput(const std::string &fun,
                      std::make_tuple("v" + fun),
                      std::forward_as_tuple(mesh(), mesh_fes));
 
-      ForceFunctional out(fes(), fields, options, nu);
+      ForceFunctional out(fes(), fields, options, nu, "v" + fun);
       outputs.emplace(fun, std::move(out));
    }
    else if (fun.rfind("torque", 0) == 0)
@@ -202,7 +202,7 @@ void MagnetostaticSolver::addOutput(const std::string &fun,
                      std::make_tuple("v" + fun),
                      std::forward_as_tuple(mesh(), mesh_fes));
 
-      TorqueFunctional out(fes(), fields, options, nu);
+      TorqueFunctional out(fes(), fields, options, nu, "v" + fun);
       outputs.emplace(fun, std::move(out));
    }
    else if (fun.rfind("flux_density", 0) == 0)
-- 
2.43.0


From 2323c73ed98669146eaec9b2c54eaf10bb7ef4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 68/98] fix: the derivative of the flux magnitude transfer is
 finite where the flux vanishes

---
 src/utils/l2_transfer_operator.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/utils/l2_transfer_operator.cpp b/src/utils/l2_transfer_operator.cpp
index 6a5a6d7..bea8f1e 100644
--- a/src/utils/l2_transfer_operator.cpp
+++ b/src/utils/l2_transfer_operator.cpp
@@ -748,10 +748,13 @@ public:
          /// const double curl_vec_norm = curl_vec.Norml2();
          double curl_vec_bar_buffer[3] = {};
          mfem::Vector curl_vec_bar(curl_vec_bar_buffer, space_dim);
-         add(curl_vec_bar,
-             curl_vec_norm_bar / curl_vec_norm,
-             curl_vec,
-             curl_vec_bar);
+         if (curl_vec_norm > 1e-14)
+         {
+            add(curl_vec_bar,
+                curl_vec_norm_bar / curl_vec_norm,
+                curl_vec,
+                curl_vec_bar);
+         }
 
          /// only need state derivative
          // double output_adj_vec_bar_buffer[3] = {};
@@ -863,10 +866,13 @@ public:
          /// const double curl_vec_norm = curl_vec.Norml2();
          double curl_vec_bar_buffer[3] = {};
          mfem::Vector curl_vec_bar(curl_vec_bar_buffer, space_dim);
-         add(curl_vec_bar,
-             curl_vec_norm_bar / curl_vec_norm,
-             curl_vec,
-             curl_vec_bar);
+         if (curl_vec_norm > 1e-14)
+         {
+            add(curl_vec_bar,
+                curl_vec_norm_bar / curl_vec_norm,
+                curl_vec,
+                curl_vec_bar);
+         }
 
          if (space_dim == 3)
          {
-- 
2.43.0


From fb32c7a58f2dbd35c75c54e80d316c09c9707f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 69/98] fix: derivatives of the flux and force functionals are
 finite where the flux vanishes

---
 .../electromagnetics/electromag_integ.cpp     | 10 +++++--
 src/physics/mfem_common_integ.cpp             | 30 +++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 90b96ae..38622d3 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -10192,7 +10192,10 @@ void ForceIntegrator3::AssembleElementVector(const FiniteElement &el,
       // trans_weight_bar -= b_mag_bar * b_vec_norm / pow(trans_weight, 2);
 
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// curlshape_dFt.MultTranspose(elfun, b_vec);
       curlshape_dFt.AddMult(b_vec_bar, elfun_bar);
@@ -10575,7 +10578,10 @@ void ForceIntegratorMeshSens3::AssembleRHSElementVect(
       trans_weight_bar -= b_mag_bar * b_vec_norm / pow(trans.Weight(), 2);
 
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       if (dim == 3)
       {
diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 25ba445..a1e218e 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -570,7 +570,10 @@ void MagnitudeCurlStateIntegrator::AssembleElementVector(
 
       /// const double curl_vec_norm = curl_vec.Norml2();
       curl_vec_bar = 0.0;
-      curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      if (curl_vec_norm > 1e-14)
+      {
+         curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, curl_vec);
       curlshape_dFt.AddMult(curl_vec_bar, elfun_bar);
@@ -682,7 +685,10 @@ void MagnitudeCurlStateIntegratorMeshSens::AssembleRHSElementVect(
 
       /// const double curl_vec_norm = curl_vec.Norml2();
       curl_vec_bar = 0.0;
-      curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      if (curl_vec_norm > 1e-14)
+      {
+         curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      }
 
       PointMat_bar = 0.0;
       if (dim == 3)
@@ -1224,7 +1230,10 @@ void IECurlMagnitudeAggregateIntegratorNumerator::AssembleElementVector(
 
       /// const double curl_vec_norm = curl_vec.Norml2();
       curl_vec_bar = 0.0;
-      curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      if (curl_vec_norm > 1e-14)
+      {
+         curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, curl_vec);
       curlshape_dFt.AddMult(curl_vec_bar, elfun_bar);
@@ -1348,7 +1357,10 @@ void IECurlMagnitudeAggregateIntegratorNumeratorMeshSens::
 
       /// const double curl_vec_norm = curl_vec.Norml2();
       curl_vec_bar = 0.0;
-      curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      if (curl_vec_norm > 1e-14)
+      {
+         curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      }
 
       PointMat_bar = 0.0;
       if (dim == 3)
@@ -1562,7 +1574,10 @@ void IECurlMagnitudeAggregateIntegratorDenominator::AssembleElementVector(
 
       /// const double curl_vec_norm = curl_vec.Norml2();
       curl_vec_bar = 0.0;
-      curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      if (curl_vec_norm > 1e-14)
+      {
+         curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, curl_vec);
       curlshape_dFt.AddMult(curl_vec_bar, elfun_bar);
@@ -1685,7 +1700,10 @@ void IECurlMagnitudeAggregateIntegratorDenominatorMeshSens::
 
       /// const double curl_vec_norm = curl_vec.Norml2();
       curl_vec_bar = 0.0;
-      curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      if (curl_vec_norm > 1e-14)
+      {
+         curl_vec_bar.Add(curl_vec_norm_bar / curl_vec_norm, curl_vec);
+      }
 
       PointMat_bar = 0.0;
       if (dim == 3)
-- 
2.43.0


From 9cff8b58713d13f66e8471dae21b2312785cc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 70/98] fix: the Lp error of one entry of a state is never
 negative

---
 src/physics/finite_element_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/finite_element_state.cpp b/src/physics/finite_element_state.cpp
index 7646152..bc86cd1 100644
--- a/src/physics/finite_element_state.cpp
+++ b/src/physics/finite_element_state.cpp
@@ -285,7 +285,7 @@ double calcLpError(const FiniteElementState &state,
       {
          const auto &ip = ir->IntPoint(j);
          T->SetIntPoint(&ip);
-         double ip_error = loc_errs(j);
+         double ip_error = fabs(loc_errs(j));
          if (p < mfem::infinity())
          {
             ip_error = pow(ip_error, p);
-- 
2.43.0


From a64f1038d00aa44799508f0065cc52791e5ed841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 71/98] fix: residuals and adjoint set-up make their collective
 calls on every rank

A rank that holds no essential degree of freedom returned before the
communication the other ranks then waited in for ever.
---
 src/physics/miso_nonlinearform.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 9f5f71d..c34708e 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -68,12 +68,9 @@ void evaluate(MISONonlinearForm &form,
    setVectorFromInputs(inputs, "state", state, false, true);
    form.nf.Mult(state, res_vec);
 
+   // other ranks may have essential dofs where this one has none, and setTrueVec
+   // is collective
    const auto &ess_tdof_list = form.getEssentialDofs();
-   if (ess_tdof_list.Size() == 0)
-   {
-      return;
-   }
-
    if (auto bc_iter = form.nf_fields.find("dirichlet_bc");
        bc_iter != form.nf_fields.end())
    {
@@ -179,11 +176,9 @@ void finalizeAdjointSystem(MISONonlinearForm &form,
                            mfem::Vector &state_bar,
                            mfem::Vector &adjoint)
 {
+   // other ranks may have essential dofs where this one has none, and
+   // MultTranspose is collective
    const auto &ess_tdof_list = form.getEssentialDofs();
-   if (ess_tdof_list.Size() == 0)
-   {
-      return;
-   }
 
    auto *hypre_jac_e = form.jac_e.As<mfem::HypreParMatrix>();
    if (hypre_jac_e == nullptr)
-- 
2.43.0


From 4d277cc8f06a6b6c03129c27d3e0bd7fb41256ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 72/98] fix: the aggregate's offset is the largest value on any
 rank

---
 src/physics/common_outputs.cpp | 3 ++-
 src/physics/common_outputs.hpp | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index c1128b3..995168d 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -205,7 +205,8 @@ IEAggregateFunctional::IEAggregateFunctional(
     mfem::ParFiniteElementSpace &fes,
     std::map<std::string, FiniteElementState> &fields,
     const nlohmann::json &options)
- : state_name(options.value("state", "state")),
+ : comm(fes.GetComm()),
+   state_name(options.value("state", "state")),
    numerator(fes, fields, state_name),
    denominator(fes, fields, state_name)
 {
diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index 4968f7f..665becd 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -293,6 +293,9 @@ public:
       mfem::Vector state;
       setVectorFromInputs(inputs, output.state_name, state);
       double true_max = state.Max();
+      // the exponentials are scaled alike on every rank
+      MPI_Allreduce(
+          MPI_IN_PLACE, &true_max, 1, MPI_DOUBLE, MPI_MAX, output.comm);
       const MISOInputs max_inputs{{"true_max", true_max}};
       setInputs(output.numerator, max_inputs);
       setInputs(output.denominator, max_inputs);
@@ -321,6 +324,8 @@ public:
                          const nlohmann::json &options);
 
 private:
+   /// communicator of the field that is aggregated
+   MPI_Comm comm;
    /// name of the field that is aggregated
    std::string state_name;
    FunctionalOutput numerator;
-- 
2.43.0


From 647ce47649469e9832c0dad3b0773858ce4f7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 73/98] fix: a line search steps every rank by the same length

---
 src/common/linesearch.cpp     | 15 +++++++++++----
 src/common/linesearch.hpp     |  7 ++++++-
 src/common/relaxed_newton.cpp |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 3540bd6..8f7914a 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -112,18 +112,20 @@ Phi::Phi(std::function<void(const mfem::Vector &x, mfem::Vector &res)> calcRes,
          const mfem::Vector &state,
          const mfem::Vector &descent_dir,
          mfem::Vector &residual,
-         mfem::Operator &jac)
+         mfem::Operator &jac,
+         MPI_Comm comm)
  : calcRes(std::move(calcRes)),
    state(state),
    descent_dir(descent_dir),
    scratch(state.Size()),
    residual(residual),
-   phi0(residual.Norml2()),
+   comm(comm),
+   phi0(sqrt(dot(residual, residual))),
    dphi0(
        [&]()
        {
           jac.Mult(descent_dir, scratch);
-          return -(scratch * residual) / phi0;
+          return -dot(scratch, residual) / phi0;
           //  return -phi0;
        }())
 { }
@@ -134,7 +136,12 @@ double Phi::operator()(double alpha)
    add(state, -alpha, descent_dir, scratch);
 
    calcRes(scratch, residual);
-   return residual.Norml2();
+   return sqrt(dot(residual, residual));
+}
+
+double Phi::dot(const mfem::Vector &x, const mfem::Vector &y) const
+{
+   return comm == MPI_COMM_NULL ? x * y : InnerProduct(comm, x, y);
 }
 
 }  // namespace miso
diff --git a/src/common/linesearch.hpp b/src/common/linesearch.hpp
index 049f787..28c195f 100644
--- a/src/common/linesearch.hpp
+++ b/src/common/linesearch.hpp
@@ -41,7 +41,8 @@ public:
        const mfem::Vector &state,
        const mfem::Vector &descent_dir,
        mfem::Vector &residual,
-       mfem::Operator &jac);
+       mfem::Operator &jac,
+       MPI_Comm comm = MPI_COMM_NULL);
 
    double operator()(double alpha);
 
@@ -51,6 +52,10 @@ private:
    const mfem::Vector &descent_dir;
    mfem::Vector scratch;
    mfem::Vector &residual;
+   /// communicator the vectors are distributed over, if they are
+   MPI_Comm comm;
+
+   double dot(const mfem::Vector &x, const mfem::Vector &y) const;
 
 public:
    const double phi0;
diff --git a/src/common/relaxed_newton.cpp b/src/common/relaxed_newton.cpp
index 111e7b3..8c62c0d 100644
--- a/src/common/relaxed_newton.cpp
+++ b/src/common/relaxed_newton.cpp
@@ -78,7 +78,7 @@ double RelaxedNewton::ComputeScalingFactor(const mfem::Vector &x,
       }
    };
 
-   Phi phi(calcRes, x, c, r, *grad);
+   Phi phi(calcRes, x, c, r, *grad, GetComm());
 
    return ls->search(phi, phi.phi0, phi.dphi0, 1.0);
 }
-- 
2.43.0


From fb492dfee8d3200ff006eb2a29e84500af1b0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 74/98] fix: flux transfers distribute their inputs on every
 rank

---
 src/utils/l2_transfer_operator.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/utils/l2_transfer_operator.hpp b/src/utils/l2_transfer_operator.hpp
index 38de4c7..4801dff 100644
--- a/src/utils/l2_transfer_operator.hpp
+++ b/src/utils/l2_transfer_operator.hpp
@@ -112,15 +112,16 @@ protected:
 
 inline void setInputs(L2TransferOperator &output, const MISOInputs &inputs)
 {
+   // distributeSharedDofs is collective: also on a rank that owns no dofs
    mfem::Vector state_tv;
    setVectorFromInputs(inputs, "state", state_tv);
-   if (state_tv.Size() > 0)
+   if (inputs.count("state") != 0)
    {
       output.state.distributeSharedDofs(state_tv);
    }
    mfem::Vector mesh_coords_tv;
    setVectorFromInputs(inputs, "mesh_coords", mesh_coords_tv);
-   if (mesh_coords_tv.Size() > 0)
+   if (inputs.count("mesh_coords") != 0)
    {
       output.mesh_coords.distributeSharedDofs(mesh_coords_tv);
    }
@@ -205,13 +206,13 @@ inline void setInputs(L2CurlMagnitudeProjection &output,
 {
    mfem::Vector state_tv;
    setVectorFromInputs(inputs, "state", state_tv);
-   if (state_tv.Size() > 0)
+   if (inputs.count("state") != 0)
    {
       output.state.distributeSharedDofs(state_tv);
    }
    mfem::Vector mesh_coords_tv;
    setVectorFromInputs(inputs, "mesh_coords", mesh_coords_tv);
-   if (mesh_coords_tv.Size() > 0)
+   if (inputs.count("mesh_coords") != 0)
    {
       output.mesh_coords.distributeSharedDofs(mesh_coords_tv);
    }
@@ -251,13 +252,13 @@ inline void setInputs(L2CurlProjection &output, const MISOInputs &inputs)
 {
    mfem::Vector state_tv;
    setVectorFromInputs(inputs, "state", state_tv);
-   if (state_tv.Size() > 0)
+   if (inputs.count("state") != 0)
    {
       output.state.distributeSharedDofs(state_tv);
    }
    mfem::Vector mesh_coords_tv;
    setVectorFromInputs(inputs, "mesh_coords", mesh_coords_tv);
-   if (mesh_coords_tv.Size() > 0)
+   if (inputs.count("mesh_coords") != 0)
    {
       output.mesh_coords.distributeSharedDofs(mesh_coords_tv);
    }
-- 
2.43.0


From 5b19756a8745820a7fe069ac716f4913fae7aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 75/98] fix: forces and torques displace the nodes shared with
 other ranks

---
 .../electromagnetics/electromag_outputs.cpp   | 51 +++++++++++++++----
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 895b8a1..e5c817a 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -19,6 +19,45 @@
 
 #include "electromag_outputs.hpp"
 
+namespace
+{
+/// Project \a coeff onto the part of \a v that belongs to elements with the
+/// given attributes, and set the rest of \a v to zero
+/// \note a node shared with another rank belongs to such an element if it does
+/// on any of the ranks
+void projectOntoAttributes(mfem::VectorCoefficient &coeff,
+                           const std::unordered_set<int> &attrs,
+                           mfem::ParGridFunction &v)
+{
+   auto &fes = *v.ParFESpace();
+   mfem::Array<int> marker(v.Size());
+   marker = 0;
+   mfem::Array<int> vdofs;
+   for (int i = 0; i < fes.GetNE(); ++i)
+   {
+      if (attrs.count(fes.GetAttribute(i)) != 0)
+      {
+         fes.GetElementVDofs(i, vdofs);
+         for (const auto &vdof : vdofs)
+         {
+            marker[vdof >= 0 ? vdof : -1 - vdof] = 1;
+         }
+      }
+   }
+   fes.Synchronize(marker);
+
+   v.ProjectCoefficient(coeff);
+   for (int i = 0; i < v.Size(); ++i)
+   {
+      if (marker[i] == 0)
+      {
+         v(i) = 0.0;
+      }
+   }
+}
+
+}  // namespace
+
 namespace miso
 {
 
@@ -32,11 +71,7 @@ void setOptions(ForceFunctional &output, const nlohmann::json &options)
        mfem::Vector(axis.data(), space_dim));
 
    auto &v = output.fields.at(output.v_name).gridFunc();
-   v = 0.0;
-   for (const auto &attr : attrs)
-   {
-      v.ProjectCoefficient(axis_vector, attr);
-   }
+   projectOntoAttributes(axis_vector, attrs, v);
 }
 
 void setOptions(TorqueFunctional &output, const nlohmann::json &options)
@@ -75,11 +110,7 @@ void setOptions(TorqueFunctional &output, const nlohmann::json &options)
        });
 
    auto &v = output.fields.at(output.v_name).gridFunc();
-   v = 0.0;
-   for (const auto &attr : attrs)
-   {
-      v.ProjectCoefficient(v_vector, attr);
-   }
+   projectOntoAttributes(v_vector, attrs, v);
 }
 
 double calcOutput(DCLossFunctional &output, const MISOInputs &inputs)
-- 
2.43.0


From 4a6689b304c0ab908a9a46904658776df45c0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 76/98] fix: the error against a state vector is that of all
 ranks

---
 src/common/abstract_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 13f9433..2177426 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -61,7 +61,7 @@ double AbstractSolver2::calcStateError_(std::any ex_sol,
           work.SetSize(state.Size());
           fun(work);
           subtract(work, state, work);
-          return work.Norml2();
+          return sqrt(mfem::InnerProduct(comm, work, work));
        },
        [&](mfem::Vector &vec)
        {
@@ -74,7 +74,7 @@ double AbstractSolver2::calcStateError_(std::any ex_sol,
           }
           work.SetSize(state.Size());
           subtract(vec, state, work);
-          return work.Norml2();
+          return sqrt(mfem::InnerProduct(comm, work, work));
        });
 }
 
-- 
2.43.0


From aa1983d40c8ed70cba3bd57ec1c4644e6195dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 77/98] fix: a field with one entry on a rank is not taken for
 a scalar

---
 src/common/abstract_solver.cpp   | 14 +++++++++++---
 src/common/functional_output.cpp |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 2177426..46c8502 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -18,6 +18,14 @@ void logState(miso::DataLogger &logger,
               logger);
 }
 
+/// a scalar has one entry on every rank, a field may have one on some
+bool isScalar(const mfem::Vector &vec, MPI_Comm comm)
+{
+   int size = vec.Size();
+   MPI_Allreduce(MPI_IN_PLACE, &size, 1, MPI_INT, MPI_MAX, comm);
+   return size == 1;
+}
+
 }  // namespace
 
 namespace miso
@@ -318,7 +326,7 @@ void AbstractSolver2::calcOutput(const std::string &output,
          throw MISOException("Did not find " + output + " in output map!\n");
       }
       setInputs(output_iter->second, inputs);
-      if (out_vec.Size() == 1)
+      if (isScalar(out_vec, comm))
       {
          out_vec(0) = miso::calcOutput(output_iter->second, inputs);
       }
@@ -392,7 +400,7 @@ void AbstractSolver2::outputJacobianVectorProduct(const std::string &of,
       }
       auto &output = output_iter->second;
       setInputs(output, inputs);
-      if (out_dot.Size() == 1)
+      if (isScalar(out_dot, comm))
       {
          out_dot(0) += miso::jacobianVectorProduct(output, wrt_dot, wrt);
       }
@@ -422,7 +430,7 @@ void AbstractSolver2::outputVectorJacobianProduct(const std::string &of,
       }
       auto &output = output_iter->second;
       setInputs(output, inputs);
-      if (wrt_bar.Size() == 1)
+      if (isScalar(wrt_bar, comm))
       {
          wrt_bar(0) += miso::vectorJacobianProduct(output, out_bar, wrt);
       }
diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 8aa35c2..de3447f 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -104,7 +104,7 @@ double jacobianVectorProduct(FunctionalOutput &output,
    }
    else
    {
-      if (wrt_dot.Size() == 1)
+      if (wrt_dot.Size() == 1 && output.output_sens.count(wrt) == 0)
       {
          Vector state;
          output.func_fields->at(output.state_name).setTrueVec(state);
-- 
2.43.0


From 28545ee7bd3b2fe46b0a4d8d65ed930f0d5d44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 78/98] fix: the constant-CFL step size uses the current state
 and ends at t-final

---
 src/physics/fluidflow/flow_solver.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/flow_solver.cpp b/src/physics/fluidflow/flow_solver.cpp
index 7888757..70404a4 100644
--- a/src/physics/fluidflow/flow_solver.cpp
+++ b/src/physics/fluidflow/flow_solver.cpp
@@ -151,10 +151,17 @@ double FlowSolver<dim, entvar>::calcStepSize(int iter,
    // Otherwise, use a constant CFL condition
    auto cfl = options["time-dis"]["cfl"];
    // here we call the FlowResidual method for the min time step, which needs
-   // the current state; this is provided by the state field of PDESolver,
-   // which we access with getState()
-   return getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
-       .minCFLTimeStep(cfl, getState().gridFunc());
+   // the current state; the state field of PDESolver, which we access with
+   // getState(), may hold another one by now
+   ParGridFunction state_gf(getState().gridFunc());
+   state_gf.SetFromTrueDofs(state);
+   double dt = getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
+                   .minCFLTimeStep(cfl, state_gf);
+   if (options["time-dis"].value("exact-t-final", true))
+   {
+      dt = min(dt, t_final - t);
+   }
+   return dt;
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From df313a073d43c0ada58a1c1cfb889721ef1ffc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 79/98] fix: the state field holds the final state after a
 march

---
 src/physics/pde_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/pde_solver.cpp b/src/physics/pde_solver.cpp
index 991f102..1c7cd6d 100644
--- a/src/physics/pde_solver.cpp
+++ b/src/physics/pde_solver.cpp
@@ -550,6 +550,7 @@ void PDESolver::terminalHook(int iter,
                              const mfem::Vector &state)
 {
    AbstractSolver2::terminalHook(iter, t_final, state);
+   getState().distributeSharedDofs(state);
    derivedPDETerminalHook(iter, t_final, state);
 }
 
-- 
2.43.0


From 8a660ea04e28d109fafa4c8277edc797def1e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 80/98] fix: the time-dependent residual is evaluated at the
 nonlinear solver's iterate

---
 src/common/ode.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index 327ccac..f0eaa63 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -48,6 +48,26 @@ void addJacobians(mfem::Operator &A,
 
 }  // namespace miso
 
+namespace
+{
+/// \brief The time derivative at which to evaluate a time-dependent residual
+/// \param[in] inputs - if these have no "state_dot" they come from a nonlinear
+/// solver, by way of `MISOResidual::Mult` or `MISOResidual::GetGradient`, and
+/// "state" is the solver's unknown, which here is the time derivative
+/// \param[in] stored - the time derivative to use otherwise
+mfem::Vector getStateDot(const miso::MISOInputs &inputs,
+                         const mfem::Vector &stored)
+{
+   mfem::Vector state_dot(stored.GetData(), stored.Size());
+   if (inputs.find("state_dot") == inputs.end())
+   {
+      miso::setVectorFromInputs(inputs, "state", state_dot);
+   }
+   return state_dot;
+}
+
+}  // namespace
+
 namespace miso
 {
 int getSize(const TimeDependentResidual &residual)
@@ -98,7 +118,7 @@ void evaluate(TimeDependentResidual &residual,
 {
    auto &dt = residual.dt;
    auto &state = residual.state;
-   auto &state_dot = residual.state_dot;
+   const auto state_dot = getStateDot(inputs, residual.state_dot);
    auto &work = residual.work;
    if (dt == 0.0)
    {
@@ -111,7 +131,7 @@ void evaluate(TimeDependentResidual &residual,
       MISOInputs input{{"state", work}};
       evaluate(residual.spatial_res_, input, res_vec);
    }
-   residual.mass_matrix_->Mult(residual.state_dot, residual.work);
+   residual.mass_matrix_->Mult(state_dot, work);
    res_vec += residual.work;
 }
 
@@ -127,7 +147,7 @@ mfem::Operator &getJacobian(TimeDependentResidual &residual,
    }
 
    auto &state = residual.state;
-   auto &state_dot = residual.state_dot;
+   const auto state_dot = getStateDot(inputs, residual.state_dot);
    auto &work = residual.work;
    add(state, dt, state_dot, work);
    MISOInputs input{{"state", work}};
-- 
2.43.0


From 3b5540badaf2d39aaa4154afe22c461a61b03bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 81/98] fix: implicit time marching works when the mass matrix
 lacks entries of the Jacobian

---
 src/common/ode.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f0eaa63..2793697 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -9,23 +9,12 @@
 namespace miso
 {
 /// \brief Helper function to add A + dt*B = C
-/// Supports case where A, B, and C are all HypreParMatrix
-/// or when A is an IdentityOperator and B and C are DenseMatrix
+/// Supports case where A is an IdentityOperator and B and C are DenseMatrix
 void addJacobians(mfem::Operator &A,
                   double dt,
                   mfem::Operator &B,
                   mfem::Operator &C)
 {
-   auto *hypre_A = dynamic_cast<mfem::HypreParMatrix *>(&A);
-   auto *hypre_B = dynamic_cast<mfem::HypreParMatrix *>(&B);
-   if (hypre_A != nullptr && hypre_B != nullptr)
-   {
-      auto *hypre_C = dynamic_cast<mfem::HypreParMatrix *>(&C);
-      *hypre_C = 0.0;
-      *hypre_C += *hypre_A;
-      hypre_C->Add(dt, *hypre_B);
-      return;
-   }
    auto *iden_A = dynamic_cast<mfem::IdentityOperator *>(&A);
    auto *dense_B = dynamic_cast<mfem::DenseMatrix *>(&B);
    if (iden_A != nullptr && dense_B != nullptr)
@@ -165,7 +154,18 @@ mfem::Operator &getJacobian(TimeDependentResidual &residual,
    {
       // The spatial Jacobian is stored explicitly (e.g. HypreParMatrix)
       auto &spatial_jac = getJacobian(residual.spatial_res_, input, wrt);
-      addJacobians(*residual.mass_matrix_, dt, spatial_jac, *residual.jac_);
+      auto *hypre_mass =
+          dynamic_cast<mfem::HypreParMatrix *>(residual.mass_matrix_);
+      auto *hypre_jac = dynamic_cast<mfem::HypreParMatrix *>(&spatial_jac);
+      if (hypre_mass != nullptr && hypre_jac != nullptr)
+      {
+         // the mass matrix may lack entries of the Jacobian (e.g. DG spaces)
+         residual.jac_.reset(mfem::Add(1.0, *hypre_mass, dt, *hypre_jac));
+      }
+      else
+      {
+         addJacobians(*residual.mass_matrix_, dt, spatial_jac, *residual.jac_);
+      }
    }
    return *residual.jac_;
 }
-- 
2.43.0


From b18f483f6ce6790df72c9806de645334295e8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 82/98] fix: the controller keeps its loop setting when the
 inputs do not mention it

---
 src/physics/fluidflow/flow_control_residual.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 5d8b8d4..23a5005 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -63,7 +63,7 @@ void setInputs(ControlResidual &residual, const MISOInputs &inputs)
    setValueFromInputs(inputs, "eta", residual.eta);
    setValueFromInputs(inputs, "beta", residual.beta);
    setValueFromInputs(inputs, "target-entropy", residual.target_entropy);
-   double closed_double = 1.0;
+   double closed_double = residual.closed_loop ? 1.0 : 0.0;
    setValueFromInputs(inputs, "closed-loop", closed_double);
    if (fabs(closed_double) < numeric_limits<double>::epsilon())
    {
-- 
2.43.0


From 02981f0bd1bef41da1ea3a6393bf3c3ebcbd6967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 83/98] fix: a controlled flow without an actuator position
 uses the integrators' default

---
 src/physics/fluidflow/flow_control_residual.cpp |  8 ++++----
 src/physics/fluidflow/flow_control_residual.hpp | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 23a5005..24f7bcc 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -366,8 +366,8 @@ void FlowControlResidual<dim, entvar>::evaluate_(const MISOInputs &inputs,
    // double time = std::get<double>(inputs.at("time"));
 
    // get the coupling variables/outputs
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   addActuator(flow_inputs);
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
@@ -409,8 +409,8 @@ double FlowControlResidual<dim, entvar>::calcEntropyChange_(
 
    // get the control velocity; for this we need the boundary entropy at the
    // new state, so compute that first
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   addActuator(flow_inputs);
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
diff --git a/src/physics/fluidflow/flow_control_residual.hpp b/src/physics/fluidflow/flow_control_residual.hpp
index 280ec05..4971531 100644
--- a/src/physics/fluidflow/flow_control_residual.hpp
+++ b/src/physics/fluidflow/flow_control_residual.hpp
@@ -287,6 +287,16 @@ public:
                       mfem::Vector &control_state,
                       mfem::Vector &flow_state) const;
 
+   /// Adds the actuator position to `inputs`, if one has been set
+   /// \param[inout] inputs - inputs for the flow residual or its outputs
+   void addActuator(MISOInputs &inputs)
+   {
+      if (x_actuator.Size() > 0)
+      {
+         inputs.emplace("x-actuator", x_actuator);
+      }
+   }
+
    /// Set the given vector to the free-stream value
    /// \param[out] qfar - used to hold the free-stream state upon return
    void getFreeStreamState(mfem::Vector &qfar)
-- 
2.43.0


From dee73686fb2be5493d608c2da92b96e3a8fe9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 84/98] fix: the controlled flow's constant-CFL step ends at
 t-final

---
 src/physics/fluidflow/flow_control_solver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 92b9ba7..6d9d89f 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -352,8 +352,13 @@ double FlowControlSolver<dim, entvar>::calcStepSize(int iter,
    extractStates(state, control_state, flow_state);
    FiniteElementState &flow_field = fields.at("flow_state");
    flow_field.distributeSharedDofs(flow_state);
-   return getConcrete<ResType>(*spatial_res)
-       .minCFLTimeStep(cfl, flow_field.gridFunc());
+   double dt = getConcrete<ResType>(*spatial_res)
+                   .minCFLTimeStep(cfl, flow_field.gridFunc());
+   if (options["time-dis"].value("exact-t-final", true))
+   {
+      dt = min(dt, t_final - t);
+   }
+   return dt;
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From 03df563141823d47f1eb848a0e754eaaf0b69ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 85/98] fix: a second controlled-flow solve records its output
 histories

---
 src/physics/fluidflow/flow_control_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 6d9d89f..3b018fe 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -281,8 +281,8 @@ void FlowControlSolver<dim, entvar>::initialHook(const mfem::Vector &state)
             string output_filename =
                 pair.first + "-" + std::to_string(sample) + ".txt";
             remove(output_filename.c_str());
-            output_log.emplace(pair.first,
-                               ofstream(output_filename, fstream::app));
+            output_log.insert_or_assign(
+                pair.first, ofstream(output_filename, fstream::app));
             // output_log[pair.first].open(output_filenam, fstream::app);
             output_log[pair.first] << setprecision(16);
          }
-- 
2.43.0


From 001bacc27b37c853837fa178940f9cffd37bcbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 86/98] fix: the recorded boundary entropy is taken around the
 actuator given

---
 src/physics/fluidflow/flow_control_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 3b018fe..71de7f1 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -271,6 +271,7 @@ void FlowControlSolver<dim, entvar>::initialHook(const mfem::Vector &state)
          else
          {
             inputs = MISOInputs({{"time", t0}, {"state", flow_state}});
+            getConcrete<ResType>(*spatial_res).addActuator(inputs);
          }
          double fun = miso::calcOutput(pair.second, inputs);
          *out << "\t" << pair.first << " = " << fun << endl;
@@ -316,6 +317,7 @@ void FlowControlSolver<dim, entvar>::iterationHook(int iter,
          else
          {
             inputs = MISOInputs({{"time", t}, {"state", flow_state}});
+            getConcrete<ResType>(*spatial_res).addActuator(inputs);
          }
          double fun = miso::calcOutput(pair.second, inputs);
          if (rank == 0)
@@ -405,6 +407,7 @@ void FlowControlSolver<dim, entvar>::terminalHook(int iter,
          else
          {
             inputs = MISOInputs({{"time", t_final}, {"state", flow_state}});
+            getConcrete<ResType>(*spatial_res).addActuator(inputs);
          }
          double fun = miso::calcOutput(pair.second, inputs);
          if (rank == 0)
-- 
2.43.0


From 56bf2c8fa1792e09026e46eab25312b750eb24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:39 +0000
Subject: [PATCH 87/98] fix: index a surface's own elements when copying the
 nodes of the chosen boundaries

---
 src/common/surface_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/surface_def.hpp b/src/common/surface_def.hpp
index 342f938..7c316dd 100644
--- a/src/common/surface_def.hpp
+++ b/src/common/surface_def.hpp
@@ -137,6 +137,7 @@ Surface<dim>::Surface(mfem::Mesh &vol_mesh, mfem::Array<int> &bdr_attr_marker)
          Array<int> vdofs;
          Array<int> bvdofs;
          Vector v;
+         int elem = 0;
          for (int i = 0; i < vol_mesh.GetNBE(); i++)
          {
             int bdr_attr = vol_mesh.GetBdrAttribute(i);
@@ -148,7 +149,8 @@ Surface<dim>::Surface(mfem::Mesh &vol_mesh, mfem::Array<int> &bdr_attr_marker)
             fes->GetBdrElementVDofs(i, vdofs);
             vol_mesh.GetNodes()->GetSubVector(vdofs, v);
 
-            fes_copy->GetElementVDofs(i, bvdofs);
+            // only the marked boundary elements are in the surface mesh
+            fes_copy->GetElementVDofs(elem++, bvdofs);
             bdr_nodes->SetSubVector(bvdofs, v);
          }
       }
-- 
2.43.0


From 171376ffaca327bf0cadc3753f02aa45e5f50b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:39 +0000
Subject: [PATCH 88/98] fix: judge the convergence of a surface distance
 relative to the scale of the geometry

---
 src/common/surface_def.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/surface_def.hpp b/src/common/surface_def.hpp
index 7c316dd..0f0b800 100644
--- a/src/common/surface_def.hpp
+++ b/src/common/surface_def.hpp
@@ -249,8 +249,10 @@ double Surface<dim>::solveDistance(mfem::ElementTransformation &trans,
       std::cout << "\titeration " << n << ": optimality = " << gradient.Norml2()
                 << ": distance = " << res.Norml2() << std::endl;
 #endif
-      // check for convergence
-      if (gradient.Norml2() < tol)
+      // check for convergence, relative to the size of the gradient's terms
+      const double jac_norm = Jac.FNorm();
+      if (gradient.Norml2() <=
+          tol * jac_norm * (jac_norm + res.Norml2() + x.Norml2()))
       {
          return res.Norml2();
       }
-- 
2.43.0


From 11013171f367cdc6f1fdcf9bb06c68a2a3a48a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:39 +0000
Subject: [PATCH 89/98] fix: search every surface element that shares the
 nearest node

---
 src/common/surface.hpp     |  2 ++
 src/common/surface_def.hpp | 22 +++++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/common/surface.hpp b/src/common/surface.hpp
index 1995e71..9bb9f02 100644
--- a/src/common/surface.hpp
+++ b/src/common/surface.hpp
@@ -62,6 +62,8 @@ private:
    mfem::Mesh *mesh;
    /// kd-tree used to narrow search of candidate elements
    KDTree tree;
+   /// The elements that share each node of the surface mesh
+   mfem::Table node_to_elem;
 
 #ifndef MFEM_THREAD_SAFE
    /// reference space integration point used in Newton's method
diff --git a/src/common/surface_def.hpp b/src/common/surface_def.hpp
index 0f0b800..8d8ce75 100644
--- a/src/common/surface_def.hpp
+++ b/src/common/surface_def.hpp
@@ -1,6 +1,9 @@
 #ifndef MISO_SURFACE_DEF
 #define MISO_SURFACE_DEF
 
+#include <algorithm>
+#include <limits>
+
 #include "mfem.hpp"
 
 #include "kdtree.hpp"
@@ -186,6 +189,10 @@ void Surface<dim>::buildKDTree()
       tree.add_node(node, i);
    }
    tree.finalize();
+   // a node can belong to several elements
+   Transpose(nodes.FESpace()->GetElementToDofTable(),
+             node_to_elem,
+             nodes.FESpace()->GetNDofs());
 }
 
 template <int dim>
@@ -193,13 +200,18 @@ double Surface<dim>::calcDistance(const mfem::Vector &x)
 {
    using namespace mfem;
    const FiniteElementSpace *fes = mesh->GetNodalFESpace();
-   // search for the element whose center is closest to x
+   // search for the node that is closest to x
    int i = tree.nearest(x);
-   int e = fes->GetElementForDof(i);
 
-   // Apply Newton's method to find the closest point in ref space
-   ElementTransformation *trans = fes->GetElementTransformation(e);
-   double dist = solveDistance(*trans, x);
+   // Apply Newton's method to find the closest point in ref space on each of
+   // the elements that share this node
+   double dist = std::numeric_limits<double>::infinity();
+   for (int j = 0; j < node_to_elem.RowSize(i); ++j)
+   {
+      int e = node_to_elem.GetRow(i)[j];
+      ElementTransformation *trans = fes->GetElementTransformation(e);
+      dist = std::min(dist, solveDistance(*trans, x));
+   }
    return dist;
 }
 
-- 
2.43.0


From f24bfac2c87869841bb7007122ae2f9c52affaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 90/98] fix: judge a singular Hessian relative to the size of
 the element

---
 src/common/surface_def.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/surface_def.hpp b/src/common/surface_def.hpp
index 8d8ce75..dd4c0ab 100644
--- a/src/common/surface_def.hpp
+++ b/src/common/surface_def.hpp
@@ -2,6 +2,7 @@
 #define MISO_SURFACE_DEF
 
 #include <algorithm>
+#include <cmath>
 #include <limits>
 
 #include "mfem.hpp"
@@ -287,7 +288,9 @@ double Surface<dim>::solveDistance(mfem::ElementTransformation &trans,
 
       // compute the Newton step
       step.Set(-1.0, gradient);
-      bool success = LinearSolve(Hess, step.GetData());
+      // the Hessian scales with the square of the element's size
+      const double det_tol = tol * std::pow(Jac.FNorm(), 2 * (dim - 1));
+      bool success = LinearSolve(Hess, step.GetData(), det_tol);
       if (!success)
       {
          throw MISOException("LinearSolve failed in Surface::solveDistance!");
-- 
2.43.0


From 9008c8df947c07c3027e870722191f5338579f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:20 +0000
Subject: [PATCH 91/98] fix: use the transposed product for the reverse mode of
 the mesh warper component

---
 miso/mesh_warper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miso/mesh_warper.py b/miso/mesh_warper.py
index a64ac2b..297cc94 100644
--- a/miso/mesh_warper.py
+++ b/miso/mesh_warper.py
@@ -108,7 +108,7 @@ class MISOMeshWarper(om.ImplicitComponent):
                                                  "state",
                                                  d_outputs["vol_mesh_coords"])
                 if "surf_mesh_coords" in d_inputs:
-                    warper.jacobianVectorProduct(d_residuals["vol_mesh_coords"],
+                    warper.vectorJacobianProduct(d_residuals["vol_mesh_coords"],
                                                  "surf_mesh_coords",
                                                  d_inputs["surf_mesh_coords"])
 
-- 
2.43.0


From eea965ef9a27265a7371ce9b56f7dd9d774f6d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:20 +0000
Subject: [PATCH 92/98] fix: give the state component a zero adjoint for a zero
 right-hand side

---
 miso/miso_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/miso/miso_state.py b/miso/miso_state.py
index 95bc269..5b738cb 100644
--- a/miso/miso_state.py
+++ b/miso/miso_state.py
@@ -302,5 +302,6 @@ class MISOState(om.ImplicitComponent):
                 # solver.solveForAdjoint(input_dict,
                 #                        state_bar,
                 #                        d_residuals["state"])
-            # else:
-            #     print("zero fun_bar!")
+            else:
+                # the adjoint of nothing is nothing
+                d_residuals["state"][:] = 0.0
-- 
2.43.0


From 8b05ed42bc8550a96c73c52e3a5adac32cdb3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:20 +0000
Subject: [PATCH 93/98] fix: return floating point options to Python as floats

---
 miso/pyMISO/pybind11_json.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/miso/pyMISO/pybind11_json.hpp b/miso/pyMISO/pybind11_json.hpp
index 3a9837e..789cedd 100644
--- a/miso/pyMISO/pybind11_json.hpp
+++ b/miso/pyMISO/pybind11_json.hpp
@@ -31,17 +31,13 @@ inline py::object from_json(const nl::json &j)
    {
       return py::bool_(j.get<bool>());
    }
+   else if (j.is_number_integer())
+   {
+      return py::int_(j.get<long>());
+   }
    else if (j.is_number())
    {
-      double number = j.get<double>();
-      if (number == std::floor(number))
-      {
-         return py::int_(j.get<long>());
-      }
-      else
-      {
-         return py::float_(number);
-      }
+      return py::float_(j.get<double>());
    }
    else if (j.is_string())
    {
-- 
2.43.0


From 0a96a62b5713a1051c13e955482bb70aa21a09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:43 +0000
Subject: [PATCH 94/98] fix: let calcStateError call scalar functions from
 Python and return the error

---
 miso/pyMISO/misoSolver.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/miso/pyMISO/misoSolver.cpp b/miso/pyMISO/misoSolver.cpp
index 3fd9bd1..2aef4a4 100644
--- a/miso/pyMISO/misoSolver.cpp
+++ b/miso/pyMISO/misoSolver.cpp
@@ -100,11 +100,20 @@ void initSolver(py::module &m)
        .def(
            "calcStateError",
            [](AbstractSolver2 &self,
-              const std::function<void(mfem::Vector &)> &ex_sol,
+              const std::function<double(const py::array_t<double> &)> &ex_sol,
               const py::array_t<double> &state,
-              const std::string &name) {
+              const std::string &name)
+           {
+              auto cpp_ex_sol = [&ex_sol](const mfem::Vector &x)
+              {
+                 py::array_t<double> py_x{
+                     x.Size(),   /* Buffer dimensions */
+                     x.GetData() /* Pointer to buffer */
+                 };
+                 return ex_sol(py_x);
+              };
               return self.calcStateError(
-                  ex_sol, npBufferToMFEMVector(state), name);
+                  cpp_ex_sol, npBufferToMFEMVector(state), name);
            },
            py::arg("ex_sol"),
            py::arg("state"),
-- 
2.43.0


From a64fb442c6ef636481c6174d45faf38df776749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:43 +0000
Subject: [PATCH 95/98] fix: refuse Python inputs that would be converted to a
 temporary array

---
 miso/pyMISO/py_miso_utils.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/miso/pyMISO/py_miso_utils.hpp b/miso/pyMISO/py_miso_utils.hpp
index 3e3773a..8c10764 100644
--- a/miso/pyMISO/py_miso_utils.hpp
+++ b/miso/pyMISO/py_miso_utils.hpp
@@ -115,6 +115,13 @@ inline MISOInputs pyDictToMISOInputs(const py::dict &py_inputs)
       }
       else
       {
+         // the inputs refer to the array, which a conversion would not outlive
+         if (!py::isinstance<py::array_t<double>>(input.second))
+         {
+            throw std::runtime_error(
+                "Incompatible format:\n"
+                "\texpected a double array!");
+         }
          const auto &value_buffer = input.second.cast<py::array_t<double>>();
          auto vector = npBufferToMFEMVector(value_buffer);
 
-- 
2.43.0


From 4d5f4fb3a9dc82479177401384028508d76374be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:43 +0000
Subject: [PATCH 96/98] fix: refuse forward products of nonlinear forms that
 are not implemented

---
 src/physics/miso_nonlinearform.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index c34708e..5c53c49 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -203,7 +203,8 @@ double jacobianVectorProduct(MISONonlinearForm &form,
                              const mfem::Vector &wrt_dot,
                              const std::string &wrt)
 {
-   if (form.fwd_scalar_sens.count(wrt) != 0)
+   if (form.fwd_scalar_sens.count(wrt) != 0 ||
+       form.rev_scalar_sens.count(wrt) != 0)
    {
       throw NotImplementedException(
           "not implemented for scalar sensitivities!\n");
@@ -249,7 +250,7 @@ void jacobianVectorProduct(MISONonlinearForm &form,
          }
       }
    }
-   else if (form.fwd_sens.count(wrt) != 0)
+   else if (form.fwd_sens.count(wrt) != 0 || form.rev_sens.count(wrt) != 0)
    {
       throw NotImplementedException(
           "not implemented for vector sensitivities (except for state)!\n");
-- 
2.43.0


From 3208fd8fad797a06e2d591ebf4b2c2a048d4e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:43 +0000
Subject: [PATCH 97/98] fix: differentiate the residual with respect to the
 boundary values

---
 src/physics/miso_nonlinearform.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 5c53c49..876549e 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -250,6 +250,13 @@ void jacobianVectorProduct(MISONonlinearForm &form,
          }
       }
    }
+   else if (wrt == "dirichlet_bc" && form.nf_fields.count(wrt) != 0)
+   {
+      for (const auto tdof : form.getEssentialDofs())
+      {
+         res_dot(tdof) -= wrt_dot(tdof);
+      }
+   }
    else if (form.fwd_sens.count(wrt) != 0 || form.rev_sens.count(wrt) != 0)
    {
       throw NotImplementedException(
@@ -323,6 +330,13 @@ void vectorJacobianProduct(MISONonlinearForm &form,
 
       // form.adjoint_jac_trans->Mult(res_bar, wrt_bar);
    }
+   else if (wrt == "dirichlet_bc" && form.nf_fields.count(wrt) != 0)
+   {
+      for (const auto tdof : form.getEssentialDofs())
+      {
+         wrt_bar(tdof) -= res_bar(tdof);
+      }
+   }
    else if (form.rev_sens.count(wrt) != 0)
    {
       form.scratch.SetSize(res_bar.Size());
-- 
2.43.0


From 119a5a088f83424882b67af1f544d67977628c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:34 +0000
Subject: [PATCH 98/98] fix: refuse forward products of scalar inputs and
 linear forms that are not implemented

---
 src/common/miso_linearform.cpp     | 7 +++++--
 src/physics/miso_nonlinearform.cpp | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/miso_linearform.cpp b/src/common/miso_linearform.cpp
index c350c88..cd1178b 100644
--- a/src/common/miso_linearform.cpp
+++ b/src/common/miso_linearform.cpp
@@ -66,7 +66,8 @@ double jacobianVectorProduct(MISOLinearForm &load,
                              const mfem::Vector &wrt_dot,
                              const std::string &wrt)
 {
-   if (load.fwd_scalar_sens.count(wrt) != 0)
+   if (load.fwd_scalar_sens.count(wrt) != 0 ||
+       load.rev_scalar_sens.count(wrt) != 0)
    {
       throw NotImplementedException(
           "not implemented for scalar sensitivities!\n");
@@ -79,7 +80,9 @@ void jacobianVectorProduct(MISOLinearForm &load,
                            const std::string &wrt,
                            mfem::Vector &res_dot)
 {
-   if (load.fwd_sens.count(wrt) != 0)
+   if (load.fwd_sens.count(wrt) != 0 || load.rev_sens.count(wrt) != 0 ||
+       load.fwd_scalar_sens.count(wrt) != 0 ||
+       load.rev_scalar_sens.count(wrt) != 0)
    {
       throw NotImplementedException(
           "not implemented for vector sensitivities!\n");
diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 876549e..a10a51d 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -257,7 +257,9 @@ void jacobianVectorProduct(MISONonlinearForm &form,
          res_dot(tdof) -= wrt_dot(tdof);
       }
    }
-   else if (form.fwd_sens.count(wrt) != 0 || form.rev_sens.count(wrt) != 0)
+   else if (form.fwd_sens.count(wrt) != 0 || form.rev_sens.count(wrt) != 0 ||
+            form.fwd_scalar_sens.count(wrt) != 0 ||
+            form.rev_scalar_sens.count(wrt) != 0)
    {
       throw NotImplementedException(
           "not implemented for vector sensitivities (except for state)!\n");
-- 
2.43.0

