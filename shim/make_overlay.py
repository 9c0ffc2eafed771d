#!/usr/bin/env python3
"""Make a patched copy of the installed MFEM 4.5.2 headers that adds the few
interfaces of the ODL branch of MFEM that MISO is written against (see
DESIGN.md, "Stand-ins").  Only headers change; the installed libmfem.so is used
as it is.  Every replacement is asserted to match exactly once (or n times)."""
import os, re, shutil, sys

def main(out):
    src = "/usr/include/mfem"
    dst = os.path.join(out, "mfem")
    if os.path.exists(os.path.join(out, "OK")):
        return
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(src, dst)
    shutil.copy("/usr/include/mfem.hpp", os.path.join(out, "mfem.hpp"))

    def patch(rel, *reps):
        p = os.path.join(dst, rel)
        s = open(p).read()
        for old, new in reps:
            assert s.count(old) == 1, (rel, old, s.count(old))
            s = s.replace(old, new)
        open(p, "w").write(s)

    # Array's move constructor leaves an indeterminate size behind in 4.5.2
    patch("general/array.hpp", (
        "   inline Array(Array<T> &&src) { Swap(src, *this); }\n",
        "   inline Array(Array<T> &&src) : size(0) { Swap(src, *this); }\n"))

    # 1. derivatives of element transformations
    patch("fem/eltrans.hpp", (
        "   virtual ~IsoparametricTransformation() { }\n",
        """   // ---- additions of the overlay (all accumulate into PointMat_bar) ----
   void WeightRevDiff(DenseMatrix &PointMat_bar) { WeightRevDiff(1.0, PointMat_bar); }
   void WeightRevDiff(double W_bar, DenseMatrix &PointMat_bar);
   void JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PointMat_bar);
   void AdjugateJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &PointMat_bar);
   void InverseJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &PointMat_bar);
   void TransformRevDiff(const IntegrationPoint &ip, const Vector &x_bar,
                         DenseMatrix &PointMat_bar);

   virtual ~IsoparametricTransformation() { }
"""))
    patch("linalg/densemat.hpp", (
        "void CalcOrtho(const DenseMatrix &J, Vector &n);\n",
        "void CalcOrtho(const DenseMatrix &J, Vector &n);\n"
        "void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n_bar, DenseMatrix &J_bar);\n"))

    # 2. finite elements
    patch("fem/fe/fe_base.hpp", (
        "   void CalcPhysShape(ElementTransformation &Trans, Vector &shape) const;\n",
        """   void CalcPhysShape(ElementTransformation &Trans, Vector &shape) const;
   void CalcPhysShapeRevDiff(ElementTransformation &Trans, const Vector &shape_bar,
                             DenseMatrix &PointMat_bar) const;
   void CalcVShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &vshape_bar,
                          DenseMatrix &PointMat_bar) const;
   void CalcPhysCurlShapeRevDiff(ElementTransformation &Trans,
                                 const DenseMatrix &curlshape_bar,
                                 DenseMatrix &PointMat_bar) const;
"""))

    # 3. coefficients
    p = os.path.join(dst, "fem/coefficient.hpp")
    s = open(p).read()
    old = "   virtual ~Coefficient() { }\n"
    assert s.count(old) == 1
    s = s.replace(old, old + """
   // overlay: LAST virtual, so the slots libmfem knows about stay put
   virtual void EvalRevDiff(const double Q_bar, ElementTransformation &T,
                            const IntegrationPoint &ip, DenseMatrix &PointMat_bar);
""")
    old = "   virtual ~VectorCoefficient() { }\n"
    assert s.count(old) == 1
    s = s.replace(old, old + """
   virtual void EvalRevDiff(const Vector &V_bar, ElementTransformation &T,
                            const IntegrationPoint &ip, DenseMatrix &PointMat_bar);
""")
    defs = []
    def repl(m):
        name, base = m.group(1), m.group(2)
        qt = "const double" if base == "Coefficient" else "const Vector &"
        defs.append((name, base))
        return (m.group(0) +
                "\n   // overlay: first virtual, hence the key function\n"
                f"   void EvalRevDiff({qt} Q_bar, ElementTransformation &T,\n"
                "                    const IntegrationPoint &ip, DenseMatrix &PointMat_bar);\n")
    s, n = re.subn(r"class (\w+) : public (Coefficient|VectorCoefficient)\n\{.*?\npublic:",
                   repl, s, flags=re.S)
    assert n >= 25, n
    def sub1(old, new):
        nonlocal s
        assert s.count(old) == 1, old
        s = s.replace(old, new)
    sub1("""   FunctionCoefficient(std::function<double(const Vector &)> F)
      : Function(std::move(F))
   { }
""", """   FunctionCoefficient(std::function<double(const Vector &)> F)
      : Function(std::move(F))
   { }
   FunctionCoefficient(std::function<double(const Vector &)> F,
                       std::function<void(const Vector &, const double, Vector &)> FRevDiff)
      : Function(std::move(F)), FunctionRevDiff(std::move(FRevDiff))
   { }
   FunctionCoefficient(std::function<double(const Vector &, double)> TDF,
                       std::function<void(const Vector &, double, const double, Vector &)> TDFRevDiff)
      : TDFunction(std::move(TDF)), TDFunctionRevDiff(std::move(TDFRevDiff))
   { }
""")
    sub1("""      TDFunction = reinterpret_cast<double(*)(const Vector&,double)>(tdf);
   }

   /// Evaluate the coefficient at @a ip.
   virtual double Eval(ElementTransformation &T,
                       const IntegrationPoint &ip);
""", """      TDFunction = reinterpret_cast<double(*)(const Vector&,double)>(tdf);
   }

   /// Evaluate the coefficient at @a ip.
   virtual double Eval(ElementTransformation &T,
                       const IntegrationPoint &ip);
protected: // overlay: appended, so that libmfem's offsets stay valid
   std::function<void(const Vector &, const double, Vector &)> FunctionRevDiff;
   std::function<void(const Vector &, double, const double, Vector &)> TDFunctionRevDiff;
""")
    sub1("""                             std::function<void(const Vector &, Vector &)> F,
                             Coefficient *q = nullptr)
      : VectorCoefficient(dim), Function(std::move(F)), Q(q)
   { }
""", """                             std::function<void(const Vector &, Vector &)> F,
                             Coefficient *q = nullptr)
      : VectorCoefficient(dim), Function(std::move(F)), Q(q)
   { }
   VectorFunctionCoefficient(int dim,
                             std::function<void(const Vector &, Vector &)> F,
                             std::function<void(const Vector &, const Vector &, Vector &)> FRevDiff,
                             Coefficient *q = nullptr)
      : VectorCoefficient(dim), Function(std::move(F)), Q(q),
        FunctionRevDiff(std::move(FRevDiff))
   { }
""")
    sub1("""   virtual ~VectorFunctionCoefficient() { }
""", """   virtual ~VectorFunctionCoefficient() { }
private: // overlay: appended
   std::function<void(const Vector &, const Vector &, Vector &)> FunctionRevDiff;
""")
    open(p, "w").write(s)
    with open(os.path.join(out, "coeff_revdiff.inc"), "w") as f:
        for name, base in defs:
            if name in ("FunctionCoefficient", "VectorFunctionCoefficient",
                        "ProductCoefficient", "ScalarVectorProductCoefficient"):
                continue
            qt = "const double" if base == "Coefficient" else "const Vector &"
            # a grid function's value at a reference point does not move with the nodes
            body = ("{ }" if name in ("ConstantCoefficient", "VectorConstantCoefficient", "GridFunctionCoefficient")
                    else f'{{ mfem_error("overlay: {name}::EvalRevDiff is not implemented"); }}')
            f.write(f"void {name}::EvalRevDiff({qt}, ElementTransformation &, "
                    f"const IntegrationPoint &, DenseMatrix &) {body}\n")

    # 4. linear forms: move construction, internal boundary faces
    patch("fem/linearform.hpp", (
        "class LinearForm : public Vector\n{\n",
        '}\n#include "../nonlininteg_odl.hpp"\nnamespace mfem\n{\n'
        "class LinearForm : public Vector\n{\n"), (
        "   void AddInteriorFaceIntegrator(LinearFormIntegrator *lfi);\n",
        """   void AddInteriorFaceIntegrator(LinearFormIntegrator *lfi);
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *lfi)
   { AddInteriorFaceIntegrator(odl::WrapInternalBdr(*fes, lfi, nullptr)); }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *lfi, Array<int> &marker)
   { AddInteriorFaceIntegrator(odl::WrapInternalBdr(*fes, lfi, &marker)); }
   LinearForm(LinearForm &&o)
      : Vector(std::move(static_cast<Vector &>(o))), fes(o.fes), ext(o.ext),
        fast_assembly(o.fast_assembly), extern_lfs(o.extern_lfs),
        domain_integs(std::move(o.domain_integs)),
        domain_integs_marker(std::move(o.domain_integs_marker)),
        domain_delta_integs(std::move(o.domain_delta_integs)),
        boundary_integs(std::move(o.boundary_integs)),
        boundary_integs_marker(std::move(o.boundary_integs_marker)),
        boundary_face_integs(std::move(o.boundary_face_integs)),
        boundary_face_integs_marker(std::move(o.boundary_face_integs_marker)),
        interior_face_integs(std::move(o.interior_face_integs))
   { o.ext = nullptr; }
"""))
    patch("fem/plinearform.hpp", (
        "   ParFiniteElementSpace *ParFESpace() const { return pfes; }\n",
        """   ParFiniteElementSpace *ParFESpace() const { return pfes; }
   ParLinearForm(ParLinearForm &&o)
      : LinearForm(std::move(static_cast<LinearForm &>(o))), pfes(o.pfes) { }
"""))

    # 5. nonlinear forms
    patch("fem/nonlinearform.hpp", (
        "class NonlinearForm : public Operator\n{\n",
        '}\n#include "../nonlininteg_odl.hpp"\nnamespace mfem\n{\n'
        "class NonlinearForm : public Operator\n{\n"), (
        """   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi)
   { dnfi.Append(nlfi); }
""", """   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi)
   { dnfi.Append(nlfi); }
   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &marker)
   { dnfi.Append(odl::WrapMarkedDomain(nlfi, marker)); }
   template <class T>
   void AddInternalBoundaryFaceIntegrator(T *nlfi)
   {
      odl::RegisterFaceEnergy(nlfi);
      fnfi.Append(odl::WrapInternalBdr(*fes, nlfi, nullptr));
   }
   template <class T>
   void AddInternalBoundaryFaceIntegrator(T *nlfi, Array<int> &marker)
   {
      odl::RegisterFaceEnergy(nlfi);
      fnfi.Append(odl::WrapInternalBdr(*fes, nlfi, &marker));
   }
   NonlinearForm(NonlinearForm &&o)
      : Operator(o.height, o.width), assembly(o.assembly), ext(o.ext), fes(o.fes),
        dnfi(std::move(o.dnfi)), fnfi(std::move(o.fnfi)), bfnfi(std::move(o.bfnfi)),
        bfnfi_marker(std::move(o.bfnfi_marker)), Grad(NULL), cGrad(NULL),
        ess_tdof_list(std::move(o.ess_tdof_list)), sequence(o.sequence), P(o.P),
        cP(o.cP)
   { o.ext = NULL; }
"""), (
        """   void AddInteriorFaceIntegrator(NonlinearFormIntegrator *nlfi)
   { fnfi.Append(nlfi); }
""", """   template <class T>
   void AddInteriorFaceIntegrator(T *nlfi)
   { odl::RegisterFaceEnergy(nlfi); fnfi.Append(nlfi); }
"""), (
        """   void AddBdrFaceIntegrator(NonlinearFormIntegrator *nlfi)
   { bfnfi.Append(nlfi); bfnfi_marker.Append(NULL); }
""", """   template <class T>
   void AddBdrFaceIntegrator(T *nlfi)
   { odl::RegisterFaceEnergy(nlfi); bfnfi.Append(nlfi); bfnfi_marker.Append(NULL); }
"""), (
        """   void AddBdrFaceIntegrator(NonlinearFormIntegrator *nfi,
                             Array<int> &bdr_marker)
   { bfnfi.Append(nfi); bfnfi_marker.Append(&bdr_marker); }
""", """   template <class T>
   void AddBdrFaceIntegrator(T *nfi, Array<int> &bdr_marker)
   { odl::RegisterFaceEnergy(nfi); bfnfi.Append(nfi); bfnfi_marker.Append(&bdr_marker); }
"""))
    patch("fem/pnonlinearform.hpp", (
        """   double GetEnergy(const ParGridFunction &x) const
   { return GetParGridFunctionEnergy(x); }
""", """   double GetEnergy(const ParGridFunction &x) const
   { return GetParGridFunctionEnergy(x); }
   ParNonlinearForm(ParNonlinearForm &&o)
      : NonlinearForm(std::move(static_cast<NonlinearForm &>(o))),
        pGrad(Operator::Hypre_ParCSR)
   {
      X.MakeRef(ParFESpace(), NULL);
      Y.MakeRef(ParFESpace(), NULL);
   }
"""))
    # 6. bilinear forms
    patch("fem/bilinearform.hpp", (
        "   /// Get the size of the BilinearForm as a square matrix.\n   int Size() const { return height; }\n",
        """   /// Get the size of the BilinearForm as a square matrix.
   int Size() const { return height; }
   BilinearForm(BilinearForm &&o)
      : Matrix(o.height, o.width), mat(o.mat), mat_e(o.mat_e), fes(o.fes),
        assembly(o.assembly), batch(o.batch), ext(o.ext),
        sort_sparse_matrix(o.sort_sparse_matrix), sequence(o.sequence),
        extern_bfs(o.extern_bfs),
        domain_integs(std::move(o.domain_integs)),
        domain_integs_marker(std::move(o.domain_integs_marker)),
        boundary_integs(std::move(o.boundary_integs)),
        boundary_integs_marker(std::move(o.boundary_integs_marker)),
        interior_face_integs(std::move(o.interior_face_integs)),
        boundary_face_integs(std::move(o.boundary_face_integs)),
        boundary_face_integs_marker(std::move(o.boundary_face_integs_marker)),
        element_matrices(o.element_matrices), static_cond(o.static_cond),
        hybridization(o.hybridization), diag_policy(o.diag_policy),
        precompute_sparsity(o.precompute_sparsity)
   {
      o.mat = NULL; o.mat_e = NULL; o.ext = NULL; o.element_matrices = NULL;
      o.static_cond = NULL; o.hybridization = NULL;
   }
"""))
    patch("fem/pbilinearform.hpp", (
        "   void KeepNbrBlock(bool knb = true) { keep_nbr_block = knb; }\n",
        """   void KeepNbrBlock(bool knb = true) { keep_nbr_block = knb; }
   ParBilinearForm(ParBilinearForm &&o)
      : BilinearForm(std::move(static_cast<BilinearForm &>(o))), pfes(o.pfes),
        p_mat(Operator::Hypre_ParCSR), p_mat_e(Operator::Hypre_ParCSR),
        keep_nbr_block(o.keep_nbr_block)
   { }
"""))
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "nonlininteg_odl.hpp"),
                os.path.join(dst, "nonlininteg_odl.hpp"))
    open(os.path.join(out, "OK"), "w").write("ok\n")

main(sys.argv[1])
