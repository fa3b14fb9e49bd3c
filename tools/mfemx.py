"""An overlay of the installed mfem headers (symbolic links plus a few patched
copies) that adds the members MISO uses from its own fork of mfem, defined from
their mathematical meaning.  Nothing is added that changes the layout of an
object; virtual functions are only appended behind the last one of a class."""
import hashlib, os, re, shutil, tempfile

SRC = "/usr/include/mfem"

REVDIFF = r"""
   // ---- reverse mode of the geometric factors (overlay) ----
   void JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PointMat_bar)
   {
      const FiniteElement *fe = GetFE();
      mfemx::jacRev(*fe, GetIntPoint(), J_bar, PointMat_bar);
   }
   void WeightRevDiff(double w_bar, DenseMatrix &PointMat_bar)
   {
      DenseMatrix J_bar;
      mfemx::weightGrad(Jacobian(), J_bar);
      J_bar *= w_bar;
      JacobianRevDiff(J_bar, PointMat_bar);
   }
   void WeightRevDiff(DenseMatrix &PointMat_bar) { WeightRevDiff(1.0, PointMat_bar); }
   void AdjugateJacobianRevDiff(const DenseMatrix &adj_bar, DenseMatrix &PointMat_bar)
   {
      DenseMatrix J_bar;
      mfemx::adjRev(Jacobian(), adj_bar, J_bar);
      JacobianRevDiff(J_bar, PointMat_bar);
   }
   void InverseJacobianRevDiff(const DenseMatrix &inv_bar, DenseMatrix &PointMat_bar)
   {
      DenseMatrix J_bar;
      mfemx::invRev(InverseJacobian(), inv_bar, J_bar);
      JacobianRevDiff(J_bar, PointMat_bar);
   }
"""

HELPERS = r"""
namespace mfemx
{
void jacRev(const mfem::FiniteElement &fe, const mfem::IntegrationPoint &ip, const mfem::DenseMatrix &J_bar, mfem::DenseMatrix &P_bar);
void weightGrad(const mfem::DenseMatrix &J, mfem::DenseMatrix &J_bar);
void adjRev(const mfem::DenseMatrix &J, const mfem::DenseMatrix &adj_bar, mfem::DenseMatrix &J_bar);
void invRev(const mfem::DenseMatrix &Jinv, const mfem::DenseMatrix &inv_bar, mfem::DenseMatrix &J_bar);
void shapeRev(const mfem::FiniteElement &fe, mfem::ElementTransformation &T, const mfem::Vector &bar, mfem::DenseMatrix &P_bar);
void vshapeRev(const mfem::FiniteElement &fe, mfem::ElementTransformation &T, const mfem::DenseMatrix &bar, mfem::DenseMatrix &P_bar);
void curlRev(const mfem::FiniteElement &fe, mfem::ElementTransformation &T, const mfem::DenseMatrix &bar, mfem::DenseMatrix &P_bar);
}
"""

EDITS = {
    "fem/coefficient.hpp": [
        ("   virtual ~Coefficient() { }\n",
         "   virtual ~Coefficient() { }\n   virtual void EvalRevDiff(const double, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) { }\n"),
        ("   virtual ~VectorCoefficient() { }\n",
         "   virtual ~VectorCoefficient() { }\n   virtual void EvalRevDiff(const Vector &, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) { }\n"),
    ],
    "fem/eltrans.hpp": [
        ("namespace mfem\n{", "namespace mfem { class FiniteElement; class ElementTransformation; }\n" + HELPERS + "namespace mfem\n{"),
        ("   DenseMatrix &GetPointMat() { return PointMat; }\n", "   DenseMatrix &GetPointMat() { return PointMat; }\n" + REVDIFF),
    ],
    "fem/fe/fe_base.hpp": [
        ("#include \"../intrules.hpp\"\n", "#include \"../intrules.hpp\"\nnamespace mfem { class FiniteElement; class ElementTransformation; class VectorCoefficient; class DenseMatrix; class Vector; class IntegrationPoint; }\n" + HELPERS),
        ("   void CalcPhysShape(ElementTransformation &Trans, Vector &shape) const;\n",
         "   void CalcPhysShape(ElementTransformation &Trans, Vector &shape) const;\n"
         "   void CalcPhysShapeRevDiff(ElementTransformation &T, const Vector &bar, DenseMatrix &P) const { mfemx::shapeRev(*this, T, bar, P); }\n"
         "   void CalcVShapeRevDiff(ElementTransformation &T, const DenseMatrix &bar, DenseMatrix &P) const { mfemx::vshapeRev(*this, T, bar, P); }\n"
         "   void CalcPhysVShapeRevDiff(ElementTransformation &T, const DenseMatrix &bar, DenseMatrix &P) const { mfemx::vshapeRev(*this, T, bar, P); }\n"
         "   void CalcPhysCurlShapeRevDiff(ElementTransformation &T, const DenseMatrix &bar, DenseMatrix &P) const { mfemx::curlRev(*this, T, bar, P); }\n"
         "   void ProjectRevDiff(const Vector &, VectorCoefficient &, ElementTransformation &, DenseMatrix &) const { mfem_error(\"ProjectRevDiff\"); }\n"),
    ],
    "fem/nonlininteg.hpp": [
        # a virtual function nothing here uses gives its place to the one of MISO's fork
        ("   virtual double GetLocalStateEnergyPA(const Vector &x) const;\n",
         "   virtual double GetFaceEnergy(const FiniteElement &el1, const FiniteElement &el2,\n"
         "                                FaceElementTransformations &T, const Vector &f);\n"),
        ("/** The abstract base class BlockNonlinearFormIntegrator is",
         r"""/// An integrator restricted to the elements with a marked attribute.
class MarkedIntegrator : public NonlinearFormIntegrator
{
   NonlinearFormIntegrator *in;
   const Array<int> *marker;
   bool on(ElementTransformation &T) const { return (*marker)[T.Attribute - 1] != 0; }

public:
   MarkedIntegrator(NonlinearFormIntegrator *i, const Array<int> *m) : in(i), marker(m) { }
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &f, Vector &v) override
   {
      if (on(T)) { in->AssembleElementVector(el, T, f, v); }
      else { v.SetSize(f.Size()); v = 0.0; }
   }
   void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T, const Vector &f, DenseMatrix &m) override
   {
      if (on(T)) { in->AssembleElementGrad(el, T, f, m); }
      else { m.SetSize(f.Size()); m = 0.0; }
   }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &f) override
   {
      return on(T) ? in->GetElementEnergy(el, T, f) : 0.0;
   }
   ~MarkedIntegrator() override { delete in; }
};

/// An integrator restricted to the interior faces that are boundary elements
/// with a marked attribute (all of them if there is no marker).
class InternalBdrIntegrator : public NonlinearFormIntegrator
{
   NonlinearFormIntegrator *in;
   const Array<int> *marker;

public:
   InternalBdrIntegrator(NonlinearFormIntegrator *i, const Array<int> *m) : in(i), marker(m) { }
   void AssembleFaceVector(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T,
                           const Vector &f, Vector &v) override;
   void AssembleFaceGrad(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T,
                         const Vector &f, DenseMatrix &m) override;
   double GetFaceEnergy(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T,
                        const Vector &f) override;
   ~InternalBdrIntegrator() override { delete in; }
};

/** The abstract base class BlockNonlinearFormIntegrator is"""),
    ],
    "fem/nonlinearform.hpp": [
        ("   { dnfi.Append(nlfi); }\n",
         "   { dnfi.Append(nlfi); }\n"
         "   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &marker)\n"
         "   { dnfi.Append(new MarkedIntegrator(nlfi, &marker)); }\n"
         "   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *i) { fnfi.Append(new InternalBdrIntegrator(i, nullptr)); }\n"
         "   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *i, Array<int> &m) { fnfi.Append(new InternalBdrIntegrator(i, &m)); }\n"),
    ],
    # the library's energy has no face terms
    "fem/pnonlinearform.hpp": [
        ("   { return GetParGridFunctionEnergy(x); }\n", "   { return mfemxEnergy(x); }\n"),
        ("   { return GetParGridFunctionEnergy(Prolongate(x)); }\n",
         "   { return mfemxEnergy(Prolongate(x)); }\n   double mfemxEnergy(const Vector &x) const;\n"),
    ],
    "linalg/densemat.hpp": [
        ("void CalcOrtho(const DenseMatrix &J, Vector &n);\n",
         "void CalcOrtho(const DenseMatrix &J, Vector &n);\nvoid CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n_bar, DenseMatrix &J_bar);\n"),
    ],
    "fem/lininteg.hpp": [
        ("/// Abstract class for integrators that support delta coefficients",
         """class InternalBdrLFIntegrator : public LinearFormIntegrator
{
   LinearFormIntegrator *in;
   const Array<int> *marker;
   int vdim;

public:
   InternalBdrLFIntegrator(LinearFormIntegrator *i, const Array<int> *m, int vd) : in(i), marker(m), vdim(vd) { }
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &) override { }
   void AssembleRHSElementVect(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, Vector &v) override;
   ~InternalBdrLFIntegrator() override { delete in; }
};

/// Abstract class for integrators that support delta coefficients"""),
    ],
    # a form that can be moved
    "fem/plinearform.hpp": [
        ("   ParLinearForm() : LinearForm() { pfes = NULL; }\n",
         "   ParLinearForm() : LinearForm() { pfes = NULL; }\n"
         "#ifdef MFEMX_MOVE\n   ParLinearForm(ParLinearForm &&o) : LinearForm(o.pfes), pfes(o.pfes)\n"
         "   {\n"
         "      mfem::Swap(domain_integs, o.domain_integs);\n"
         "      mfem::Swap(domain_integs_marker, o.domain_integs_marker);\n"
         "      mfem::Swap(boundary_integs, o.boundary_integs);\n"
         "      mfem::Swap(boundary_integs_marker, o.boundary_integs_marker);\n"
         "      mfem::Swap(boundary_face_integs, o.boundary_face_integs);\n"
         "      mfem::Swap(boundary_face_integs_marker, o.boundary_face_integs_marker);\n"
         "      mfem::Swap(interior_face_integs, o.interior_face_integs);\n"
         "      extern_lfs = o.extern_lfs;\n"
         "   }\n#endif\n"),
    ],
    "fem/linearform.hpp": [
        ("   void AddDomainIntegrator(LinearFormIntegrator *lfi);\n",
         "   void AddDomainIntegrator(LinearFormIntegrator *lfi);\n"
         "   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *i) { AddInteriorFaceIntegrator(new InternalBdrLFIntegrator(i, nullptr, fes->GetVDim())); }\n"
         "   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *i, Array<int> &m) { AddInteriorFaceIntegrator(new InternalBdrLFIntegrator(i, &m, fes->GetVDim())); }\n"),
    ],
}


def make(cache):
    key = hashlib.sha256(open(os.path.abspath(__file__), "rb").read() + open(SRC + "/mfem.hpp", "rb").read()).hexdigest()[:16]
    out = os.path.join(cache, "mfemx-" + key)
    if os.path.isdir(out):
        return out
    tmp = tempfile.mkdtemp(dir=cache)
    shutil.copytree(SRC, os.path.join(tmp, "mfem"), copy_function=os.symlink)
    for f, edits in EDITS.items():
        s = open(os.path.join(SRC, f)).read()
        for a, b in edits:
            if a not in s:
                raise RuntimeError("mfem overlay: %r not in %s" % (a, f))
            s = s.replace(a, b, 1)
        p = os.path.join(tmp, "mfem", f)
        os.unlink(p)
        open(p, "w").write(s)
    open(os.path.join(tmp, "mfem.hpp"), "w").write('#include "mfem/mfem.hpp"\n')
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    import sys
    print(make(sys.argv[1]))
