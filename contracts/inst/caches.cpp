// forces the inline members of these classes to be emitted (the text compiled is that of the headers in /repo)
#include "IpVector.hpp"
#include "IpMatrix.hpp"
#include "IpCachedResults.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpCompoundVector.hpp"
#include "IpGenTMatrix.hpp"
#include "IpDenseVector.hpp"
using namespace Ipopt;
namespace ipv_inst
{
struct TV: public Vector { TV(const VectorSpace* s) : Vector(s) {} };
struct TM: public Matrix { TM(const MatrixSpace* s) : Matrix(s) {} };
double vec(Vector& v, const Vector& x, double a)
{
   v.Copy(x);
   v.Axpy(a, x);
   v.Set(a);
   v.ElementWiseDivide(x);
   v.ElementWiseMultiply(x);
   v.ElementWiseSelect(x);
   v.ElementWiseMax(x);
   v.ElementWiseMin(x);
   v.ElementWiseReciprocal();
   v.ElementWiseAbs();
   v.ElementWiseSqrt();
   v.ElementWiseSgn();
   v.AddScalar(a);
   v.AddOneVector(a, x, a);
   v.AddTwoVectors(a, x, a, x, a);
   v.AddVectorQuotient(a, x, x, a);
   return v.Dot(x) + v.Nrm2() + v.Asum() + v.Amax() + v.Max() + v.Min() + v.Sum() + v.SumLogs() + v.HasValidNumbers() + v.FracToBound(x, a) + v.MakeNewCopy()->Dim() + v.MakeNew()->Dim();
}
void mat(LowRankUpdateSymMatrix& l, const Vector& v, const MultiVectorMatrix& m, ScaledMatrix& s, SmartPtr<const Matrix> c, SmartPtr<Matrix> n, SymScaledMatrix& y, SmartPtr<const SymMatrix> yc, SmartPtr<SymMatrix> yn, CompoundVector& cv, GenTMatrix& g, DenseVector& d)
{
   l.SetDiag(v);
   l.SetV(m);
   l.SetU(m);
   s.SetUnscaledMatrix(c);
   s.SetUnscaledMatrixNonConst(n);
   s.GetUnscaledMatrixNonConst();
   y.SetUnscaledMatrix(yc);
   y.SetUnscaledMatrixNonConst(yn);
   y.GetUnscaledMatrixNonConst();
   cv.GetCompNonConst(0);
   g.Values();
   d.Values();
}
void obs(DiagMatrix& d, IdentityMatrix& i, const Vector& v, double f)
{
   d.SetDiag(v);
   i.SetFactor(f);
}
}
// one instance of the cache template; all uses share this text
template class Ipopt::CachedResults<double>;
template class Ipopt::DependentResult<double>;
