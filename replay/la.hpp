// random vectors in every representation, and reading any vector back
#pragma once
#include "h.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
using namespace Ipopt;
typedef std::vector<double> VD;
typedef std::vector<VD> MD;

inline void put(DenseVector& v, const VD& r)
{
   if( v.Dim() )
   {
      v.SetValues(r.data());
   }
   else
   {
      v.Set(0.);
   }
}
// nz: no zeros, pos: positive only
inline SmartPtr<DenseVector> mkdense(const DenseVectorSpace& sp, VD& ref, bool pos = false, bool nz = false)
{
   SmartPtr<DenseVector> v = sp.MakeNewDenseVector();
   int n = sp.Dim();
   ref.resize(n);
   int kind = ri(0, 3);
   double s;
   do
   {
      s = pos ? rpos() : rval();
   }
   while( nz && s == 0. );
   for( int i = 0; i < n; i++ )
   {
      do
      {
         ref[i] = kind <= 1 ? s : (pos ? rpos() : rval());
      }
      while( nz && ref[i] == 0. );
   }
   if( kind == 0 )
   {
      v->Set(s);
   }
   else if( kind == 1 )
   {
      VD junk(n, 77.);
      put(*v, junk);
      v->Set(s);                       // homogeneous with stale storage
   }
   else if( kind == 2 )
   {
      put(*v, ref);
   }
   else
   {
      v->Set(3.);
      v->ExpandedValues();
      Number* p = v->Values();
      for( int i = 0; i < n; i++ )
      {
         p[i] = ref[i];
      }
   }
   return v;
}
inline VD get(const Vector& v)
{
   if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v) )
   {
      VD r;
      for( Index i = 0; i < c->NComps(); i++ )
      {
         VD p = get(*c->GetComp(i));
         r.insert(r.end(), p.begin(), p.end());
      }
      return r;
   }
   const DenseVector* d = dynamic_cast<const DenseVector*>(&v);
   chk(d != NULL, "kind of vector");
   int n = d->Dim();
   VD r(n);
   const Number* p = d->IsHomogeneous() ? NULL : d->Values();
   for( int i = 0; i < n; i++ )
   {
      r[i] = p ? p[i] : d->Scalar();
   }
   return r;
}
// random vector space: dense or compound (nested up to depth levels), blocks may be empty
inline SmartPtr<const VectorSpace> mkspace(int depth, int maxdim = 3, bool allowempty = true)
{
   if( depth == 0 || ri(0, 3) == 0 )
   {
      return GetRawPtr(SmartPtr<DenseVectorSpace>(new DenseVectorSpace(allowempty && ri(0, 4) == 0 ? 0 : ri(1, maxdim))));
   }
   int nc = allowempty ? ri(0, 4) : ri(1, 4);
   std::vector<SmartPtr<const VectorSpace> > s(nc);
   int d = 0;
   for( int i = 0; i < nc; i++ )
   {
      s[i] = mkspace(depth - 1, maxdim, allowempty);
      d += s[i]->Dim();
   }
   SmartPtr<CompoundVectorSpace> c = new CompoundVectorSpace(nc, d);
   for( int i = 0; i < nc; i++ )
   {
      c->SetCompSpace(i, *s[i]);
   }
   return GetRawPtr(c);
}
// random vector of any space; with mixed, some components are set as separate (possibly constant) objects
inline SmartPtr<Vector> mkvec(const VectorSpace& sp, VD& ref, bool pos = false, bool nz = false, bool mixed = false)
{
   if( const DenseVectorSpace* d = dynamic_cast<const DenseVectorSpace*>(&sp) )
   {
      return GetRawPtr(mkdense(*d, ref, pos, nz));
   }
   const CompoundVectorSpace* c = dynamic_cast<const CompoundVectorSpace*>(&sp);
   SmartPtr<CompoundVector> v = c->MakeNewCompoundVector(!mixed);
   ref.clear();
   for( Index i = 0; i < c->NCompSpaces(); i++ )
   {
      VD r;
      SmartPtr<Vector> x = mkvec(*c->GetCompSpace(i), r, pos, nz, mixed);
      if( !mixed )
      {
         v->GetCompNonConst(i)->Copy(*x);
      }
      else if( ri(0, 1) )
      {
         v->SetComp(i, *x);
      }
      else
      {
         v->SetCompNonConst(i, *x);
      }
      ref.insert(ref.end(), r.begin(), r.end());
   }
   return GetRawPtr(v);
}
inline double rscal()
{
   static const double S[] = {0., 1., -1., 2., -0.5, 3., -3., 0.25};
   return S[RNG() % 8];
}
inline VD mul(const MD& A, const VD& x)
{
   VD r(A.size(), 0.);
   for( size_t i = 0; i < A.size(); i++ )
      for( size_t j = 0; j < x.size(); j++ )
      {
         r[i] += A[i][j] * x[j];
      }
   return r;
}
inline VD mulT(const MD& A, const VD& x, size_t n)
{
   VD r(n, 0.);
   for( size_t i = 0; i < A.size(); i++ )
      for( size_t j = 0; j < n; j++ )
      {
         r[j] += A[i][j] * x[i];
      }
   return r;
}
inline std::string S(const MD& m)
{
   std::string r;
   for( auto& x : m )
   {
      r += S(x);
   }
   return r;
}
