// run-time contracts of the dense vector operations
#include "h.hpp"
#include "IpDenseVector.hpp"
using namespace Ipopt;
typedef std::vector<double> VD;

static SmartPtr<DenseVector> mk(SmartPtr<DenseVectorSpace> sp, VD& ref, bool posonly = false, int fkind = -1)
{
   SmartPtr<DenseVector> v = sp->MakeNewDenseVector();
   int n = sp->Dim();
   ref.resize(n);
   int kind = fkind >= 0 ? fkind : ri(0, 3);
   double s = posonly ? rpos() : rval();
   for( int i = 0; i < n; i++ )
   {
      ref[i] = kind <= 1 ? s : (posonly ? rpos() : rval());
   }
   if( kind == 0 )
   {
      v->Set(s);                       // homogeneous
   }
   else if( kind == 1 )
   {
      if( n ) { v->SetValues(ref.data()); } v->Set(s);   // homogeneous with stale storage
   }
   else if( kind == 2 )
   {
      if( n ) { v->SetValues(ref.data()); } else { v->Set(0.); }
   }
   else
   {
      v->Set(3.);
      v->ExpandedValues();
      Number* p = v->Values();         // expanded from homogeneous
      for( int i = 0; i < n; i++ )
      {
         p[i] = ref[i];
      }
   }
   return v;
}
static VD get(const DenseVector& v)
{
   int n = v.Dim();
   VD r(n);
   const Number* p = v.IsHomogeneous() ? NULL : v.Values();
   for( int i = 0; i < n; i++ )
   {
      r[i] = p ? p[i] : v.Scalar();
   }
   const Number* e = v.ExpandedValues();
   for( int i = 0; i < n; i++ )
   {
      if( !close(e[i], r[i]) )
      {
         fail("expanded values differ from the vector");
      }
   }
   return r;
}
static std::string desc(const char* op, const std::vector<std::pair<const DenseVector*, VD> >& vs, const VD& sc)
{
   std::string r = op;
   r += " scalars=" + S(sc);
   for( size_t k = 0; k < vs.size(); k++ )
   {
      r += std::string(k ? " x" : " this") + (vs[k].first->IsHomogeneous() ? "(homogeneous)=" : "=") + S(vs[k].second);
   }
   return r;
}
static double sgn(double x)
{
   return x > 0 ? 1 : (x < 0 ? -1 : 0);
}

int main()
{
   h_init();
   int N = THOROUGH ? 20000 : 2500;
   for( int it = 0; it < N; it++ )
   {
      int n = it % 7 == 0 ? 0 : ri(1, 5);
      SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(n);
      VD t, x, y;
      SmartPtr<DenseVector> T = mk(sp, t), X = mk(sp, x), Y = mk(sp, y), P, Q;
      VD p, q;
      P = mk(sp, p, true);
      Q = mk(sp, q, true);
      double a = rval(), b = rval(), c = rval();
      struct Op
      {
         const char* n;
         std::function<void(DenseVector&)> f;
         std::function<double(int)> spec;
         bool pos;
      };
      bool al = ri(0, 5) == 0;
      const DenseVector* X1 = al ? GetRawPtr(T) : GetRawPtr(X);
      VD x1 = al ? t : x;
      const DenseVector* Y1 = ri(0, 5) == 0 ? X1 : GetRawPtr(Y);
      VD y1 = Y1 == X1 ? x1 : y;
      std::vector<Op> ops = {
         {"Set", [&](DenseVector& v) { v.Set(a); }, [&](int) { return a; }, false},
         {"Scal", [&](DenseVector& v) { v.Scal(a); }, [&](int i) { return a * t[i]; }, false},
         {"AddScalar", [&](DenseVector& v) { v.AddScalar(a); }, [&](int i) { return a + t[i]; }, false},
         {"Copy", [&](DenseVector& v) { v.Copy(*X1); }, [&](int i) { return x1[i]; }, false},
         {"Axpy", [&](DenseVector& v) { v.Axpy(a, *X1); }, [&](int i) { return t[i] + a * x1[i]; }, false},
         {"ElementWiseMultiply", [&](DenseVector& v) { v.ElementWiseMultiply(*X1); }, [&](int i) { return t[i] * x1[i]; }, false},
         {"ElementWiseSelect", [&](DenseVector& v) { v.ElementWiseSelect(*X1); }, [&](int i) { return sgn(t[i]) * x1[i]; }, false},
         {"ElementWiseMax", [&](DenseVector& v) { v.ElementWiseMax(*X1); }, [&](int i) { return std::max(t[i], x1[i]); }, false},
         {"ElementWiseMin", [&](DenseVector& v) { v.ElementWiseMin(*X1); }, [&](int i) { return std::min(t[i], x1[i]); }, false},
         {"ElementWiseAbs", [&](DenseVector& v) { v.ElementWiseAbs(); }, [&](int i) { return std::fabs(t[i]); }, false},
         {"ElementWiseSgn", [&](DenseVector& v) { v.ElementWiseSgn(); }, [&](int i) { return sgn(t[i]); }, false},
         {"ElementWiseDivide", [&](DenseVector& v) { v.ElementWiseDivide(*P); }, [&](int i) { return t[i] / p[i]; }, false},
         {"AddTwoVectors", [&](DenseVector& v) { v.AddTwoVectors(a, *X, b, Y1 == GetRawPtr(T) ? *Y : *Y1, c); }, [&](int i) { return a * x[i] + b * (Y1 == GetRawPtr(T) ? y : y1)[i] + c * t[i]; }, false},
         {"AddOneVector", [&](DenseVector& v) { v.AddOneVector(a, *X, c); }, [&](int i) { return a * x[i] + c * t[i]; }, false},
         {"AddVectorQuotient", [&](DenseVector& v) { v.AddVectorQuotient(a, *X1, *P, c); }, [&](int i) { return a * x1[i] / p[i] + c * t[i]; }, false},
      };
      Op& o = ops[it % ops.size()];
      setcase(o.n, desc(o.n, {{GetRawPtr(T), t}, {X1, x1}, {Y1, y1}, {GetRawPtr(P), p}}, {a, b, c}) + (al ? " (x is this)" : ""));
      VD want(n);
      for( int i = 0; i < n; i++ )
      {
         want[i] = o.spec(i);
      }
      o.f(*T);
      eqv(std::string(o.n) + " result", get(*T), want);
      if( X1 != GetRawPtr(T) )
      {
         eqv("argument x changed", get(*X), x);
      }
      eqv("argument y changed", get(*Y), y);
      eqv("argument p changed", get(*P), p);
      VD cur = want;
      // operations on positive data
      {
         VD w(n);
         setcase("ElementWiseReciprocal", desc("", {{GetRawPtr(Q), q}}, {}));
         for( int i = 0; i < n; i++ ) { w[i] = 1 / q[i]; }
         Q->ElementWiseReciprocal();
         eqv("ElementWiseReciprocal", get(*Q), w);
         setcase("ElementWiseSqrt", desc("", {{GetRawPtr(Q), w}}, {}));
         for( int i = 0; i < n; i++ ) { w[i] = std::sqrt(w[i]); }
         Q->ElementWiseSqrt();
         eqv("ElementWiseSqrt", get(*Q), w);
      }
      // reductions
      setcase("reductions", desc("", {{GetRawPtr(T), cur}, {GetRawPtr(Y), y}, {GetRawPtr(P), p}}, {a}));
      double dot = 0, dd = 0, asum = 0, amax = 0, mx = -std::numeric_limits<double>::max(), mn = std::numeric_limits<double>::max(), sum = 0, sl = 0, fb = 1;
      double tau = 0.75;
      for( int i = 0; i < n; i++ )
      {
         dot += cur[i] * y[i];
         dd += cur[i] * cur[i];
         asum += std::fabs(cur[i]);
         amax = std::max(amax, std::fabs(cur[i]));
         mx = std::max(mx, cur[i]);
         mn = std::min(mn, cur[i]);
         sum += cur[i];
         sl += std::log(p[i]);
         if( y[i] < 0 )
         {
            fb = std::min(fb, -tau / y[i] * p[i]);
         }
      }
      eq("Dot", T->Dot(*Y), dot);
      eq("Dot with itself", T->Dot(*T), dd);
      eq("Nrm2", T->Nrm2(), std::sqrt(dd));
      eq("Asum", T->Asum(), asum);
      eq("Amax", T->Amax(), amax);
      if( n )
      {
         eq("Max", T->Max(), mx);
         eq("Min", T->Min(), mn);
      }
      eq("Sum", T->Sum(), sum);
      eq("SumLogs", P->SumLogs(), sl);
      eq("FracToBound", P->FracToBound(*Y, tau), fb);
      // positions
      if( n >= 1 )
      {
         int m = ri(0, n), pos = ri(0, n - m);
         SmartPtr<DenseVectorSpace> sm = new DenseVectorSpace(m);
         VD z;
         SmartPtr<DenseVector> Z = mk(sm, z);
         setcase("CopyToPos", desc("", {{GetRawPtr(T), cur}, {GetRawPtr(Z), z}}, {(double) pos}));
         T->CopyToPos(pos, *Z);
         for( int i = 0; i < m; i++ ) { cur[pos + i] = z[i]; }
         eqv("CopyToPos", get(*T), cur);
         setcase("CopyFromPos", desc("", {{GetRawPtr(T), cur}, {GetRawPtr(Z), z}}, {(double) pos}));
         Z->CopyFromPos(pos, *T);
         eqv("CopyFromPos", get(*Z), VD(cur.begin() + pos, cur.begin() + pos + m));
      }
   }
   // all special scalar combinations for all representations
   const double SC[] = {0., 1., -1., 2., -0.5};
   for( int k = 0; k < 125; k++ )
   {
      for( int r = 0; r < 64; r++ )
      {
         double a = SC[k % 5], b = SC[k / 5 % 5], c = SC[k / 25];
         int n = r % 3 + 1;
         SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(n);
         VD t, x, y, p;
         SmartPtr<DenseVector> T = mk(sp, t, false, r % 4), X = mk(sp, x, false, r / 4 % 4), Y = mk(sp, y, false, r / 16), P = mk(sp, p, true, r / 16);
         setcase("AddTwoVectors grid", desc("AddTwoVectors", {{GetRawPtr(T), t}, {GetRawPtr(X), x}, {GetRawPtr(Y), y}}, {a, b, c}));
         SmartPtr<DenseVector> T2 = sp->MakeNewDenseVector();
         T2->Copy(*T);
         VD w(n), w2(n);
         for( int i = 0; i < n; i++ )
         {
            w[i] = a * x[i] + b * y[i] + c * t[i];
            w2[i] = a * x[i] / p[i] + c * t[i];
         }
         if( c == 0. && k % 2 )
         {
            T = sp->MakeNewDenseVector();     // no old value needed
         }
         T->AddTwoVectors(a, *X, b, *Y, c);
         eqv("AddTwoVectors", get(*T), w);
         setcase("AddVectorQuotient grid", desc("AddVectorQuotient", {{GetRawPtr(T2), t}, {GetRawPtr(X), x}, {GetRawPtr(P), p}}, {a, c}));
         if( c == 0. && k % 2 )
         {
            T2 = sp->MakeNewDenseVector();
         }
         T2->AddVectorQuotient(a, *X, *P, c);
         eqv("AddVectorQuotient", get(*T2), w2);
      }
   }
   // an empty vector may carry a value that is not finite
   for( int k = 0; k < 3; k++ )
   {
      SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(0);
      SmartPtr<DenseVector> v = sp->MakeNewDenseVector();
      v->Set(k == 0 ? 0. : k == 1 ? -1. : 1e300);
      if( k == 0 )
      {
         v->ElementWiseReciprocal();
      }
      else if( k == 1 )
      {
         v->ElementWiseSqrt();
      }
      else
      {
         v->Scal(1e300);
      }
      setcase("empty vector", "operations on an empty vector, kind " + S(k));
      eq("Nrm2", v->Nrm2(), 0.);
      eq("Asum", v->Asum(), 0.);
      eq("Amax", v->Amax(), 0.);
      eq("Sum", v->Sum(), 0.);
      eq("SumLogs", v->SumLogs(), 0.);
      eq("Dot", v->Dot(*v), 0.);
      chk(v->HasValidNumbers(), "an empty vector is valid");
   }
   h_done();
}
