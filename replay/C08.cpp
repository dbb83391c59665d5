// run-time contracts of the compound vector operations: a compound vector acts like the concatenation of its blocks
#include "mat.hpp"

static double sgn(double x)
{
   return x > 0 ? 1 : (x < 0 ? -1 : 0);
}
static void reductions(const std::string& where, Vector& T, const VD& t, const Vector& Y, const VD& y, const Vector& P, const VD& p, double tau)
{
   int n = (int) t.size();
   double dot = 0, dd = 0, asum = 0, amax = 0, mx = -std::numeric_limits<double>::max(), mn = std::numeric_limits<double>::max(), sum = 0, sl = 0, fb = 1;
   for( int i = 0; i < n; i++ )
   {
      dot += t[i] * y[i];
      dd += t[i] * t[i];
      asum += std::fabs(t[i]);
      amax = std::max(amax, std::fabs(t[i]));
      mx = std::max(mx, t[i]);
      mn = std::min(mn, t[i]);
      sum += t[i];
      sl += std::log(p[i]);
      if( y[i] < 0 )
      {
         fb = std::min(fb, -tau / y[i] * p[i]);
      }
   }
   eq(where + " Dot", T.Dot(Y), dot);
   eq(where + " Dot with itself", T.Dot(T), dd);
   eq(where + " Nrm2", T.Nrm2(), std::sqrt(dd));
   eq(where + " Asum", T.Asum(), asum);
   eq(where + " Amax", T.Amax(), amax);
   if( n )
   {
      eq(where + " Max", T.Max(), mx);
      eq(where + " Min", T.Min(), mn);
   }
   eq(where + " Sum", T.Sum(), sum);
   eq(where + " SumLogs", P.SumLogs(), sl);
   eq(where + " FracToBound", P.FracToBound(Y, tau), fb);
   bool fin = true;
   for( double v : t )
   {
      fin = fin && std::isfinite(v);
   }
   chk(T.HasValidNumbers() == fin, where + " HasValidNumbers");
}

int main()
{
   h_init();
   int N = THOROUGH ? 60000 : 12000;
   for( int it = 0; it < N; it++ )
   {
      SmartPtr<const VectorSpace> sp;
      do
      {
         sp = mkspace(it % 3 + 1);
      }
      while( !dynamic_cast<const CompoundVectorSpace*>(GetRawPtr(sp)) );
      VD t, x, y, p, q;
      SmartPtr<Vector> T = mkvec(*sp, t), X = mkvec(*sp, x, false, false, ri(0, 1)), Y = mkvec(*sp, y, false, false, ri(0, 1)), P = mkvec(*sp, p, true, true, ri(0, 1)), Q = mkvec(*sp, q, true, true);
      int n = (int) t.size();
      chk(T->Dim() == n, "dimension");
      std::string hist = "shape " + shape(*sp) + " this=" + S(t) + " x=" + S(x) + " y=" + S(y) + " p=" + S(p);
      int steps = ri(1, 4);
      for( int k = 0; k < steps; k++ )
      {
         double a = rscal(), b = rscal(), c = rscal();
         bool al = ri(0, 5) == 0;
         const Vector* X1 = al ? GetRawPtr(T) : GetRawPtr(X);
         VD x1 = al ? t : x;
         const Vector* Y1 = ri(0, 3) == 0 ? GetRawPtr(X) : GetRawPtr(Y);
         VD y1 = Y1 == GetRawPtr(X) ? x : y;
         VD w(t);
         std::string op;
         auto each = [&](std::function<double(int)> f)
         {
            for( int i = 0; i < n; i++ )
            {
               w[i] = f(i);
            }
         };
         int o = ri(0, 18);
         static const char* names[] = {"Set", "Scal", "AddScalar", "Copy", "Axpy", "ElementWiseMultiply", "ElementWiseSelect", "ElementWiseMax", "ElementWiseMin", "ElementWiseAbs", "ElementWiseSgn", "ElementWiseDivide", "AddTwoVectors", "AddOneVector", "AddVectorQuotient", "ElementWiseReciprocal", "ElementWiseSqrt", "MakeNewCopy", "component"};
         hist += std::string("; ") + names[o] + "(" + S(a) + "," + S(b) + "," + S(c) + (al ? ",x is this" : "") + (Y1 == GetRawPtr(X) ? ",y is x" : "") + ")";
         setcase(names[o], hist);
         switch( o )
         {
            case 0: each([&](int) { return a; }); T->Set(a); break;
            case 1: each([&](int i) { return a * t[i]; }); T->Scal(a); break;
            case 2: each([&](int i) { return a + t[i]; }); T->AddScalar(a); break;
            case 3: each([&](int i) { return x1[i]; }); T->Copy(*X1); break;
            case 4: each([&](int i) { return t[i] + a * x1[i]; }); T->Axpy(a, *X1); break;
            case 5: each([&](int i) { return t[i] * x1[i]; }); T->ElementWiseMultiply(*X1); break;
            case 6: each([&](int i) { return sgn(t[i]) * x1[i]; }); T->ElementWiseSelect(*X1); break;
            case 7: each([&](int i) { return std::max(t[i], x1[i]); }); T->ElementWiseMax(*X1); break;
            case 8: each([&](int i) { return std::min(t[i], x1[i]); }); T->ElementWiseMin(*X1); break;
            case 9: each([&](int i) { return std::fabs(t[i]); }); T->ElementWiseAbs(); break;
            case 10: each([&](int i) { return sgn(t[i]); }); T->ElementWiseSgn(); break;
            case 11: each([&](int i) { return t[i] / p[i]; }); T->ElementWiseDivide(*P); break;
            case 12: each([&](int i) { return a * x[i] + b * y1[i] + c * t[i]; }); T->AddTwoVectors(a, *X, b, *Y1, c); break;
            case 13: each([&](int i) { return a * x[i] + c * t[i]; }); T->AddOneVector(a, *X, c); break;
            case 14: each([&](int i) { return a * x1[i] / p[i] + c * t[i]; }); T->AddVectorQuotient(a, *X1, *P, c); break;
            case 15: each([&](int i) { return 1. / p[i]; }); T->Copy(*P); T->ElementWiseReciprocal(); break;
            case 16: each([&](int i) { return std::sqrt(p[i]); }); T->Copy(*P); T->ElementWiseSqrt(); break;
            case 17: T = T->MakeNewCopy(); break;
            default:
            {
               // change one component through the access function
               CompoundVector* C = dynamic_cast<CompoundVector*>(GetRawPtr(T));
               if( C->NComps() )
               {
                  int i = ri(0, C->NComps() - 1), off = 0;
                  for( int l = 0; l < i; l++ )
                  {
                     off += C->GetComp(l)->Dim();
                  }
                  (void) T->Nrm2();
                  SmartPtr<Vector> v;
                  int how = ri(0, 2);
                  hist += how == 0 ? " by GetCompNonConst" : (how == 1 ? " by SetCompNonConst" : " by SetComp, SetCompNonConst");
                  if( how == 0 )
                  {
                     v = C->GetCompNonConst(i);
                     v->Set(a);
                  }
                  else
                  {
                     v = C->GetComp(i)->MakeNew();
                     v->Set(a);
                     if( how == 2 )
                     {
                        C->SetComp(i, *v);
                        setcase("component", hist);
                        VD f(w);
                        for( int l = 0; l < v->Dim(); l++ )
                        {
                           f[off + l] = a;
                        }
                        eqv("after SetComp", get(*T), f);
                        double as = 0;
                        for( double u : f )
                        {
                           as += std::fabs(u);
                        }
                        eq("Asum after SetComp", T->Asum(), as);
                     }
                     C->SetCompNonConst(i, *v);
                  }
                  chk(!C->IsCompNull(i), "component is set");
                  for( int l = 0; l < v->Dim(); l++ )
                  {
                     w[off + l] = a;
                  }
               }
            }
         }
         t = w;
         eqv(std::string(names[o]) + " result", get(*T), t);
         if( ri(0, 1) )
         {
            reductions(std::string("after ") + names[o] + ":", *T, t, *Y, y, *P, p, 0.75);
         }
         eqv("argument x changed", get(*X), x);
         eqv("argument y changed", get(*Y), y);
         eqv("argument p changed", get(*P), p);
      }
      if( n && ri(0, 9) == 0 )
      {
         // one entry that is not a number
         VD w(t);
         w[ri(0, n - 1)] = ri(0, 1) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
         std::function<void(Vector&, int&)> fill = [&](Vector& v, int& o)
         {
            if( CompoundVector* c = dynamic_cast<CompoundVector*>(&v) )
            {
               for( Index i = 0; i < c->NComps(); i++ )
               {
                  fill(*c->GetCompNonConst(i), o);
               }
               return;
            }
            DenseVector& d = dynamic_cast<DenseVector&>(v);
            put(d, VD(w.begin() + o, w.begin() + o + d.Dim()));
            o += d.Dim();
         };
         setcase("HasValidNumbers", hist + " then " + S(w));
         int o = 0;
         fill(*T, o);
         chk(!T->HasValidNumbers(), "HasValidNumbers is false if any entry of any block is not finite");
      }
   }
   h_done();
}
