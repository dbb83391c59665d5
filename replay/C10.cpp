// run-time contracts of the structured matrices: every operation against the dense matrix they represent
#include "mat.hpp"

int main()
{
   h_init();
   int N = THOROUGH ? 80000 : 20000;
   for( int it = 0; it < N; it++ )
   {
      bool sym = ri(0, 1);
      int depth = ri(0, 2);
      VS R = mkspace(depth, 3), C = sym || ri(0, 4) == 0 ? R : mkspace(depth, 3);
      RM A = mkmat(R, C, depth, sym);
      int m = R->Dim(), n = C->Dim();
      std::string ds = A.s + " rows " + shape(*R) + " cols " + shape(*C) + " = " + S(A.d);
      for( int trans = 0; trans < 2; trans++ )
      {
         double al = rscal(), be = rscal();
         VD x, y;
         SmartPtr<Vector> X = mkvec(trans ? *R : *C, x, false, false, ri(0, 1)), Y;
         const VectorSpace& ys = trans ? *C : *R;
         if( be == 0. && ri(0, 1) )
         {
            Y = ys.MakeNew();
            y.assign(ys.Dim(), 0.);
         }
         else
         {
            Y = mkvec(ys, y);
         }
         if( ri(0, 1) && Y->Dim() && be != 0. )
         {
            (void) Y->Nrm2();
            (void) Y->Asum();
         }
         setcase(trans ? "TransMultVector" : "MultVector", ds + " alpha=" + S(al) + " beta=" + S(be) + " x=" + S(x) + " y=" + S(y));
         VD p = trans ? mulT(A.d, x, n) : mul(A.d, x), w(y.size());
         double as = 0;
         for( size_t i = 0; i < w.size(); i++ )
         {
            w[i] = al * p[i] + be * y[i];
            as += std::fabs(w[i]);
         }
         if( trans )
         {
            A.A->TransMultVector(al, *X, be, *Y);
         }
         else
         {
            A.A->MultVector(al, *X, be, *Y);
         }
         eqv("result", get(*Y), w);
         eq("norm of result", Y->Asum(), as);
         eqv("operand x changed", get(*X), x);
      }
      {
         VD s, z, x;
         double al = rscal();
         SmartPtr<Vector> Sv = mkvec(*C, s, false, true), Z = mkvec(*C, z), X = mkvec(*R, x);
         setcase("AddMSinvZ", ds + " alpha=" + S(al) + " S=" + S(s) + " Z=" + S(z) + " X=" + S(x));
         VD q(n);
         for( int j = 0; j < n; j++ )
         {
            q[j] = z[j] / s[j];
         }
         VD p = mul(A.d, q);
         for( int i = 0; i < m; i++ )
         {
            x[i] += al * p[i];
         }
         A.A->AddMSinvZ(al, *Sv, *Z, *X);
         eqv("result", get(*X), x);
         eqv("operand S changed", get(*Sv), s);
         eqv("operand Z changed", get(*Z), z);
      }
      {
         VD s, z, r, d;
         double al = rscal();
         SmartPtr<Vector> Sv = mkvec(*C, s, false, true), Z = mkvec(*C, z), Rv = mkvec(*C, r), D = mkvec(*R, d), X = C->MakeNew();
         setcase("SinvBlrmZMTdBr", ds + " alpha=" + S(al) + " S=" + S(s) + " R=" + S(r) + " Z=" + S(z) + " D=" + S(d));
         VD p = mulT(A.d, d, n), w(n);
         for( int j = 0; j < n; j++ )
         {
            w[j] = (r[j] + al * z[j] * p[j]) / s[j];
         }
         A.A->SinvBlrmZMTdBr(al, *Sv, *Rv, *Z, *D, *X);
         eqv("result", get(*X), w);
      }
      if( A.norms )
      {
         for( int col = 0; col < 2; col++ )
         {
            bool init = ri(0, 1);
            VD y;
            SmartPtr<Vector> Y = mkvec(col ? *C : *R, y);
            setcase(col ? "ComputeColAMax" : "ComputeRowAMax", ds + " init=" + (init ? "1" : "0") + " before=" + S(y));
            if( !init )
            {
               // norms are updated, so they are not negative
               Y->ElementWiseAbs();
            }
            for( size_t i = 0; i < y.size(); i++ )
            {
               y[i] = init ? 0. : std::fabs(y[i]);
               for( int k = 0; k < (col ? m : n); k++ )
               {
                  y[i] = std::max(y[i], col ? A.a[k][i] : A.a[i][k]);
               }
            }
            if( col )
            {
               A.A->ComputeColAMax(*Y, init);
            }
            else
            {
               A.A->ComputeRowAMax(*Y, init);
            }
            eqv("result", get(*Y), y);
         }
      }
      setcase("HasValidNumbers", ds);
      chk(A.A->HasValidNumbers(), "HasValidNumbers of a finite matrix");
   }
   for( int it = 0; it < N; it++ )
   {
      bool sym = ri(0, 1);
      int depth = ri(0, 2);
      VS R = mkspace(depth, 3), C = sym || ri(0, 4) == 0 ? R : mkspace(depth, 3);
      INJECT = true;
      INJECTED = false;
      RM A = mkmat(R, C, depth, sym);
      setcase("HasValidNumbers", A.s + " rows " + shape(*R) + " cols " + shape(*C) + " = " + S(A.d));
      chk(A.A->HasValidNumbers() == !INJECTED, INJECTED ? "a non-finite entry is not noticed" : "HasValidNumbers of a finite matrix");
      INJECT = false;
   }
   h_done();
}
