// run-time contracts of TripletHelper: the triplets of random structured matrices against the dense matrix they represent
#include "mat.hpp"
#include "IpTripletHelper.hpp"

int main()
{
   h_init();
   int N = THOROUGH ? 150000 : 40000;
   for( int it = 0; it < N; it++ )
   {
      bool sym = ri(0, 1);
      int depth = ri(0, 3);
      VS R = mkspace(depth, 3), C = sym || ri(0, 4) == 0 ? R : mkspace(depth, 3);
      RM A = mkmat(R, C, depth, sym, true);
      if( !A.trip )
      {
         continue;
      }
      int m = R->Dim(), n = C->Dim();
      int ro = ri(0, 2) ? ri(-3, 9) : 0, co = ri(0, 2) ? ri(-3, 9) : 0;
      setcase("triplets", A.s + " rows " + shape(*R) + " cols " + shape(*C) + " = " + S(A.d) + " offsets " + S(ro) + " " + S(co));
      Index ne = TripletHelper::GetNumberEntries(*A.A);
      chk(ne >= 0, "number of entries is not negative");
      const int G = 3;
      std::vector<Index> ir(ne + 2 * G, -7777), jc(ne + 2 * G, -7777);
      VD val(ne + 2 * G, -7777.);
      std::fill(val.begin() + G, val.begin() + G + ne, ri(0, 1) ? std::nan("") : 1e300 * 1e300);    // fresh memory may hold anything
      bool vfirst = ri(0, 1);
      if( vfirst )
      {
         TripletHelper::FillValues(ne, *A.A, &val[G]);
      }
      if( ro == 0 && co == 0 && ri(0, 1) )
      {
         TripletHelper::FillRowCol(ne, *A.A, &ir[G], &jc[G]);
      }
      else
      {
         TripletHelper::FillRowCol(ne, *A.A, &ir[G], &jc[G], ro, co);
      }
      if( !vfirst )
      {
         TripletHelper::FillValues(ne, *A.A, &val[G]);
      }
      for( int g = 0; g < G; g++ )
      {
         chk(ir[g] == -7777 && jc[g] == -7777 && val[g] == -7777. && ir[G + ne + g] == -7777 && jc[G + ne + g] == -7777 && val[G + ne + g] == -7777., "nothing is written beyond the entries");
      }
      MD d(m, VD(n, 0.));
      for( int k = G; k < G + ne; k++ )
      {
         int i = ir[k] - ro - 1, j = jc[k] - co - 1;
         chk(i >= 0 && i < m, "row of triplet " + S(k - G) + " is within the matrix: " + S(ir[k]));
         chk(j >= 0 && j < n, "column of triplet " + S(k - G) + " is within the matrix: " + S(jc[k]));
         d[i][j] += val[k];
         if( sym && i != j )
         {
            d[j][i] += val[k];
         }
      }
      for( int i = 0; i < m; i++ )
      {
         for( int j = 0; j < n; j++ )
         {
            eq("sum of the triplets at (" + S(i) + "," + S(j) + ")", d[i][j], A.d[i][j]);
         }
      }
      // the product of the matrix agrees with that of the triplets
      VD x, y(m, 0.);
      SmartPtr<Vector> X = mkvec(*C, x), Y = R->MakeNew();
      A.A->MultVector(1., *X, 0., *Y);
      for( int k = G; k < G + ne; k++ )
      {
         int i = ir[k] - ro - 1, j = jc[k] - co - 1;
         y[i] += val[k] * x[j];
         if( sym && i != j )
         {
            y[j] += val[k] * x[i];
         }
      }
      eqv("product", get(*Y), y);
      // vectors
      VD f(n + 2 * G, -7777.);
      TripletHelper::FillValuesFromVector(n, *X, &f[G]);
      eqv("entries of the vector", VD(f.begin() + G, f.begin() + G + n), x);
      chk(f[G - 1] == -7777. && f[G + n] == -7777., "nothing is written beyond the entries");
      VD x2, w(n + 1);
      SmartPtr<Vector> Z = ri(0, 1) ? mkvec(*C, x2) : C->MakeNew();
      if( ri(0, 1) && x2.size() == (size_t) n )
      {
         (void) Z->Nrm2();
      }
      double nn = 0.;
      for( int j = 0; j < n; j++ )
      {
         w[j] = rval();
         nn += std::fabs(w[j]);
      }
      VD w0 = w;
      TripletHelper::PutValuesInVector(n, &w[0], *Z);
      w.pop_back();
      w0.pop_back();
      eqv("values put into the vector", get(*Z), w0);
      eqv("the given values stay", w, w0);
      eq("norm of the vector", Z->Asum(), nn);
   }
   return h_done();
}
