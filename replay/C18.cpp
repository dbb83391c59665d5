// run-time contracts of the conversion from triplet to compressed row format: the compressed matrix is the one the triplets represent
#include "h.hpp"
#include "IpTripletToCSRConverter.hpp"
using namespace Ipopt;
typedef std::vector<double> VD;
typedef std::vector<int> VI;

static std::string si(const int* p, int n) { std::string r = "["; for( int i = 0; i < n; i++ ) { r += (i ? " " : "") + std::to_string(p[i]); } return r + "]"; }

// one pattern on one converter; the values are powers of two and small integers, so that sums are exact
static void one(TripletToCSRConverter& cv, int off, bool full, int n, const VI& I, const VI& J, const char* grp)
{
   int nz = (int) I.size();
   int* ai = new int[nz]; int* aj = new int[nz];
   std::copy(I.begin(), I.end(), ai); std::copy(J.begin(), J.end(), aj);
   setcase(grp, "offset " + std::to_string(off) + (full ? " full" : " triangular") + " dimension " + std::to_string(n) + " rows " + si(ai, nz) + " columns " + si(aj, nz));
   int nc = cv.InitializeConverter(n, nz, ai, aj);
   for( int k = 0; k < nz; k++ ) { chk(ai[k] == I[k] && aj[k] == J[k], "the triplet structure is not modified"); }
   delete[] ai; delete[] aj;
   if( nz == 0 )
   {
      chk(nc == 0, "no entries in the compressed matrix");
      cv.ConvertValues(0, NULL, 0, NULL);
      return;
   }
   const int* ia = cv.IA();
   const int* ja = cv.JA();
   // structure
   std::set<std::pair<int, int> > want, have;
   for( int k = 0; k < nz; k++ )
   {
      int r = std::min(I[k], J[k]), c = std::max(I[k], J[k]);
      want.insert(std::make_pair(r, c));
      if( full ) { want.insert(std::make_pair(c, r)); }
   }
   chk(nc == (int) want.size(), "number of entries is " + std::to_string(want.size()) + ", not " + std::to_string(nc));
   chk(ia[0] == off, "rows start at the offset");
   chk(ia[n] == nc + off, "rows end after the last entry: row starts " + si(ia, n + 1));
   for( int i = 0; i < n; i++ )
   {
      chk(ia[i] <= ia[i + 1], "row starts are in order: row starts " + si(ia, n + 1));
      for( int p = ia[i] - off; p < ia[i + 1] - off; p++ )
      {
         int j = ja[p] - off;
         chk(j >= 0 && j < n, "columns are within the matrix");
         chk(p == ia[i] - off || ja[p - 1] < ja[p], "columns within a row ascend: row starts " + si(ia, n + 1) + " columns " + si(ja, nc));
         have.insert(std::make_pair(i + 1, j + 1));
      }
   }
   chk(want == have, "the positions of the entries are those of the triplets: row starts " + si(ia, n + 1) + " columns " + si(ja, nc));
   // values, more than once
   for( int rep = 0; rep < 2; rep++ )
   {
      VD a(nz), e(nc, 0.);
      for( int k = 0; k < nz; k++ ) { a[k] = rep ? rval() : nz <= 45 ? std::ldexp(1., k) : 1 + k; }
      double* at = new double[nz]; std::copy(a.begin(), a.end(), at);
      double* ac = new double[nc];
      for( int p = 0; p < nc; p++ ) { ac[p] = 1e99; }
      cv.ConvertValues(nz, at, nc, ac);
      for( int k = 0; k < nz; k++ ) { chk(at[k] == a[k], "the triplet values are not modified"); }
      for( int k = 0; k < nz; k++ )
      {
         for( int s = 0; s < (full && I[k] != J[k] ? 2 : 1); s++ )
         {
            int r = std::min(I[k], J[k]) - 1, c = std::max(I[k], J[k]) - 1;
            if( s ) { std::swap(r, c); }
            for( int p = ia[r] - off; p < ia[r + 1] - off; p++ ) { if( ja[p] - off == c ) { e[p] += a[k]; } }
         }
      }
      for( int p = 0; p < nc; p++ ) { chk(ac[p] == e[p], "value of entry " + std::to_string(p) + " is the sum of its triplets: expected " + S(e) + " got " + S(VD(ac, ac + nc))); }
      // the position of a value in the triplet
      const int* pf = cv.iPosFirst();
      for( int i = 0; i < n; i++ )
      {
         for( int p = ia[i] - off; p < ia[i + 1] - off; p++ )
         {
            int k = pf[p];
            chk(k >= 0 && k < nz && std::min(I[k], J[k]) == std::min(i + 1, ja[p] - off + 1) && std::max(I[k], J[k]) == std::max(i + 1, ja[p] - off + 1), "the first triplet of an entry has its position");
         }
      }
      delete[] at; delete[] ac;
   }
}

int main()
{
   h_init();
   for( int off = 0; off < 2; off++ )
   {
      for( int full = 0; full < 2; full++ )
      {
         TripletToCSRConverter cv(off, full ? TripletToCSRConverter::Full_Format : TripletToCSRConverter::Triangular_Format);
         // all patterns of dimension up to 3 (4) with up to 4 (5) entries in any order
         for( int n = 1; n <= (THOROUGH ? 4 : 3); n++ )
         {
            for( int nz = 0; nz <= (n == 4 ? 4 : THOROUGH ? 5 : 4); nz++ )
            {
               long tot = 1;
               for( int k = 0; k < nz; k++ ) { tot *= n * n; }
               for( long c = 0; c < tot; c++ )
               {
                  VI I, J;
                  long z = c;
                  for( int k = 0; k < nz; k++ ) { I.push_back(1 + z % n); z /= n; J.push_back(1 + z % n); z /= n; }
                  one(cv, off, full, n, I, J, "all small patterns");
               }
            }
         }
         for( int k = 0; k < (THOROUGH ? 40000 : 2000); k++ )
         {
            int n = ri(1, ri(0, 3) ? 8 : 60), nz = ri(0, ri(0, 2) ? n : 4 * n), sty = ri(0, 4), lo = ri(1, n), hi = ri(lo, n);
            VI I, J;
            for( int q = 0; q < nz; q++ )
            {
               int i = ri(1, n), j = ri(1, n);
               if( sty == 1 ) { j = i; }
               else if( sty == 2 && ri(0, 1) && q ) { int s = ri(0, q - 1); i = I[s]; j = J[s]; if( ri(0, 1) ) { std::swap(i, j); } }
               else if( sty == 3 ) { i = ri(lo, hi); j = ri(lo, hi); }        // empty rows at both ends
               else if( sty == 4 ) { i = std::min(n, 2 * ((i + 1) / 2)); j = std::min(n, 2 * ((j + 1) / 2)); }     // every other row empty
               I.push_back(i); J.push_back(j);
            }
            if( ri(0, 1) ) { one(cv, off, full, n, I, J, "random patterns, converter reused"); }
            else { TripletToCSRConverter c2(off, full ? TripletToCSRConverter::Full_Format : TripletToCSRConverter::Triangular_Format); one(c2, off, full, n, I, J, "random patterns"); }
         }
      }
   }
   return h_done();
}
