// run-time contracts of the sparse matrices: every operation against the dense matrix the entries represent
#include "la.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpExpansionMatrix.hpp"

struct M
{
   SmartPtr<Matrix> A;
   MD d;                // represented matrix
   MD a;                // largest magnitude of a stored entry
   int m, n;
   std::string s;
   std::vector<int> I, J;
   VD v;
};

static M mk(int kind)
{
   M r;
   r.m = ri(0, 5);
   r.n = kind == 1 ? r.m : ri(0, 5);
   if( kind == 2 && r.m < r.n )
   {
      std::swap(r.m, r.n);
   }
   r.d.assign(r.m, VD(r.n, 0.));
   r.a = r.d;
   if( kind == 2 )
   {
      std::vector<Index> pos(r.m);
      for( int i = 0; i < r.m; i++ )
      {
         pos[i] = i;
      }
      std::shuffle(pos.begin(), pos.end(), RNG);
      int off = ri(0, 2) - 1;
      for( auto& p : pos )
      {
         p += off;
      }
      SmartPtr<ExpansionMatrixSpace> sp = new ExpansionMatrixSpace(r.m, r.n, pos.data(), off);
      for( int i = 0; i < r.m; i++ )
      {
         bool in = false;
         for( int k = 0; k < r.n; k++ )
         {
            if( pos[k] - off == i )
            {
               in = true;
               if( sp->CompressedPosIndices()[i] != k || sp->ExpandedPosIndices()[k] != i )
               {
                  fail("position arrays of the expansion matrix");
               }
            }
         }
         if( !in && sp->CompressedPosIndices()[i] != -1 )
         {
            fail("position of an element that is not mapped");
         }
      }
      r.A = sp->MakeNewExpansionMatrix();
      for( int k = 0; k < r.n; k++ )
      {
         r.d[pos[k] - off][k] = r.a[pos[k] - off][k] = 1.;
         r.I.push_back(pos[k] - off);
         r.J.push_back(k);
         r.v.push_back(1.);
      }
      r.s = "expansion ";
   }
   else
   {
      int nz = r.m && r.n ? ri(0, 3) * ri(0, 4) : 0;
      std::vector<Index> ir, jc;
      for( int k = 0; k < nz; k++ )
      {
         bool rep = k && ri(0, 3) == 0;
         int i = rep ? ir[k - 1] - 1 : ri(0, r.m - 1), j = rep ? jc[k - 1] - 1 : ri(0, r.n - 1);
         if( kind == 1 && ri(0, 3) == 0 )
         {
            std::swap(i, j);
         }
         double v = rval();
         ir.push_back(i + 1);
         jc.push_back(j + 1);
         r.v.push_back(v);
         r.I.push_back(i);
         r.J.push_back(j);
         r.d[i][j] += v;
         r.a[i][j] = std::max(r.a[i][j], std::fabs(v));
         if( kind == 1 )
         {
            if( i != j )
            {
               r.d[j][i] += v;
            }
            r.a[j][i] = std::max(r.a[j][i], std::fabs(v));
         }
      }
      ir.push_back(99);
      jc.push_back(99);
      r.v.push_back(0.);
      if( kind == 0 )
      {
         SmartPtr<GenTMatrixSpace> sp = new GenTMatrixSpace(r.m, r.n, nz, ir.data(), jc.data());
         SmartPtr<GenTMatrix> g = sp->MakeNewGenTMatrix();
         if( ri(0, 1) )
         {
            g->SetValues(r.v.data());
         }
         else
         {
            std::copy(r.v.begin(), r.v.begin() + nz, g->Values());
         }
         r.A = GetRawPtr(g);
      }
      else
      {
         SmartPtr<SymTMatrixSpace> sp = new SymTMatrixSpace(r.m, nz, ir.data(), jc.data());
         SmartPtr<SymTMatrix> g = sp->MakeNewSymTMatrix();
         if( ri(0, 1) )
         {
            g->SetValues(r.v.data());
         }
         else
         {
            std::copy(r.v.begin(), r.v.begin() + nz, g->Values());
         }
         std::vector<Index> oi(nz + 1, -5), oj(nz + 1, -5);
         VD ov(nz + 1, -5.);
         g->FillStruct(oi.data(), oj.data());
         g->FillValues(ov.data());
         for( int k = 0; k < nz; k++ )
         {
            if( oi[k] != ir[k] || oj[k] != jc[k] || ov[k] != r.v[k] )
            {
               fail("structure or values of an entry are not handed out as stored");
            }
         }
         chk(oi[nz] == -5 && oj[nz] == -5 && ov[nz] == -5., "too many entries handed out");
         r.A = GetRawPtr(g);
      }
      r.v.resize(nz);
      r.s = kind ? "symmetric triplet " : "general triplet ";
   }
   r.s += std::to_string(r.m) + "x" + std::to_string(r.n) + " entries";
   for( size_t k = 0; k < r.v.size(); k++ )
   {
      r.s += " (" + std::to_string(r.I[k] + 1) + "," + std::to_string(r.J[k] + 1) + ")=" + S(r.v[k]);
   }
   return r;
}

static SmartPtr<DenseVectorSpace> spc(int n)
{
   return new DenseVectorSpace(n);
}
static std::string D(const DenseVector& v, const VD& r)
{
   return (v.IsHomogeneous() ? "homogeneous" : "") + S(r);
}

int main()
{
   h_init();
   int N = THOROUGH ? 600000 : 90000;
   for( int it = 0; it < N; it++ )
   {
      int kind = it % 3;
      setcase("construct", "matrix " + std::to_string(it));
      M t = mk(kind);
      static const char* KN[] = {"GenT", "SymT", "Expansion"};
      double al = rscal(), be = rscal();
      SmartPtr<DenseVectorSpace> sm = spc(t.m), sn = spc(t.n);
      for( int tr = 0; tr < 2; tr++ )
      {
         VD xr, yr;
         SmartPtr<DenseVector> x = mkdense(tr ? *sm : *sn, xr), y = mkdense(tr ? *sn : *sm, yr);
         if( be == 0. && ri(0, 1) )
         {
            y = (tr ? sn : sm)->MakeNewDenseVector();    // not initialised
         }
         setcase(std::string(KN[kind]) + (tr ? " transposed product" : " product"), t.s + " alpha=" + S(al) + " beta=" + S(be) + " x=" + D(*x, xr) + " y=" + S(yr));
         if( tr )
         {
            t.A->TransMultVector(al, *x, be, *y);
         }
         else
         {
            t.A->MultVector(al, *x, be, *y);
         }
         VD p = tr ? mulT(t.d, xr, t.n) : mul(t.d, xr);
         for( size_t i = 0; i < p.size(); i++ )
         {
            p[i] = al * p[i] + (be == 0. ? 0. : be * yr[i]);
         }
         eqv("result", get(*y), p);
         eqv("argument", get(*x), xr);
      }
      for( int row = 0; row < 2; row++ )
      {
         VD yr;
         bool init = ri(0, 1);
         SmartPtr<DenseVector> y = mkdense(row ? *sm : *sn, yr);
         if( init && ri(0, 1) )
         {
            y = (row ? sm : sn)->MakeNewDenseVector();
         }
         setcase(std::string(KN[kind]) + (row ? " row norms" : " column norms"), t.s + (init ? " init" : "") + " y=" + S(yr));
         VD p = init ? VD(yr.size(), 0.) : yr;
         for( int i = 0; i < t.m; i++ )
            for( int j = 0; j < t.n; j++ )
            {
               // a position with a stored entry takes part
               bool has = false;
               for( size_t k = 0; k < t.v.size(); k++ )
               {
                  has |= (t.I[k] == i && t.J[k] == j) || (kind == 1 && t.I[k] == j && t.J[k] == i);
               }
               double& q = p[row ? i : j];
               if( has )
               {
                  q = std::max(q, t.a[i][j]);
               }
            }
         if( row )
         {
            t.A->ComputeRowAMax(*y, init);
         }
         else
         {
            t.A->ComputeColAMax(*y, init);
         }
         eqv("norms", get(*y), p);
      }
      {
         VD sr, zr, xr;
         SmartPtr<DenseVector> s = mkdense(*sn, sr, false, true), z = mkdense(*sn, zr), x = mkdense(*sm, xr);
         setcase(std::string(KN[kind]) + " X + alpha M S^-1 Z", t.s + " alpha=" + S(al) + " S=" + D(*s, sr) + " Z=" + D(*z, zr) + " X=" + D(*x, xr));
         VD q(t.n);
         for( int i = 0; i < t.n; i++ )
         {
            q[i] = zr[i] / sr[i];
         }
         VD p = mul(t.d, q);
         for( int i = 0; i < t.m; i++ )
         {
            p[i] = xr[i] + al * p[i];
         }
         t.A->AddMSinvZ(al, *s, *z, *x);
         eqv("result", get(*x), p);
      }
      {
         VD sr, zr, rr, dr, xr;
         SmartPtr<DenseVector> s = mkdense(*sn, sr, false, true), z = mkdense(*sn, zr), r = mkdense(*sn, rr), d = mkdense(*sm, dr), x = mkdense(*sn, xr);
         if( ri(0, 1) )
         {
            x = sn->MakeNewDenseVector();
         }
         setcase(std::string(KN[kind]) + " S^-1 (R + alpha Z M^T D)", t.s + " alpha=" + S(al) + " S=" + D(*s, sr) + " R=" + D(*r, rr) + " Z=" + D(*z, zr) + " D=" + D(*d, dr));
         VD p = mulT(t.d, dr, t.n);
         for( int i = 0; i < t.n; i++ )
         {
            p[i] = (rr[i] + al * zr[i] * p[i]) / sr[i];
         }
         t.A->SinvBlrmZMTdBr(al, *s, *r, *z, *d, *x);
         eqv("result", get(*x), p);
      }
      // values that are not numbers are noticed
      if( kind < 2 && t.v.size() )
      {
         setcase(std::string(KN[kind]) + " HasValidNumbers", t.s);
         chk(t.A->HasValidNumbers(), "valid numbers are called invalid");
         VD w = t.v;
         int k = ri(0, (int) w.size() - 1);
         w[k] = ri(0, 1) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity() * (ri(0, 1) ? 1 : -1);
         if( kind )
         {
            static_cast<SymTMatrix*>(GetRawPtr(t.A))->SetValues(w.data());
         }
         else
         {
            static_cast<GenTMatrix*>(GetRawPtr(t.A))->SetValues(w.data());
         }
         chk(!t.A->HasValidNumbers(), "an entry that is not a finite number is not noticed");
      }
   }
   return h_done();
}
