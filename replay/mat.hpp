// random structured matrices together with the dense matrix they represent
#pragma once
#include "la.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpZeroMatrix.hpp"
#include "IpZeroSymMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpTransposeMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"

struct RM
{
   SmartPtr<Matrix> A;
   SmartPtr<const MatrixSpace> sp;
   MD d, a;              // represented matrix, largest magnitude of a stored entry per position
   bool norms = true;
   std::string s;
   bool trip = true;     // the triplet extraction supports this kind
   bool once = true;     // entries of repeated positions are not combined differently
};
typedef SmartPtr<const VectorSpace> VS;
static bool INJECT, INJECTED;   // put one non-finite number into some leaf matrix

inline std::vector<VS> parts(const VS& s)
{
   std::vector<VS> r;
   if( const CompoundVectorSpace* c = dynamic_cast<const CompoundVectorSpace*>(GetRawPtr(s)) )
   {
      for( Index i = 0; i < c->NCompSpaces(); i++ )
      {
         r.push_back(c->GetCompSpace(i));
      }
   }
   else
   {
      r.push_back(s);
   }
   return r;
}
inline bool dense(const VS& s)
{
   return dynamic_cast<const DenseVectorSpace*>(GetRawPtr(s)) != NULL;
}
inline void absval(RM& r)
{
   r.a = r.d;
   for( auto& x : r.a )
      for( auto& y : x )
      {
         y = std::fabs(y);
      }
}
// trip: only kinds the triplet extraction knows
inline RM mkmat(const VS& R, const VS& C, int depth, bool sym, bool trip = false)
{
   RM r;
   int m = R->Dim(), n = C->Dim();
   r.d.assign(m, VD(n, 0.));
   r.a = r.d;
   bool dd = dense(R) && dense(C);
   std::vector<int> kinds;
   enum { GENT, SYMT, EXP, COMP, DIAG, IDENT, ZERO, DGEN, DSYM, SUM, SCAL, TRANS, MV, EMV };
   if( sym )
   {
      kinds = {DIAG, IDENT, ZERO};
      if( dd )
      {
         kinds.insert(kinds.end(), {SYMT, SYMT, SYMT});
         if( m > 0 && !trip )
         {
            kinds.push_back(DSYM);
         }
      }
      if( depth > 0 )
      {
         kinds.insert(kinds.end(), {SUM, SCAL});
         if( !dense(R) )
         {
            kinds.insert(kinds.end(), {COMP, COMP, COMP, COMP, COMP});
         }
      }
   }
   else
   {
      kinds = {ZERO};
      if( dd )
      {
         kinds.insert(kinds.end(), {GENT, GENT, GENT, TRANS});
         if( m > 0 && n > 0 && !trip )     // BLAS requires positive leading dimensions
         {
            kinds.push_back(DGEN);
         }
         if( m >= n )
         {
            kinds.push_back(EXP);
         }
      }
      if( dense(C) && !trip )
      {
         kinds.push_back(MV);
      }
      if( dense(C) && trip && dense(R) )
      {
         kinds.push_back(EMV);
      }
      if( GetRawPtr(R) == GetRawPtr(C) )
      {
         kinds.push_back(IDENT);
         kinds.push_back(DIAG);
      }
      if( depth > 0 )
      {
         kinds.insert(kinds.end(), {SUM, SCAL});
         if( !dense(R) || !dense(C) )
         {
            kinds.insert(kinds.end(), {COMP, COMP, COMP, COMP, COMP, COMP});
         }
      }
   }
   int k = kinds[ri(0, (int) kinds.size() - 1)];
   switch( k )
   {
      case GENT:
      case SYMT:
      case TRANS:
      {
         bool tr = k == TRANS;
         int mm = tr ? n : m, nn = tr ? m : n;
         int nz = m && n ? ri(0, 3) * ri(0, 3) : 0;
         std::vector<Index> ir, jc;
         VD v;
         for( int l = 0; l < nz; l++ )
         {
            bool rep = l && ri(0, 3) == 0;
            int i = rep ? ir[l - 1] - 1 : ri(0, mm - 1), j = rep ? jc[l - 1] - 1 : ri(0, nn - 1);
            ir.push_back(i + 1);
            jc.push_back(j + 1);
            double x = rval();
            v.push_back(x);
            auto add = [&](int p, int q)
            {
               r.d[p][q] += x;
               r.a[p][q] = std::max(r.a[p][q], std::fabs(x));
            };
            if( tr )
            {
               add(j, i);
            }
            else
            {
               add(i, j);
            }
            if( k == SYMT && i != j )
            {
               add(j, i);
            }
         }
         if( INJECT && !INJECTED && nz > 0 && ri(0, 2) == 0 )
         {
            INJECTED = true;
            v[ri(0, nz - 1)] = ri(0, 1) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
         }
         ir.push_back(1);
         jc.push_back(1);
         v.push_back(0.);
         if( k == SYMT )
         {
            SmartPtr<SymTMatrixSpace> sp = new SymTMatrixSpace(m, nz, ir.data(), jc.data());
            SmartPtr<SymTMatrix> g = sp->MakeNewSymTMatrix();
            g->SetValues(v.data());
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(sp);
            r.s = "SymT";
         }
         else
         {
            SmartPtr<GenTMatrixSpace> sp = new GenTMatrixSpace(mm, nn, nz, ir.data(), jc.data());
            if( tr )
            {
               SmartPtr<TransposeMatrixSpace> ts = new TransposeMatrixSpace(GetRawPtr(sp));
               SmartPtr<TransposeMatrix> t = ts->MakeNewTransposeMatrix();
               const_cast<GenTMatrix*>(dynamic_cast<const GenTMatrix*>(GetRawPtr(t->OrigMatrix())))->SetValues(v.data());
               r.A = GetRawPtr(t);
               r.sp = GetRawPtr(ts);
               r.s = "Trans(GenT)";
            }
            else
            {
               SmartPtr<GenTMatrix> g = sp->MakeNewGenTMatrix();
               g->SetValues(v.data());
               r.A = GetRawPtr(g);
               r.sp = GetRawPtr(sp);
               r.s = "GenT";
            }
         }
         break;
      }
      case EXP:
      {
         std::vector<Index> pos(m + 1);
         for( int i = 0; i < m; i++ )
         {
            pos[i] = i;
         }
         std::shuffle(pos.begin(), pos.begin() + m, RNG);
         SmartPtr<ExpansionMatrixSpace> sp = new ExpansionMatrixSpace(m, n, pos.data(), 0);
         r.A = sp->MakeNewExpansionMatrix();
         r.sp = GetRawPtr(sp);
         for( int j = 0; j < n; j++ )
         {
            r.d[pos[j]][j] = 1.;
         }
         absval(r);
         r.s = "Exp";
         break;
      }
      case DIAG:
      {
         VD v;
         SmartPtr<DiagMatrixSpace> sp = new DiagMatrixSpace(m);
         SmartPtr<DiagMatrix> g = sp->MakeNewDiagMatrix();
         g->SetDiag(*mkvec(*R, v));
         for( int i = 0; i < m; i++ )
         {
            r.d[i][i] = v[i];
         }
         absval(r);
         r.A = GetRawPtr(g);
         r.sp = GetRawPtr(sp);
         r.s = "Diag";
         break;
      }
      case IDENT:
      {
         SmartPtr<IdentityMatrixSpace> sp = new IdentityMatrixSpace(m);
         SmartPtr<IdentityMatrix> g = sp->MakeNewIdentityMatrix();
         double f = rscal();
         if( ri(0, 1) )
         {
            f = 1.;
         }
         else
         {
            g->SetFactor(f);
         }
         for( int i = 0; i < m; i++ )
         {
            r.d[i][i] = f;
         }
         absval(r);
         r.A = GetRawPtr(g);
         r.sp = GetRawPtr(sp);
         r.s = "Ident";
         break;
      }
      case ZERO:
         if( sym )
         {
            r.sp = new ZeroSymMatrixSpace(m);
         }
         else
         {
            r.sp = new ZeroMatrixSpace(m, n);
         }
         r.A = r.sp->MakeNew();
         r.s = "Zero";
         break;
      case DGEN:
      {
         SmartPtr<DenseGenMatrixSpace> sp = new DenseGenMatrixSpace(m, n);
         SmartPtr<DenseGenMatrix> g = sp->MakeNewDenseGenMatrix();
         for( int i = 0; i < m; i++ )
            for( int j = 0; j < n; j++ )
            {
               r.d[i][j] = g->Values()[i + j * m] = rval();
            }
         g->Values();
         if( m == 0 || n == 0 )
         {
            r.norms = true;
         }
         absval(r);
         r.A = GetRawPtr(g);
         r.sp = GetRawPtr(sp);
         r.s = "DenseGen";
         break;
      }
      case DSYM:
      {
         SmartPtr<DenseSymMatrixSpace> sp = new DenseSymMatrixSpace(m);
         SmartPtr<DenseSymMatrix> g = sp->MakeNewDenseSymMatrix();
         g->FillIdentity();
         for( int i = 0; i < m; i++ )
            for( int j = 0; j <= i; j++ )
            {
               r.d[i][j] = r.d[j][i] = g->Values()[i + j * m] = rval();
               if( i != j )
               {
                  g->Values()[j + i * m] = 77.;        // not part of the matrix
               }
            }
         absval(r);
         r.A = GetRawPtr(g);
         r.sp = GetRawPtr(sp);
         r.s = "DenseSym";
         break;
      }
      case SUM:
      {
         int nt = ri(1, 3);
         r.s = "Sum(";
         r.norms = false;
         if( sym )
         {
            SmartPtr<SumSymMatrixSpace> sp = new SumSymMatrixSpace(m, nt);
            std::vector<RM> ts;
            for( int t = 0; t < nt; t++ )
            {
               ts.push_back(mkmat(R, C, depth - 1, true, trip));
               sp->SetTermSpace(t, *dynamic_cast<const SymMatrixSpace*>(GetRawPtr(ts[t].sp)));
            }
            SmartPtr<SumSymMatrix> g = sp->MakeNewSumSymMatrix();
            for( int t = 0; t < nt; t++ )
            {
               g->SetTerm(t, 1., *dynamic_cast<SymMatrix*>(GetRawPtr(ts[0].A)));
            }
            for( int t = 0; t < nt; t++ )
            {
               double f = rscal();
               if( ri(0, 3) == 0 )
               {
                  g->SetTerm(t, f + 1., *dynamic_cast<SymMatrix*>(GetRawPtr(ts[0].A)));
                  (void) g->HasValidNumbers();
               }
               g->SetTerm(t, f, *dynamic_cast<SymMatrix*>(GetRawPtr(ts[t].A)));
               for( int i = 0; i < m; i++ )
                  for( int j = 0; j < n; j++ )
                  {
                     r.d[i][j] += f * ts[t].d[i][j];
                  }
               r.s += std::to_string(f) + "*" + ts[t].s + " ";
            }
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(sp);
         }
         else
         {
            SmartPtr<SumMatrixSpace> sp = new SumMatrixSpace(m, n, nt);
            std::vector<RM> ts;
            for( int t = 0; t < nt; t++ )
            {
               ts.push_back(mkmat(R, C, depth - 1, false, trip));
               sp->SetTermSpace(t, *ts[t].sp);
            }
            SmartPtr<SumMatrix> g = sp->MakeNewSumMatrix();
            for( int t = 0; t < nt; t++ )
            {
               double f = rscal();
               g->SetTerm(t, f, *ts[t].A);
               for( int i = 0; i < m; i++ )
                  for( int j = 0; j < n; j++ )
                  {
                     r.d[i][j] += f * ts[t].d[i][j];
                  }
               r.s += std::to_string(f) + "*" + ts[t].s + " ";
            }
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(sp);
         }
         r.s += ")";
         absval(r);
         break;
      }
      case SCAL:
      {
         RM o = mkmat(R, C, depth - 1, sym, trip);
         r.norms = false;
         VD rs, cs;
         bool hr = ri(0, 3) > 0, hc = ri(0, 3) > 0, rr = ri(0, 1), cr = ri(0, 1);
         SmartPtr<const Vector> vr = GetRawPtr(mkvec(*R, rs, true, true)), vc = GetRawPtr(mkvec(*C, cs, true, true));
         if( sym )
         {
            SmartPtr<SymScaledMatrixSpace> sp = new SymScaledMatrixSpace(vr, rr, SmartPtr<const SymMatrixSpace>(dynamic_cast<const SymMatrixSpace*>(GetRawPtr(o.sp))));
            SmartPtr<SymScaledMatrix> g = sp->MakeNewSymScaledMatrix();
            g->SetUnscaledMatrix(SmartPtr<const SymMatrix>(dynamic_cast<SymMatrix*>(GetRawPtr(o.A))));
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(sp);
            cs = rs;
            cr = rr;
            hr = hc = true;
         }
         else
         {
            SmartPtr<ScaledMatrixSpace> sp = new ScaledMatrixSpace(hr ? vr : SmartPtr<const Vector>(), rr, o.sp, hc ? vc : SmartPtr<const Vector>(), cr);
            SmartPtr<ScaledMatrix> g = sp->MakeNewScaledMatrix();
            g->SetUnscaledMatrix(SmartPtr<const Matrix>(GetRawPtr(o.A)));
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(sp);
         }
         for( int i = 0; i < m; i++ )
            for( int j = 0; j < n; j++ )
            {
               double f = 1.;
               if( hr )
               {
                  f *= rr ? 1. / rs[i] : rs[i];
               }
               if( hc )
               {
                  f *= cr ? 1. / cs[j] : cs[j];
               }
               r.d[i][j] = f * o.d[i][j];
            }
         absval(r);
         r.s = "Scaled(" + o.s + ")";
         break;
      }
      case MV:
      {
         SmartPtr<MultiVectorMatrixSpace> sp = new MultiVectorMatrixSpace(n, *R);
         SmartPtr<MultiVectorMatrix> g = sp->MakeNewMultiVectorMatrix();
         for( int j = 0; j < n; j++ )
         {
            VD v;
            SmartPtr<Vector> x = mkvec(*R, v);
            if( ri(0, 1) )
            {
               g->SetVector(j, *x);
            }
            else
            {
               g->SetVectorNonConst(j, *x);
            }
            for( int i = 0; i < m; i++ )
            {
               r.d[i][j] = v[i];
            }
         }
         r.norms = false;
         absval(r);
         r.A = GetRawPtr(g);
         r.sp = GetRawPtr(sp);
         r.s = "MultiVector";
         break;
      }
      case EMV:
      {
         // rows are vectors over a subset of the columns
         int q = ri(0, n);
         std::vector<Index> pos(n + 1);
         for( int i = 0; i < n; i++ )
         {
            pos[i] = i;
         }
         std::shuffle(pos.begin(), pos.begin() + n, RNG);
         std::sort(pos.begin(), pos.begin() + q);
         bool ex = q < n || ri(0, 1);
         SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(q);
         SmartPtr<ExpansionMatrixSpace> es = ex ? new ExpansionMatrixSpace(n, q, pos.data(), 0) : NULL;
         SmartPtr<ExpansionMatrix> em = ex ? es->MakeNewExpansionMatrix() : NULL;
         SmartPtr<ExpandedMultiVectorMatrixSpace> sp = new ExpandedMultiVectorMatrixSpace(m, *vs, SmartPtr<const ExpansionMatrix>(GetRawPtr(em)));
         SmartPtr<ExpandedMultiVectorMatrix> g = sp->MakeNewExpandedMultiVectorMatrix();
         for( int i = 0; i < m; i++ )
         {
            if( ri(0, 4) == 0 )
            {
               continue;
            }
            VD v;
            SmartPtr<DenseVector> x = mkdense(*vs, v);
            g->SetVector(i, SmartPtr<const Vector>(GetRawPtr(x)));
            for( int j = 0; j < q; j++ )
            {
               r.d[i][ex ? pos[j] : j] = v[j];
            }
         }
         r.norms = false;
         absval(r);
         r.A = GetRawPtr(g);
         r.sp = GetRawPtr(sp);
         r.s = "ExpandedMultiVector";
         break;
      }
      default:
      {
         std::vector<VS> Rs = parts(R), Cs = parts(C);
         // a compound space of several components may also be one block
         if( !sym && !trip && Rs.size() > 1 && ri(0, 3) == 0 )
         {
            Rs.assign(1, R);
         }
         if( !sym && !trip && Cs.size() > 1 && ri(0, 3) == 0 )
         {
            Cs.assign(1, C);
         }
         int p = (int) Rs.size(), q = (int) Cs.size();
         r.s = "Comp[";
         SmartPtr<CompoundMatrixSpace> sp;
         SmartPtr<CompoundSymMatrixSpace> ssp;
         if( sym )
         {
            ssp = new CompoundSymMatrixSpace(p, m);
            for( int i = 0; i < p; i++ )
            {
               ssp->SetBlockDim(i, Rs[i]->Dim());
            }
         }
         else
         {
            sp = new CompoundMatrixSpace(p, q, m, n);
            for( int i = 0; i < p; i++ )
            {
               sp->SetBlockRows(i, Rs[i]->Dim());
            }
            for( int j = 0; j < q; j++ )
            {
               sp->SetBlockCols(j, Cs[j]->Dim());
            }
         }
         int pat = ri(0, 3);
         std::vector<std::vector<RM> > b(p, std::vector<RM>(q));
         int ro = 0;
         for( int i = 0; i < p; i++ )
         {
            int co = 0;
            for( int j = 0; j < (sym ? i + 1 : q); j++ )
            {
               bool present = pat == 0 ? i == j : (pat == 1 ? (i == j || ri(0, 3) == 0) : (pat == 2 ? ri(0, 1) : ri(0, 4) > 0));
               if( present )
               {
                  b[i][j] = mkmat(Rs[i], Cs[j], depth - 1, sym && i == j, trip);
                  r.norms = r.norms && b[i][j].norms;
                  if( sym )
                  {
                     ssp->SetCompSpace(i, j, *b[i][j].sp);
                  }
                  else
                  {
                     sp->SetCompSpace(i, j, *b[i][j].sp);
                  }
                  for( int k1 = 0; k1 < Rs[i]->Dim(); k1++ )
                     for( int k2 = 0; k2 < Cs[j]->Dim(); k2++ )
                     {
                        r.d[ro + k1][co + k2] = b[i][j].d[k1][k2];
                        r.a[ro + k1][co + k2] = b[i][j].a[k1][k2];
                        if( sym && i != j )
                        {
                           r.d[co + k2][ro + k1] = b[i][j].d[k1][k2];
                           r.a[co + k2][ro + k1] = b[i][j].a[k1][k2];
                        }
                     }
                  r.s += b[i][j].s + ",";
               }
               else
               {
                  r.s += "-,";
               }
               co += Cs[j]->Dim();
            }
            r.s += ";";
            ro += Rs[i]->Dim();
         }
         r.s += "]";
         if( sym )
         {
            SmartPtr<CompoundSymMatrix> g = ssp->MakeNewCompoundSymMatrix();
            for( int i = 0; i < p; i++ )
               for( int j = 0; j <= i; j++ )
                  if( IsValid(b[i][j].A) )
                  {
                     if( ri(0, 1) )
                     {
                        g->SetComp(i, j, *b[i][j].A);
                     }
                     else
                     {
                        g->SetCompNonConst(i, j, *b[i][j].A);
                     }
                  }
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(ssp);
         }
         else
         {
            SmartPtr<CompoundMatrix> g = sp->MakeNewCompoundMatrix();
            for( int i = 0; i < p; i++ )
               for( int j = 0; j < q; j++ )
                  if( IsValid(b[i][j].A) )
                  {
                     if( ri(0, 1) )
                     {
                        g->SetComp(i, j, *b[i][j].A);
                     }
                     else
                     {
                        g->SetCompNonConst(i, j, *b[i][j].A);
                     }
                  }
            r.A = GetRawPtr(g);
            r.sp = GetRawPtr(sp);
         }
      }
   }
   chk(r.A->NRows() == m && r.A->NCols() == n, "dimensions of " + r.s);
   return r;
}
inline std::string shape(const VectorSpace& s)
{
   if( const CompoundVectorSpace* c = dynamic_cast<const CompoundVectorSpace*>(&s) )
   {
      std::string r = "(";
      for( Index i = 0; i < c->NCompSpaces(); i++ )
      {
         r += (i ? "," : "") + shape(*c->GetCompSpace(i));
      }
      return r + ")";
   }
   return std::to_string(s.Dim());
}
