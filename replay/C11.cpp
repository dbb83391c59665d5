// run-time contracts of result caches: random histories of changes and queries; every answer must be that for the current state
#include "la.hpp"
#include "IpCachedResults.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"
#include "IpExpansionMatrix.hpp"

static std::string H;
static void say(const std::string& s)
{
   H += s + "; ";
}
static std::string num(int i)
{
   return std::to_string(i);
}
static bool fin(const VD& a)
{
   for( double x : a )
      if( !std::isfinite(x) )
      {
         return false;
      }
   return true;
}
// all dense parts of a vector, found through the composite (marks the composite as changed, as documented)
static SmartPtr<Vector> part(SmartPtr<Vector> v, std::string& path)
{
   CompoundVector* c = dynamic_cast<CompoundVector*>(GetRawPtr(v));
   if( c == NULL || c->NComps() == 0 )
   {
      return v;
   }
   int k = ri(0, c->NComps() - 1);
   path += "." + num(k);
   return part(c->GetCompNonConst(k), path);
}

static void vectors(int N)
{
   for( int it = 0; it < N; it++ )
   {
      H.clear();
      SmartPtr<const VectorSpace> sp = mkspace(ri(0, 2), 4);
      std::vector<SmartPtr<Vector> > v;
      int nv = ri(2, 4);
      for( int i = 0; i < nv; i++ )
      {
         VD r;
         v.push_back(mkvec(*sp, r, ri(0, 1) == 0));
         say("v" + num(i) + "=" + S(r));
      }
      int steps = ri(3, 25);
      for( int s = 0; s < steps; s++ )
      {
         int a = ri(0, nv - 1), b = ri(0, nv - 1), c = ri(0, nv - 1);
         Vector& A = *v[a];
         double x = rscal(), y = rscal(), z = rscal();
         std::string n = "v" + num(a) + ".";
         std::string ab = "v" + num(b);
         // ---- a change
         int op = ri(0, 26);
         if( op > 20 && ri(0, 1) )
         {
            op = 1;                     // scaling keeps some cached results
         }
         if( op == 0 ) { say(n + "Copy(" + ab + ")"); A.Copy(*v[b]); }
         else if( op == 1 ) { double f = ri(0, 5) ? x : std::vector<double>{-1., 1., 0., 2., -4.}[ri(0, 4)]; say(n + "Scal(" + S(f) + ")"); A.Scal(f); }
         else if( op == 2 ) { say(n + "Axpy(" + S(x) + "," + ab + ")"); A.Axpy(x, *v[b]); }
         else if( op == 3 ) { say(n + "Set(" + S(x) + ")"); A.Set(x); }
         else if( op == 4 ) { say(n + "ElementWiseDivide(" + ab + ")"); A.ElementWiseDivide(*v[b]); }
         else if( op == 5 ) { say(n + "ElementWiseMultiply(" + ab + ")"); A.ElementWiseMultiply(*v[b]); }
         else if( op == 6 ) { say(n + "ElementWiseSelect(" + ab + ")"); A.ElementWiseSelect(*v[b]); }
         else if( op == 7 ) { say(n + "ElementWiseMax(" + ab + ")"); A.ElementWiseMax(*v[b]); }
         else if( op == 8 ) { say(n + "ElementWiseMin(" + ab + ")"); A.ElementWiseMin(*v[b]); }
         else if( op == 9 ) { say(n + "ElementWiseReciprocal"); A.ElementWiseReciprocal(); }
         else if( op == 10 ) { say(n + "ElementWiseAbs"); A.ElementWiseAbs(); }
         else if( op == 11 ) { say(n + "ElementWiseSqrt"); A.ElementWiseSqrt(); }
         else if( op == 12 ) { say(n + "ElementWiseSgn"); A.ElementWiseSgn(); }
         else if( op == 13 ) { say(n + "AddScalar(" + S(x) + ")"); A.AddScalar(x); }
         else if( op == 14 ) { say(n + "AddOneVector(" + S(x) + "," + ab + "," + S(y) + ")"); A.AddOneVector(x, *v[b], y); }
         else if( op == 15 ) { say(n + "AddTwoVectors(" + S(x) + "," + ab + "," + S(y) + ",v" + num(c) + "," + S(z) + ")"); A.AddTwoVectors(x, *v[b], y, *v[c], z); }
         else if( op == 16 && a != b && a != c ) { say(n + "AddVectorQuotient(" + S(x) + "," + ab + ",v" + num(c) + "," + S(y) + ")"); A.AddVectorQuotient(x, *v[b], *v[c], y); }
         else if( op == 17 || op == 18 )
         {
            std::string path;
            SmartPtr<Vector> p = part(v[a], path);
            if( DenseVector* d = dynamic_cast<DenseVector*>(GetRawPtr(p)) )
            {
               VD r(d->Dim());
               for( double& q : r )
               {
                  q = rval();
               }
               if( !r.empty() && ri(0, 9) == 0 )
               {
                  r[ri(0, r.size() - 1)] = ri(0, 1) ? NAN : INFINITY;
               }
               int how = ri(0, 2);
               say(n + path + (how == 0 ? " SetValues " : how == 1 ? " Values() " : " Set ") + S(r));
               if( how == 0 )
               {
                  put(*d, r);
               }
               else if( how == 1 )
               {
                  Number* q = d->Values();
                  std::copy(r.begin(), r.end(), q);
               }
               else
               {
                  d->Set(r.empty() ? 1. : r[0]);
               }
            }
         }
         else if( op == 19 )
         {
            VD r;
            v[a] = mkvec(*sp, r, ri(0, 1));           // the old one goes away
            say("v" + num(a) + " replaced by " + S(r));
         }
         else if( op == 20 ) { say(n + "FracToBound"); if( fin(get(A)) ) { (void) A.FracToBound(*v[b], 0.5); } }
         VD r0 = get(*v[a]);
         double big = 0;
         for( double q : r0 )
         {
            big = std::max(big, std::fabs(q));
         }
         if( !std::isfinite(big) || big > 1e5 || std::find_if(r0.begin(), r0.end(), [](double q) { return std::isnan(q); }) != r0.end() )
         {
            if( ri(0, 2) )
            {
               VD r;
               SmartPtr<Vector> w = mkvec(*sp, r);
               say("v" + num(a) + " copied from " + S(r));
               v[a]->Copy(*w);
            }
         }
         // ---- queries
         int q = ri(0, 3);
         for( int k = 0; k < q; k++ )
         {
            int i = ri(0, 2) ? a : ri(0, nv - 1), j = ri(0, nv - 1);
            VD r = get(*v[i]), t = get(*v[j]);
            int w = ri(0, 8);
            static const char* W[] = {"Nrm2", "Asum", "Amax", "Max", "Min", "Sum", "SumLogs", "HasValidNumbers", "Dot"};
            if( !fin(r) || !fin(t) )
            {
               w = 7;
            }
            if( w == 6 )
               for( double e : r )
                  if( e <= 0. )
                  {
                     w = 1;
                  }
            say("v" + num(i) + "." + W[w] + (w == 8 ? "(v" + num(j) + ")" : ""));
            setcase(std::string("vector history, ") + W[w], H);
            double e = 0, g = 0, scale = 1;
            if( w == 0 ) { for( double d : r ) e += d * d; e = std::sqrt(e); g = v[i]->Nrm2(); }
            if( w == 1 ) { for( double d : r ) e += std::fabs(d); g = v[i]->Asum(); }
            if( w == 2 ) { for( double d : r ) e = std::max(e, std::fabs(d)); g = v[i]->Amax(); }
            if( w == 3 || w == 4 )
            {
               g = w == 3 ? v[i]->Max() : v[i]->Min();
               e = r.empty() ? g : w == 3 ? *std::max_element(r.begin(), r.end()) : *std::min_element(r.begin(), r.end());
            }
            if( w == 5 ) { for( double d : r ) { e += d; scale += std::fabs(d); } g = v[i]->Sum(); }
            if( w == 6 ) { for( double d : r ) e += std::log(d); g = v[i]->SumLogs(); }
            if( w == 7 ) { e = fin(r); g = v[i]->HasValidNumbers(); }
            if( w == 8 ) { for( size_t d = 0; d < r.size(); d++ ) { e += r[d] * t[d]; scale += std::fabs(r[d] * t[d]); } g = v[i]->Dot(*v[j]); }
            eq(std::string(W[w]) + " (relative to " + S(scale) + ")", g / scale, e / scale, 1e-8);
         }
      }
   }
}

// ---- the cache itself against a list of everything ever stored
struct Obj: public TaggedObject
{
   void change()
   {
      ObjectChanged();
   }
};
struct Ent
{
   double res;
   std::vector<TaggedObject::Tag> tags;
   VD sc;
   bool gone;
};
static void caches(int N)
{
   for( int it = 0; it < N; it++ )
   {
      H.clear();
      int mx = ri(-1, 4);
      say("max size " + num(mx));
      CachedResults<double>* C = new CachedResults<double>(mx);
      std::list<Ent> ref;                // newest first
      int no = ri(1, 4);
      std::vector<SmartPtr<Obj> > o;
      for( int i = 0; i < no; i++ )
      {
         o.push_back(new Obj());
      }
      double next = 1;
      int nd = ri(1, 3);
      bool wrap = ri(0, 1), sc = !wrap && ri(0, 1);
      std::vector<std::vector<const TaggedObject*> > ever;
      std::vector<VD> evers;
      for( int s = ri(4, 40); s > 0; s-- )
      {
         int k = ri(0, 9);
         auto drop = [&](TaggedObject::Tag t)
         {
            for( auto e = ref.begin(); e != ref.end(); )
            {
               if( std::find(e->tags.begin(), e->tags.end(), t) != e->tags.end() )
               {
                  e = ref.erase(e);
               }
               else
               {
                  ++e;
               }
            }
         };
         if( k == 0 )
         {
            int i = ri(0, no - 1);
            say("o" + num(i) + " changes");
            TaggedObject::Tag t = o[i]->GetTag();
            drop(t);
            o[i]->change();
            chk(o[i]->GetTag() != t, "a change gives a new tag");
            for( int j = 0; j < no; j++ )
            {
               chk(j == i || o[j]->GetTag() != o[i]->GetTag(), "tags of different objects differ");
            }
            continue;
         }
         if( k == 1 )
         {
            int i = ri(0, no - 1);
            say("o" + num(i) + " is replaced");
            drop(o[i]->GetTag());
            o[i] = new Obj();
            continue;
         }
         if( k == 2 && ri(0, 3) == 0 )
         {
            if( ri(0, 1) )
            {
               say("Clear");
               C->Clear();
            }
            else
            {
               mx = ri(-1, 4);
               say("Clear(" + num(mx) + ")");
               C->Clear(mx);
            }
            ref.clear();
            continue;
         }
         if( k == 3 && ri(0, 3) == 0 )
         {
            say("cache is destroyed and created");
            delete C;
            C = new CachedResults<double>(mx);
            ref.clear();
            continue;
         }
         // dependencies
         std::vector<const TaggedObject*> d(nd);
         std::vector<SmartPtr<Obj> > dd;
         Ent e;
         std::string txt;
         for( int i = 0; i < nd; i++ )
         {
            int j = ri(0, no);
            if( j == no && ri(0, 1) )
            {
               j = 0;
            }
            d[i] = j == no ? NULL : GetRawPtr(o[j]);
            e.tags.push_back(j == no ? 0 : o[j]->GetTag());
            txt += (j == no ? std::string("null") : "o" + num(j)) + ",";
         }
         if( sc )
         {
            for( int i = ri(0, 2); i > 0; i-- )
            {
               e.sc.push_back(ri(0, 1));
            }
            txt += S(e.sc);
         }
         auto same = [&](const Ent & f)
         {
            return f.tags == e.tags && f.sc == e.sc;
         };
         auto f = std::find_if(ref.begin(), ref.end(), same);
         if( k <= 5 )
         {
            e.res = next++;
            say("add " + S(e.res) + " for " + txt);
            if( wrap && nd == 1 )
            {
               d[0] && ri(0, 1) ? C->AddCachedResult1Dep(e.res, *d[0]) : C->AddCachedResult1Dep(e.res, d[0]);
            }
            else if( wrap && nd == 2 )
            {
               d[0] && d[1] && ri(0, 1) ? C->AddCachedResult2Dep(e.res, *d[0], *d[1]) : C->AddCachedResult2Dep(e.res, d[0], d[1]);
            }
            else if( wrap )
            {
               d[0] && d[1] && d[2] && ri(0, 1) ? C->AddCachedResult3Dep(e.res, *d[0], *d[1], *d[2]) : C->AddCachedResult3Dep(e.res, d[0], d[1], d[2]);
            }
            else if( sc )
            {
               C->AddCachedResult(e.res, d, e.sc);
            }
            else
            {
               C->AddCachedResult(e.res, d);
            }
            ref.push_front(e);
            if( mx >= 0 && (int) ref.size() > mx )
            {
               ref.pop_back();
            }
         }
         else if( k == 6 && ri(0, 2) == 0 )
         {
            say("invalidate " + txt);
            bool r = C->InvalidateResult(d, e.sc);
            setcase("InvalidateResult", H);
            chk(r == (f != ref.end()), "InvalidateResult tells whether the result was there");
            if( f != ref.end() )
            {
               ref.erase(f);
            }
         }
         else
         {
            say("get " + txt);
            setcase("cache history", H);
            double r = -1;
            bool g;
            if( wrap && nd == 1 )
            {
               g = d[0] && ri(0, 1) ? C->GetCachedResult1Dep(r, *d[0]) : C->GetCachedResult1Dep(r, d[0]);
            }
            else if( wrap && nd == 2 )
            {
               g = d[0] && d[1] && ri(0, 1) ? C->GetCachedResult2Dep(r, *d[0], *d[1]) : C->GetCachedResult2Dep(r, d[0], d[1]);
            }
            else if( wrap )
            {
               g = d[0] && d[1] && d[2] && ri(0, 1) ? C->GetCachedResult3Dep(r, *d[0], *d[1], *d[2]) : C->GetCachedResult3Dep(r, d[0], d[1], d[2]);
            }
            else if( sc )
            {
               g = C->GetCachedResult(r, d, e.sc);
            }
            else
            {
               g = C->GetCachedResult(r, d);
            }
            chk(!g || f != ref.end(), "a result is returned although a dependency has changed since, or was never stored: " + S(r));
            chk(g || f == ref.end(), "a result stored for unchanged dependencies is not found");
            if( g )
            {
               eq("cached result", r, f->res);
            }
         }
      }
      delete C;
      for( int i = 0; i < no; i++ )
      {
         o[i]->change();
      }
   }
}

// ---- cached validity of matrices
static bool OK1(const Vector& v)
{
   return fin(get(v));
}
static void matrices(int N)
{
   for( int it = 0; it < N; it++ )
   {
      H.clear();
      int n = ri(1, 3);
      SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(n);
      auto vec = [&](bool & ok) -> SmartPtr<DenseVector>
      {
         VD r(n);
         for( double& q : r )
         {
            q = rval();
         }
         ok = ri(0, 3) != 0;
         if( !ok )
         {
            r[ri(0, n - 1)] = ri(0, 1) ? NAN : -INFINITY;
         }
         SmartPtr<DenseVector> v = sp->MakeNewDenseVector();
         put(*v, r);
         return v;
      };
      std::vector<Index> ir(n), jc(n);
      for( int i = 0; i < n; i++ )
      {
         ir[i] = ri(1, n);
         jc[i] = ri(1, ir[i]);
      }
      bool okd = true, okg = true, oky = true, okm = true, okc[2], oki = true, okz[2], oku[2], okb[3];
      std::vector<char> okv_(n, 1);
      SmartPtr<DiagMatrixSpace> dsp = new DiagMatrixSpace(n);
      SmartPtr<DiagMatrix> D = dsp->MakeNewDiagMatrix();
      D->SetDiag(*vec(okd));
      SmartPtr<IdentityMatrixSpace> isp = new IdentityMatrixSpace(n);
      SmartPtr<IdentityMatrix> I = isp->MakeNewIdentityMatrix();
      SmartPtr<GenTMatrixSpace> gsp = new GenTMatrixSpace(n, n, n, ir.data(), jc.data());
      SmartPtr<GenTMatrix> G = gsp->MakeNewGenTMatrix();
      SmartPtr<SymTMatrixSpace> ssp = new SymTMatrixSpace(n, n, ir.data(), jc.data());
      SmartPtr<SymTMatrix> Y = ssp->MakeNewSymTMatrix();
      SmartPtr<DenseGenMatrixSpace> egp = new DenseGenMatrixSpace(n, n);
      SmartPtr<DenseGenMatrix> E = egp->MakeNewDenseGenMatrix();
      SmartPtr<DenseSymMatrixSpace> esp = new DenseSymMatrixSpace(n);
      SmartPtr<DenseSymMatrix> F = esp->MakeNewDenseSymMatrix();
      SmartPtr<MultiVectorMatrixSpace> msp = new MultiVectorMatrixSpace(n, *sp);
      SmartPtr<MultiVectorMatrix> M = msp->MakeNewMultiVectorMatrix();
      SmartPtr<SumSymMatrixSpace> zsp = new SumSymMatrixSpace(n, 2);
      SmartPtr<SumSymMatrix> Z = zsp->MakeNewSumSymMatrix();
      SmartPtr<SumMatrixSpace> vsp = new SumMatrixSpace(n, n, 2);
      SmartPtr<SumMatrix> U = vsp->MakeNewSumMatrix();
      SmartPtr<CompoundSymMatrixSpace> csp = new CompoundSymMatrixSpace(2, 2 * n);
      csp->SetBlockDim(0, n);
      csp->SetBlockDim(1, n);
      csp->SetCompSpace(0, 0, *dsp);
      csp->SetCompSpace(1, 0, *gsp);
      csp->SetCompSpace(1, 1, *dsp);
      SmartPtr<CompoundSymMatrix> Cs = csp->MakeNewCompoundSymMatrix();
      SmartPtr<CompoundMatrixSpace> bsp = new CompoundMatrixSpace(2, 2, 2 * n, 2 * n);
      bsp->SetBlockRows(0, n);
      bsp->SetBlockRows(1, n);
      bsp->SetBlockCols(0, n);
      bsp->SetBlockCols(1, n);
      bsp->SetCompSpace(0, 0, *dsp);
      bsp->SetCompSpace(0, 1, *gsp);
      bsp->SetCompSpace(1, 1, *dsp);
      SmartPtr<CompoundMatrix> B = bsp->MakeNewCompoundMatrix();
      auto diag = [&](bool & ok) -> SmartPtr<DiagMatrix>
      {
         SmartPtr<DiagMatrix> d = dsp->MakeNewDiagMatrix();
         d->SetDiag(*vec(ok));
         return d;
      };
      auto gent = [&](bool & ok) -> SmartPtr<GenTMatrix>
      {
         SmartPtr<GenTMatrix> d = gsp->MakeNewGenTMatrix();
         d->SetValues(((const DenseVector*) GetRawPtr(vec(ok)))->Values());
         return d;
      };
      G->SetValues(((const DenseVector*) GetRawPtr(vec(okg)))->Values());
      Y->SetValues(((const DenseVector*) GetRawPtr(vec(oky)))->Values());
      for( int i = 0; i < n; i++ )
      {
         bool k;
         M->SetVector(i, *vec(k));
         okv_[i] = k;
      }
      E->FillIdentity();
      F->FillIdentity();
      bool okE = true, okF = true;
      for( int i = 0; i < 2; i++ )
      {
         Z->SetTerm(i, 1., *diag(okz[i]));
         U->SetTerm(i, 1., *gent(oku[i]));
         Cs->SetComp(i, i, *diag(okc[i]));
         B->SetComp(i, i, *diag(okb[i]));
      }
      bool okco;
      Cs->SetComp(1, 0, *gent(okco));
      B->SetComp(0, 1, *gent(okb[2]));
      for( int s = ri(3, 20); s > 0; s-- )
      {
         int k = ri(0, 12), j = ri(0, 1);
         double x = ri(0, 3) ? rval() : NAN;
         switch( k )
         {
            case 0: D->SetDiag(*vec(okd)); say("D.SetDiag"); break;
            case 1: I->SetFactor(x); oki = std::isfinite(x); say("I.SetFactor " + S(x)); break;
            case 2:
               if( j )
               {
                  G->SetValues(((const DenseVector*) GetRawPtr(vec(okg)))->Values());
               }
               else
               {
                  SmartPtr<DenseVector> w = vec(okg);
                  std::copy(w->Values(), w->Values() + n, G->Values());
               }
               say("G.SetValues");
               break;
            case 3:
               if( j )
               {
                  Y->SetValues(((const DenseVector*) GetRawPtr(vec(oky)))->Values());
               }
               else
               {
                  SmartPtr<DenseVector> w = vec(oky);
                  std::copy(w->Values(), w->Values() + n, Y->Values());
               }
               say("Y.SetValues");
               break;
            case 4:
            {
               int c = ri(0, n - 1);
               bool k1;
               SmartPtr<DenseVector> w = vec(k1);
               int how = ri(0, 2);
               if( how == 0 )
               {
                  M->SetVector(c, *w);
               }
               else if( how == 1 )
               {
                  M->SetVectorNonConst(c, *w);
               }
               else
               {
                  M->SetVectorNonConst(c, *sp->MakeNewDenseVector());
                  (void) 0;
                  M->GetVectorNonConst(c)->Copy(*w);
               }
               okv_[c] = k1;
               say("M.SetVector");
               break;
            }
            case 5: E->FillIdentity(x); okE = std::isfinite(x); say("E.FillIdentity " + S(x)); break;
            case 6: F->FillIdentity(x); okF = std::isfinite(x); say("F.FillIdentity " + S(x)); break;
            case 7: Z->SetTerm(j, rscal(), *diag(okz[j])); say("Z.SetTerm"); break;
            case 8: U->SetTerm(j, rscal(), *gent(oku[j])); say("U.SetTerm"); break;
            case 9: if( ri(0, 2) ) { Cs->SetComp(j, j, *diag(okc[j])); } else { Cs->SetComp(1, 0, *gent(okco)); } say("Cs.SetComp"); break;
            case 10: if( ri(0, 2) ) { B->SetComp(j, j, *diag(okb[j])); } else { B->SetCompNonConst(0, 1, *gent(okb[2])); } say("B.SetComp"); break;
            case 11:
            {
               // dense matrices are changed by sums and factors
               if( j && okE )
               {
                  bool k1;
                  SmartPtr<DenseVector> w = vec(k1);
                  E->ScaleColumns(*w);
                  okE = k1;
                  say("E.ScaleColumns " + S(get(*w)));
               }
               else
               {
                  SmartPtr<DenseSymMatrix> F2 = esp->MakeNewDenseSymMatrix();
                  F2->FillIdentity(x);
                  F->AddMatrix(1., *F2, 0.);
                  okF = std::isfinite(x);
                  say("F.AddMatrix " + S(x));
               }
               break;
            }
            case 12:
            {
               SmartPtr<DenseGenMatrix> E2 = egp->MakeNewDenseGenMatrix();
               E2->FillIdentity(x);
               E->Copy(*E2);
               okE = std::isfinite(x);
               say("E.Copy " + S(x));
               break;
            }
         }
         int q = ri(0, 12);
         okm = true;
         for( char c : okv_ )
         {
            okm = okm && c;
         }
         auto ask = [&](const char* nm, const Matrix & A, bool want)
         {
            say(std::string(nm) + "?");
            setcase("matrix history", H);
            chk(A.HasValidNumbers() == want, std::string("HasValidNumbers of ") + nm + " must tell about the current entries");
         };
         // usually the matrix just changed is asked
         if( ri(0, 1) )
         {
            q = k;
         }
         switch( q )
         {
            case 0: ask("D", *D, okd); break;
            case 1: ask("I", *I, oki); break;
            case 2: ask("G", *G, okg); break;
            case 3: ask("Y", *Y, oky); break;
            case 4: ask("M", *M, okm); break;
            case 5: case 12: ask("E", *E, okE); break;
            case 6: ask("F", *F, okF); break;
            case 7: ask("Z", *Z, okz[0] && okz[1]); break;
            case 8: ask("U", *U, oku[0] && oku[1]); break;
            case 9: ask("Cs", *Cs, okc[0] && okc[1] && okco); break;
            case 10: ask("B", *B, okb[0] && okb[1] && okb[2]); break;
            default: ask("E", *E, okE); ask("F", *F, okF); break;
         }
      }
   }
}

int main()
{
   h_init();
   int f = THOROUGH ? 20 : 1;
   caches(30000 * f);
   matrices(6000 * f);
   vectors(20000 * f);
   return h_done();
}
