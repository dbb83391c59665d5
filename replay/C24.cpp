// run-time contracts of TSymLinearSolver: a solver that checks everything it is given and solves densely behind the real class
#include "fix.hpp"
#include "mat.hpp"
#include "IpTSymLinearSolver.hpp"
#include "IpTSymDependencyDetector.hpp"
#include "IpSlackBasedTSymScalingMethod.hpp"
#include <list>

// dense solve by elimination with full pivoting; false if (nearly) singular
static bool dsolve(MD A, VD b, VD& x)
{
   int n = b.size();
   std::vector<int> pc(n);
   for( int i = 0; i < n; i++ ) { pc[i] = i; }
   double big = 0.;
   for( auto& r : A ) { for( double v : r ) { big = std::max(big, std::fabs(v)); } }
   for( int k = 0; k < n; k++ )
   {
      int pi = k, pj = k;
      for( int i = k; i < n; i++ ) { for( int j = k; j < n; j++ ) { if( std::fabs(A[i][j]) > std::fabs(A[pi][pj]) ) { pi = i; pj = j; } } }
      if( !(std::fabs(A[pi][pj]) > 1e-6 * big) ) { return false; }
      std::swap(A[k], A[pi]); std::swap(b[k], b[pi]);
      for( int i = 0; i < n; i++ ) { std::swap(A[i][k], A[i][pj]); }
      std::swap(pc[k], pc[pj]);
      for( int i = k + 1; i < n; i++ )
      {
         double f = A[i][k] / A[k][k];
         for( int j = k; j < n; j++ ) { A[i][j] -= f * A[k][j]; }
         b[i] -= f * b[k];
      }
   }
   x.assign(n, 0.);
   for( int k = n - 1; k >= 0; k-- )
   {
      double s = b[k];
      for( int j = k + 1; j < n; j++ ) { s -= A[k][j] * x[pc[j]]; }
      x[pc[k]] = s / A[k][k];
   }
   return true;
}

class FakeScaling: public TSymScalingMethod
{
public:
   VD s;                  // last factors
   MD expect;             // the unscaled current matrix
   bool fail_ = false, isid = false;
   int calls = 0, inits = 0;
   SmartPtr<TSymScalingMethod> inner;
   bool InitializeImpl(const OptionsList&, const std::string&) { inits++; return true; }
   bool ComputeSymTScalingFactors(Index n, Index nnz, const Index* ir, const Index* jc, const Number* a, Number* f)
   {
      calls++;
      MD d(n, VD(n, 0.));
      chk(n == (Index) expect.size(), "dimension for the scaling");
      for( Index k = 0; k < nnz; k++ )
      {
         chk(ir[k] >= 1 && ir[k] <= n && jc[k] >= 1 && jc[k] <= n, "positions for the scaling");
         d[ir[k] - 1][jc[k] - 1] += a[k];
         if( ir[k] != jc[k] ) { d[jc[k] - 1][ir[k] - 1] += a[k]; }
      }
      for( Index i = 0; i < n; i++ ) { eqv("factors are computed for the unscaled current matrix, row " + S(i), d[i], expect[i]); }
      if( fail_ ) { return false; }
      if( IsValid(inner) )
      {
         chk(inner->ComputeSymTScalingFactors(n, nnz, ir, jc, a, f), "slack based scaling succeeds");
         s.assign(f, f + n);
         return true;
      }
      s.assign(n, 1.);
      for( Index i = 0; i < n; i++ ) { s[i] = f[i] = std::pow(2., ri(-3, 3)); }
      return true;
   }
};

class FakeSolver: public SparseSymLinearSolverInterface
{
public:
   EMatrixFormat fmt;
   std::vector<Index> ia, ja;
   Index n = -1, nz = 0;
   VD pa, given;          // values array; values at the last factorization
   bool structure = false, filled = false, have = false;
   int gets = 0;
   // expectations set by the driver
   MD scaled;             // the matrix the solver should have
   std::vector<VD> rhs;   // the scaled right-hand sides
   bool mustnew = false, again = false, chkneg = false;
   Index neg = 0;
   std::vector<ESymSolverStatus> plan;
   ESymSolverStatus structstat = SYMSOLVER_SUCCESS, last;
   std::vector<VD> x;
   int calls = 0, depcalls = 0, inits = 0, asked = 0;
   std::list<Index> deps;
   std::function<void()> prep;
   Index negans = 0; bool quality = false, inertia = true, degen = false;

   bool InitializeImpl(const OptionsList&, const std::string&) { inits++; structure = false; have = false; return true; }
   MD matrix() const
   {
      MD d(n, VD(n, 0.));
      auto put = [&](int i, int j, double v)
      {
         chk(i >= 0 && i < n && j >= 0 && j < n, "position of an entry is within the matrix");
         d[i][j] += v;
         if( i != j ) { d[j][i] += v; }
      };
      if( fmt == Triplet_Format )
      {
         for( Index k = 0; k < nz; k++ ) { put(ia[k] - 1, ja[k] - 1, pa[k]); }
         return d;
      }
      int o = fmt == CSR_Format_1_Offset || fmt == CSR_Full_Format_1_Offset;
      bool full = fmt == CSR_Full_Format_0_Offset || fmt == CSR_Full_Format_1_Offset;
      chk(ia[0] == o && ia[n] == nz + o, "row starts span the entries");
      for( int i = 0; i < n; i++ )
      {
         for( int k = ia[i] - o; k < ia[i + 1] - o; k++ )
         {
            int j = ja[k] - o;
            chk(j >= 0 && j < n, "column of an entry is within the matrix");
            if( full ) { d[i][j] += pa[k]; }
            else { chk(j >= i, "only the upper triangle is given"); put(i, j, pa[k]); }
         }
      }
      return d;
   }
   ESymSolverStatus InitializeStructure(Index d, Index nonz, const Index* a, const Index* b)
   {
      chk(!structure, "the structure is given once");
      n = d; nz = nonz;
      chk(nz >= 0 && n == (Index) scaled.size(), "dimension of the structure");
      ia.assign(a, a + (fmt == Triplet_Format ? nz : n + 1));
      ja.assign(b, b + nz);
      pa.assign(nz + 2, std::nan(""));
      pa[nz] = pa[nz + 1] = -7777.;
      have = filled = false;
      if( structstat == SYMSOLVER_SUCCESS ) { structure = true; }
      return structstat;
   }
   Number* GetValuesArrayPtr() { chk(structure, "the structure is known before the values"); filled = true; gets++; return pa.data(); }
   void checkpos(const Index* a, const Index* b)
   {
      chk(structure, "the solver knows the structure");
      chk(std::equal(ia.begin(), ia.end(), a) && std::equal(ja.begin(), ja.end(), b), "the positions are those given to InitializeStructure");
      chk(pa[nz] == -7777. && pa[nz + 1] == -7777., "nothing is written beyond the values");
   }
   void checkvalues(const char* what)
   {
      MD d = matrix();
      for( int i = 0; i < n; i++ ) { eqv(std::string(what) + ", row " + S(i), d[i], scaled[i]); }
   }
   ESymSolverStatus MultiSolve(bool nm, const Index* a, const Index* b, Index nrhs, Number* r, bool c, Index ne)
   {
      if( prep ) { prep(); }
      checkpos(a, b);
      chk(c == chkneg && (!c || ne == neg), "the expected inertia is passed on");
      chk(nm || !mustnew, "a changed matrix is announced");
      chk(nm || have, "the first matrix is announced");
      if( nm || again ) { chk(filled, "the values are filled in before they are needed"); checkvalues("the solver has the values of the current matrix, scaled"); }
      chk(nrhs == (Index) rhs.size(), "number of right-hand sides");
      for( Index k = 0; k < nrhs; k++ ) { eqv("right-hand side " + S(k) + ", scaled", VD(r + k * n, r + (k + 1) * n), rhs[k]); }
      ESymSolverStatus s = calls < (int) plan.size() ? plan[calls] : SYMSOLVER_SUCCESS;
      calls++;
      if( nm ) { have = true; }
      filled = again = false;
      std::fill(pa.begin(), pa.begin() + nz, std::nan(""));
      if( s == SYMSOLVER_CALL_AGAIN ) { again = true; }
      else if( s == SYMSOLVER_SUCCESS )
      {
         x.assign(nrhs, VD());
         for( Index k = 0; k < nrhs; k++ )
         {
            if( !dsolve(scaled, rhs[k], x[k]) ) { x[k].assign(n, 0.); for( auto& v : x[k] ) { v = rval(); } }
            std::copy(x[k].begin(), x[k].end(), r + k * n);
         }
      }
      else { have = false; for( Index k = 0; k < nrhs * n; k++ ) { r[k] = std::nan(""); } }
      last = s;
      return s;
   }
   Index NumberOfNegEVals() const { return negans; }
   bool IncreaseQuality() { asked++; return quality; }
   bool ProvidesInertia() const { return inertia; }
   EMatrixFormat MatrixFormat() const { return fmt; }
   bool ProvidesDegeneracyDetection() const { return degen; }
   ESymSolverStatus DetermineDependentRows(const Index* a, const Index* b, std::list<Index>& d)
   {
      if( prep ) { prep(); }
      depcalls++;
      checkpos(a, b);
      checkvalues("the solver has the values of the matrix");
      d = deps;
      return last = plan.empty() ? SYMSOLVER_SUCCESS : plan[0];
   }
};

struct Env
{
   Fix F;
   SmartPtr<OptionsList> opts;
   Env(SmartPtr<PNLP> p) : F(p) { F.start(); opts = new OptionsList(*F.app->Options()); }
};
static std::vector<Env*> envs;

static bool isfinite2(const MD& d)
{
   for( auto& r : d ) { for( double v : r ) { if( !std::isfinite(v) ) { return false; } } }
   return true;
}

static void solves(Env& E)
{
   FakeSolver* fs = new FakeSolver();
   SmartPtr<SparseSymLinearSolverInterface> keep = fs;
   fs->fmt = (SparseSymLinearSolverInterface::EMatrixFormat) ri(0, 4);
   bool scaling = ri(0, 2) > 0, ondemand = ri(0, 1), slack = false;
   SmartPtr<FakeScaling> sc;
   if( scaling ) { sc = new FakeScaling(); }
   // a matrix whose values change while its structure does not: f1 A + f2 I
   int depth = ri(0, 2);
   VS R;
   slack = scaling && ri(0, 3) == 0;
   if( slack )
   {
      SmartPtr<CompoundVectorSpace> cs = new CompoundVectorSpace(4, 0);
      int dims[4] = {E.F.data->curr()->x()->Dim(), E.F.data->curr()->s()->Dim(), E.F.data->curr()->y_c()->Dim(), E.F.data->curr()->y_d()->Dim()}, tot = 0;
      for( int k = 0; k < 4; k++ ) { tot += dims[k]; }
      cs = new CompoundVectorSpace(4, tot);
      for( int k = 0; k < 4; k++ ) { cs->SetCompSpace(k, *new DenseVectorSpace(dims[k])); }
      R = GetRawPtr(cs);
      depth = 2;
   }
   else { R = mkspace(depth, 3); }
   int n = R->Dim();
   RM A = mkmat(R, R, depth, true, true);
   if( !A.trip || !isfinite2(A.d) || n == 0 ) { return; }
   SmartPtr<SumSymMatrixSpace> ss = new SumSymMatrixSpace(n, 2);
   SmartPtr<IdentityMatrixSpace> is = new IdentityMatrixSpace(n);
   ss->SetTermSpace(0, *dynamic_cast<const SymMatrixSpace*>(GetRawPtr(A.sp)));
   ss->SetTermSpace(1, *is);
   SmartPtr<SumSymMatrix> M = ss->MakeNewSumSymMatrix();
   SmartPtr<SymMatrix> I = is->MakeNewSymMatrix();
   SmartPtr<SumSymMatrix> M2 = ss->MakeNewSumSymMatrix();
   MD cur(n, VD(n, 0.)), cur2 = cur;
   auto change = [&](SumSymMatrix& X, MD& d)
   {
      double f1 = 0.5 * ri(1, 6) * (ri(0, 1) ? 1 : -1), f2 = 0.25 * ri(-60, 60);
      X.SetTerm(0, f1, *dynamic_cast<const SymMatrix*>(GetRawPtr(A.A)));
      X.SetTerm(1, f2, *I);
      for( int i = 0; i < n; i++ ) { for( int j = 0; j < n; j++ ) { d[i][j] = f1 * A.d[i][j] + (i == j ? f2 : 0.); } }
   };
   change(*M, cur);
   change(*M2, cur2);
   SmartPtr<TSymLinearSolver> ts = new TSymLinearSolver(fs, scaling ? SmartPtr<TSymScalingMethod>(GetRawPtr(sc)) : SmartPtr<TSymScalingMethod>());
   bool loud = ri(0, 3) == 0;
   SmartPtr<Journalist> jn = new Journalist();
   if( loud ) { SmartPtr<Journal> j = new StreamJournal("s", J_ALL); static std::ostringstream os; os.str(""); dynamic_cast<StreamJournal*>(GetRawPtr(j))->SetOutputStream(&os); j->SetPrintLevel(J_DBG, J_NONE); jn->AddJournal(j); }
   std::string hist = "format " + S(fs->fmt) + (scaling ? ondemand ? " scaling on demand" : " scaling" : "") + (slack ? " (slack based)" : "") + " matrix " + A.s + " over " + shape(*R);
   E.opts->SetStringValue("linear_scaling_on_demand", ondemand ? "yes" : "no", true, true);
   E.opts->SetStringValue("warm_start_same_structure", "no", true, true);
   // a solver without problem data is only used without scaling and with triplets
   bool reduced = fs->fmt == SparseSymLinearSolverInterface::Triplet_Format && !scaling && ri(0, 1);
   auto init = [&]()
   {
      bool ok = reduced ? ts->ReducedInitialize(*jn, *E.opts, "") : ts->Initialize(*jn, *E.F.nlp, *E.F.data, *E.F.cq, *E.opts, "");
      chk(ok, "initialization succeeds");
      chk(!scaling || sc->inits > 0, "the scaling method is initialized");
      if( slack ) { sc->inner = new SlackBasedTSymScalingMethod(); sc->inner->Initialize(*jn, *E.F.nlp, *E.F.data, *E.F.cq, *E.opts, ""); }
   };
   setcase("solve", hist);
   init();
   bool use = scaling && !ondemand, just = false, seen = false;
   const SumSymMatrix* lastm = NULL;
   bool valid = false;           // solver has the factorization of the current values
   VD factors(n, 1.);
   for( int step = 0, N = ri(1, 9); step < N; step++ )
   {
      int a = ri(0, 9);
      if( a == 0 )
      {
         hist += "; better quality";
         setcase("solve", hist);
         int asked = fs->asked;
         fs->quality = ri(0, 1);
         std::string info = reduced ? "" : E.F.data->info_string();
         bool r = ts->IncreaseQuality();
         if( scaling && ondemand && !use ) { chk(r && fs->asked == asked, "scaling on demand is the better quality"); use = just = true; }
         else { chk(r == fs->quality && fs->asked == asked + 1, "the solver is asked for better quality"); }
         continue;
      }
      if( a == 1 && seen && fs->structure )
      {
         bool warm = ri(0, 2) > 0;
         hist += warm ? "; initialized again with the same structure" : "; initialized again";
         setcase("solve", hist);
         E.opts->SetStringValue("warm_start_same_structure", warm ? "yes" : "no", true, true);
         init();
         use = scaling && !ondemand; just = false; valid = warm ? valid : false;
         if( !warm ) { lastm = NULL; seen = false; }
         E.opts->SetStringValue("warm_start_same_structure", "no", true, true);
         if( warm ) { valid = false; change(*M, cur); change(*M2, cur2); }
         continue;
      }
      SumSymMatrix& X = ri(0, 4) ? *M : *M2;
      MD& d = &X == GetRawPtr(M) ? cur : cur2;
      bool changed = false;
      if( ri(0, 1) ) { change(X, d); changed = true; }
      if( lastm != &X ) { changed = true; }
      int nr = ri(1, 3);
      std::vector<SmartPtr<const Vector> > rv_;
      std::vector<SmartPtr<Vector> > sv_;
      std::vector<VD> rref(nr);
      for( int k = 0; k < nr; k++ )
      {
         SmartPtr<Vector> v = mkvec(*R, rref[k]);
         rv_.push_back(GetRawPtr(v));
         SmartPtr<Vector> s = R->MakeNew();
         s->Set(4711.);
         sv_.push_back(s);
      }
      fs->plan.clear();
      fs->calls = 0;
      while( ri(0, 2) == 0 ) { fs->plan.push_back(SYMSOLVER_CALL_AGAIN); }
      ESymSolverStatus stats[] = {SYMSOLVER_SUCCESS, SYMSOLVER_SUCCESS, SYMSOLVER_SUCCESS, SYMSOLVER_SINGULAR, SYMSOLVER_WRONG_INERTIA, SYMSOLVER_FATAL_ERROR};
      fs->plan.push_back(stats[ri(0, 5)]);
      fs->structstat = !seen && ri(0, 7) == 0 ? SYMSOLVER_FATAL_ERROR : SYMSOLVER_SUCCESS;
      fs->chkneg = ri(0, 1);
      fs->neg = ri(0, n);
      if( scaling ) { sc->expect = d; sc->fail_ = ri(0, 19) == 0; }
      int sccalls = scaling ? sc->calls : 0;
      std::string pl;
      for( auto s : fs->plan ) { pl += S((int) s) + " "; }
      hist += "; solve with " + std::string(&X == GetRawPtr(M) ? "M" : "M2") + "=" + S(d) + (changed ? "" : " (unchanged)") + " statuses " + pl + " " + S(nr) + " right-hand sides" + (scaling && sc->fail_ ? " (scaling fails)" : "") + (fs->structstat ? " (structure fails)" : "");
      setcase("solve", hist);
      bool neednew = changed || just;
      fs->mustnew = neednew;
      fs->scaled = d;      // dimension is needed by InitializeStructure
      fs->prep = [&]()
      {
         if( scaling && use && sc->calls > sccalls ) { factors = sc->s; }
         chk(!(scaling && use && neednew) || sc->calls > sccalls, "the scaling factors belong to the current matrix");
         VD f = use ? factors : VD(n, 1.);
         fs->scaled = d;
         for( int i = 0; i < n; i++ ) { for( int j = 0; j < n; j++ ) { fs->scaled[i][j] = d[i][j] * f[i] * f[j]; } }
         fs->rhs = rref;
         for( auto& r : fs->rhs ) { for( int i = 0; i < n; i++ ) { r[i] *= f[i]; } }
      };
      ESymSolverStatus got;
      try { got = ts->MultiSolve(X, rv_, sv_, fs->chkneg, fs->neg); }
      catch( IpoptException& e )
      {
         chk(scaling && use && sc->fail_ && sc->calls > sccalls, "an exception only if the scaling fails: " + e.Message());
         return;
      }
      chk(!(scaling && use && sc->fail_ && sc->calls > sccalls), "a failed scaling is reported");
      if( fs->structstat != SYMSOLVER_SUCCESS && !seen )
      {
         chk(got == fs->structstat && fs->calls == 0, "the status of the failed initialization is returned");
         for( auto& s : sv_ ) { eqv("solution stays", get(*s), VD(n, 4711.)); }
         continue;
      }
      seen = true;
      chk(fs->calls == (int) fs->plan.size(), "the solver is called until it does not ask to be called again");
      chk(got == fs->plan.back(), "the status is that of the solver: " + S((int) got));
      VD f = use ? factors : VD(n, 1.);
      for( int k = 0; k < nr; k++ )
      {
         if( got != SYMSOLVER_SUCCESS ) { eqv("solution stays without success", get(*sv_[k]), VD(n, 4711.)); continue; }
         VD x = fs->x[k];
         for( int i = 0; i < n; i++ ) { x[i] *= f[i]; }
         eqv("solution " + S(k) + " is that of the solver, unscaled", get(*sv_[k]), x);
         eqv("right-hand side " + S(k) + " stays", get(*rv_[k]), rref[k]);
      }
      just = false;
      lastm = &X;
      if( got != SYMSOLVER_SUCCESS && got != SYMSOLVER_CALL_AGAIN ) { change(*M, cur); change(*M2, cur2); lastm = NULL; }   // what a caller does
   }
   fs->negans = ri(0, 9); fs->inertia = ri(0, 1); fs->degen = ri(0, 1);
   chk(ts->NumberOfNegEVals() == fs->negans && ts->ProvidesInertia() == fs->inertia && ts->ProvidesDegeneracyDetection() == fs->degen, "answers of the solver are passed on");
   fs->prep = NULL;
}

static void depends(Env& E)
{
   FakeSolver* fs = new FakeSolver();
   SmartPtr<SparseSymLinearSolverInterface> keep = fs;
   fs->fmt = (SparseSymLinearSolverInterface::EMatrixFormat) ri(0, 4);
   SmartPtr<FakeScaling> sc;
   bool scaling = ri(0, 1), det = !scaling && ri(0, 1);
   if( scaling ) { sc = new FakeScaling(); }
   SmartPtr<TSymLinearSolver> ts = new TSymLinearSolver(fs, scaling ? SmartPtr<TSymScalingMethod>(GetRawPtr(sc)) : SmartPtr<TSymScalingMethod>());
   SmartPtr<Journalist> jn = new Journalist();
   E.opts->SetStringValue("linear_scaling_on_demand", ri(0, 1) ? "yes" : "no", true, true);
   E.opts->SetStringValue("warm_start_same_structure", "no", true, true);
   std::string od;
   E.opts->GetStringValue("linear_scaling_on_demand", od, "");
   bool use = scaling && od == "no";
   int nr = ri(0, 4), nc = ri(0, 5), nz = nr && nc ? ri(0, 8) : 0, n = nr + nc;
   if( n == 0 ) { return; }
   std::vector<Index> ir(nz + 1), jc(nz + 1);
   VD v(nz + 1);
   MD d(n, VD(n, 0.));
   for( int i = 0; i < nc; i++ ) { d[i][i] = 1.; }
   std::string s;
   for( int k = 0; k < nz; k++ )
   {
      ir[k] = ri(1, nr); jc[k] = ri(1, nc); v[k] = rval();
      s += " (" + S(ir[k]) + "," + S(jc[k]) + ")=" + S(v[k]);
      d[nc + ir[k] - 1][jc[k] - 1] += v[k]; d[jc[k] - 1][nc + ir[k] - 1] += v[k];
   }
   setcase("dependent rows", S(nr) + " x " + S(nc) + s + " format " + S(fs->fmt) + (use ? " scaled" : ""));
   std::list<Index> want;
   for( int i = 0; i < nr; i++ ) { if( ri(0, 1) ) { fs->deps.push_back(nc + i); want.push_back(i); } }
   fs->plan.push_back(ri(0, 3) ? SYMSOLVER_SUCCESS : SYMSOLVER_FATAL_ERROR);
   fs->structstat = ri(0, 7) ? SYMSOLVER_SUCCESS : SYMSOLVER_FATAL_ERROR;
   fs->scaled = d;
   fs->prep = [&]()
   {
      fs->scaled = d;
      if( use ) { for( int i = 0; i < n; i++ ) { for( int j = 0; j < n; j++ ) { fs->scaled[i][j] = d[i][j] * sc->s[i] * sc->s[j]; } } }
   };
   if( scaling ) { sc->expect = d; }
   std::list<Index> got;
   if( det )
   {
      fs->degen = true;
      SmartPtr<TSymDependencyDetector> td = new TSymDependencyDetector(*ts);
      chk(td->ReducedInitialize(*jn, *E.opts, ""), "the detector is initialized");
      bool ok = td->DetermineDependentRows(nr, nc, nz, v.data(), ir.data(), jc.data(), got);
      bool expect = fs->structstat == SYMSOLVER_SUCCESS && fs->plan[0] == SYMSOLVER_SUCCESS;
      chk(ok == expect, "the detector succeeds exactly if the solver does");
      if( ok ) { chk(got == want, "the dependent rows are those of the solver, counted from the first row"); }
      return;
   }
   chk(ts->Initialize(*jn, *E.F.nlp, *E.F.data, *E.F.cq, *E.opts, ""), "initialization succeeds");
   ESymSolverStatus r = ts->DetermineDependentRows(nr, nc, nz, v.data(), ir.data(), jc.data(), got);
   if( fs->structstat != SYMSOLVER_SUCCESS ) { chk(r == fs->structstat && fs->depcalls == 0 && got.empty(), "the failed initialization is returned"); return; }
   chk(r == fs->plan[0] && fs->depcalls == 1, "the status is that of the solver");
   if( r == SYMSOLVER_SUCCESS ) { chk(got == want, "the dependent rows are those of the solver, counted from the first row"); }
}

int main()
{
   h_init();
   for( int i = 0; i < 6; i++ ) { setcase("setup", S(i)); int n = ri(2, 4); envs.push_back(new Env(randproblem(n, ri(1, 3)))); }
   int N = THOROUGH ? 100000 : 15000;
   for( int it = 0; it < N; it++ )
   {
      Env& E = *envs[ri(0, (int) envs.size() - 1)];
      if( it % 4 == 3 ) { depends(E); }
      else { solves(E); }
   }
   return h_done();
}
