// run-time contracts of the primal-dual system: a linear solver of varying quality behind the real classes, the full system evaluated densely
#include "cq.hpp"
#include "IpPDFullSpaceSolver.hpp"
#include "IpStdAugSystemSolver.hpp"
#include "IpPDPerturbationHandler.hpp"
#include "IpPDSearchDirCalc.hpp"

// solves A x = b densely; false if (nearly) singular
static bool dsolve(MD A, VD b, VD& x)
{
   int n = b.size();
   double big = 0.;
   for( auto& r : A ) { for( double v : r ) { big = std::max(big, std::fabs(v)); } }
   std::vector<int> pc(n);
   for( int i = 0; i < n; i++ ) { pc[i] = i; }
   for( int k = 0; k < n; k++ )
   {
      int pi = k, pj = k;
      for( int i = k; i < n; i++ ) { for( int j = k; j < n; j++ ) { if( std::fabs(A[i][j]) > std::fabs(A[pi][pj]) ) { pi = i; pj = j; } } }
      if( !(std::fabs(A[pi][pj]) > 1e-9 * big) ) { return false; }
      std::swap(A[k], A[pi]); std::swap(b[k], b[pi]);
      for( int i = 0; i < n; i++ ) { std::swap(A[i][k], A[i][pj]); }
      std::swap(pc[k], pc[pj]);
      for( int i = k + 1; i < n; i++ )
      {
         double f = A[i][k] / A[k][k];
         for( int j = k; j < n; j++ ) { A[i][j] -= f * A[k][j]; }
         b[i] -= f * b[k];
      }
   }
   x.assign(n, 0.);
   for( int k = n - 1; k >= 0; k-- )
   {
      double s = b[k];
      for( int j = k + 1; j < n; j++ ) { s -= A[k][j] * x[pc[j]]; }
      x[pc[k]] = s / A[k][k];
   }
   return true;
}
static void near(const MD& a, const MD& b, const std::string& what)
{
   chk(a.size() == b.size(), what + ": dimension");
   double big = 1.;
   for( auto& r : b ) { for( double v : r ) { big = std::max(big, std::fabs(v)); } }
   for( size_t i = 0; i < a.size(); i++ ) { for( size_t j = 0; j < a.size(); j++ ) { chk(std::fabs(a[i][j] - b[i][j]) <= 1e-11 * std::max(1., std::fabs(b[i][j])) + 1e-15 * big, what + ": entry (" + S((double) i) + "," + S((double) j) + ") is " + S(a[i][j]) + ", not " + S(b[i][j])); } }
}

struct Act { ESymSolverStatus st; double err; int neg; double off; };      // neg: deviation of the reported number of negative eigenvalues
class Lin: public SymLinearSolver
{
public:
   std::function<MD()> expect;            // the augmented matrix that is to be solved with
   std::function<Act()> next;
   std::vector<std::vector<VD>> rhs, sol; // of all calls
   std::vector<bool> chks;
   std::vector<ESymSolverStatus> stats;
   std::vector<int> negs;
   int ncons = 0, neg = 0, qual = 0;
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus MultiSolve(const SymMatrix& A, std::vector<SmartPtr<const Vector> >& r, std::vector<SmartPtr<Vector> >& s, bool check, Index want)
   {
      MD K = mden(A, *r[0], *r[0]);
      if( expect ) { near(K, expect(), "augmented matrix"); }
      chk(r.size() == s.size() && !r.empty(), "right-hand sides and solutions");
      if( check ) { chk(want == ncons, "expected number of negative eigenvalues"); }
      Act a = next();
      if( a.st == SYMSOLVER_WRONG_INERTIA && !check ) { a.st = SYMSOLVER_SUCCESS; }
      neg = ncons + a.neg;
      if( check && a.st == SYMSOLVER_SUCCESS ) { neg = ncons; }
      if( a.st == SYMSOLVER_WRONG_INERTIA && neg == ncons ) { neg++; }
      std::vector<VD> rr, ss;
      for( size_t i = 0; i < r.size(); i++ )
      {
         VD b = dv(*r[i]), x;
         if( a.st == SYMSOLVER_SUCCESS && !dsolve(K, b, x) ) { a.st = SYMSOLVER_SINGULAR; }
         x.resize(b.size(), 0.);
         if( a.st != SYMSOLVER_SUCCESS ) { for( double& e : x ) { e = 1e30; } }
         else { for( double& e : x ) { e = e * (1. + a.err * (rd01() - 0.5)) + a.off * (rd01() - 0.5); } }
         put_all(*s[i], x);
         rr.push_back(b); ss.push_back(x);
      }
      rhs.push_back(rr); sol.push_back(ss); chks.push_back(check); stats.push_back(a.st); negs.push_back(neg);
      return a.st;
   }
   Index NumberOfNegEVals() const { return neg; }
   bool IncreaseQuality() { return qual-- > 0; }
   bool ProvidesInertia() const { return true; }
   void clear() { rhs.clear(); sol.clear(); chks.clear(); stats.clear(); negs.clear(); }
};

struct Env
{
   Fix F;
   MD W, Jc, Jd;
   Env(SmartPtr<PNLP> p, bool) : F(p) { }
};
struct Pt
{
   MD W, Jc, Jd;
   VD sx, ss;
   CQO c;
   Pt(Fix& F) : c(*F.cq, false)
   {
      W = mden(*F.data->W(), *F.data->curr()->x(), *F.data->curr()->x());
      Jc = c.Jc; Jd = c.Jd;
      VD q[4];
      for( int k = 0; k < 4; k++ ) { q[k] = c.mult(k); for( size_t i = 0; i < q[k].size(); i++ ) { q[k][i] /= c.slk[k][i]; } }
      sx = vadd(c.M(0, q[0]), c.M(1, q[1]));
      ss = vadd(c.M(2, q[2]), c.M(3, q[3]));
   }
};
static MD augm(const MD& W, double wf, const VD& Dx, double dx, const VD& Ds, double ds, const MD& Jc, const VD& Dc, double dc, const MD& Jd, const VD& Dd, double dd)
{
   int n = W.size(), s = Ds.size(), c = Dc.size(), N = n + 2 * s + c;
   MD K(N, VD(N, 0.));
   for( int i = 0; i < n; i++ ) { for( int j = 0; j < n; j++ ) { K[i][j] = wf * W[i][j]; } K[i][i] += Dx[i] + dx; }
   for( int i = 0; i < s; i++ )
   {
      K[n + i][n + i] = Ds[i] + ds;
      K[n + i][n + s + c + i] = K[n + s + c + i][n + i] = -1.;
      K[n + s + c + i][n + s + c + i] = Dd[i] - dd;
      for( int j = 0; j < n; j++ ) { K[n + s + c + i][j] = K[j][n + s + c + i] = Jd[i][j]; }
   }
   for( int i = 0; i < c; i++ )
   {
      K[n + s + i][n + s + i] = Dc[i] - dc;
      for( int j = 0; j < n; j++ ) { K[n + s + i][j] = K[j][n + s + i] = Jc[i][j]; }
   }
   return K;
}
static std::vector<VD> comps(const IteratesVector& v) { return {dv(*v.x()), dv(*v.s()), dv(*v.y_c()), dv(*v.y_d()), dv(*v.z_L()), dv(*v.z_U()), dv(*v.v_L()), dv(*v.v_U())}; }
static const char* NAME[8] = {"x", "s", "y_c", "y_d", "z_L", "z_U", "v_L", "v_U"};
// left-hand sides of the full system
static std::vector<VD> full(const Pt& P, const std::vector<VD>& v, const double* d)
{
   size_t n = v[0].size(), s = v[1].size();
   std::vector<VD> r(8);
   auto z0 = [](VD a, size_t k) { a.resize(k, 0.); return a; };
   r[0] = vadd(vadd(vadd(vadd(vadd(z0(mul(P.W, v[0]), n), z0(mulT(P.Jc, v[2], n), n)), z0(mulT(P.Jd, v[3], n), n)), P.c.M(0, v[4]), -1.), P.c.M(1, v[5])), v[0], d[0]);
   r[1] = vadd(vadd(vadd(vadd(VD(s, 0.), v[3], -1.), P.c.M(2, v[6]), -1.), P.c.M(3, v[7])), v[1], d[1]);
   r[2] = vadd(z0(mul(P.Jc, v[0]), v[2].size()), v[2], -d[2]);
   r[3] = vadd(vadd(z0(mul(P.Jd, v[0]), s), v[1], -1.), v[3], -d[3]);
   for( int k = 0; k < 4; k++ ) { r[4 + k] = vadd(vmul(P.c.slk[k], v[4 + k]), vmul(P.c.mult(k), P.c.T(k, v[k < 2 ? 0 : 1])), k % 2 ? -1. : 1.); }
   return r;
}
static double amx(const std::vector<VD>& v) { double r = 0.; for( auto& a : v ) { r = std::max(r, amax(a)); } return r; }

static std::vector<Env*> envs;
static void newpoint(Fix& F, bool must = false)
{
   if( must || ri(0, 3) ) { moveiterate(F, 0.5 + rd01()); }
   F.data->Set_W(F.cq->curr_exact_hessian());
}

static void pdsolves(Env& E)
{
   Fix& F = E.F;
   newpoint(F);
   SmartPtr<Lin> lin = new Lin;
   SmartPtr<StdAugSystemSolver> aug = new StdAugSystemSolver(*lin);
   SmartPtr<PDPerturbationHandler> ph = new PDPerturbationHandler;
   SmartPtr<PDFullSpaceSolver> pd = new PDFullSpaceSolver(*aug, *ph);
   SmartPtr<OptionsList> o = new OptionsList(*F.app->Options());
   double rmax = std::pow(10., -ri(1, 10)), rsing = std::pow(10., -ri(0, 5));
   rsing = std::max(rsing, rmax);
   int minref = ri(0, 3), maxref = minref + ri(0, 5);
   double tol = ri(0, 2) ? 0. : ri(0, 1) ? std::pow(10., ri(-1, 3)) * (0.1 + rd01()) : std::pow(10., -ri(0, 12));
   bool reg = ri(0, 1);
   o->SetNumericValue("residual_ratio_max", rmax); o->SetNumericValue("residual_ratio_singular", rsing);
   o->SetIntegerValue("min_refinement_steps", minref); o->SetIntegerValue("max_refinement_steps", maxref);
   o->SetNumericValue("neg_curv_test_tol", tol);
   o->SetStringValue("neg_curv_test_reg", reg ? "yes" : "no");
   if( ri(0, 2) == 0 ) { o->SetStringValue("perturb_always_cd", "yes"); }
   chk(pd->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *o, ""), "initialization");
   int steps = ri(1, 4);
   Pt* P = new Pt(F);
   double dl[4];
   lin->ncons = P->Jc.size() + P->ss.size();
   lin->expect = [&]()
   {
      ph->CurrentPerturbation(dl[0], dl[1], dl[2], dl[3]);
      return augm(P->W, 1., P->sx, dl[0], P->ss, dl[1], P->Jc, VD(P->Jc.size(), 0.), dl[2], P->Jd, VD(P->ss.size(), 0.), dl[3]);
   };
   int quality = ri(0, 3), always = ri(0, 1) ? 0 : ri(0, 1) ? 1 : -1;      // always: inertia is always reported wrong where it is not checked
   lin->next = [&]()
   {
      Act a{SYMSOLVER_SUCCESS, 0., 0, 0.};
      int k = ri(0, 19);
      if( quality && k == 0 ) { a.st = SYMSOLVER_SINGULAR; }
      if( quality && k <= 2 && k > 0 ) { a.st = SYMSOLVER_WRONG_INERTIA; a.neg = ri(-1, 1); }
      if( quality > 2 && k == 3 ) { a.st = SYMSOLVER_FATAL_ERROR; }
      if( k > 3 && k < 9 ) { a.neg = ri(-1, 1); }
      if( always && a.st == SYMSOLVER_SUCCESS ) { a.neg = always; }
      a.err = quality == 0 ? 0. : quality == 1 ? std::pow(10., -ri(1, 14)) : std::pow(10., -ri(-1, 14));
      if( quality > 1 && ri(0, 4) == 0 ) { a.off = std::pow(10., -ri(-2, 8)); }
      return a;
   };
   for( int q = 0; q < steps; q++ )
   {
      bool newp = q == 0;
      if( q > 0 && ri(0, 1) ) { newpoint(F, true); delete P; P = new Pt(F); newp = true; }
      lin->clear();
      lin->qual = ri(0, 1);
      double al = ri(0, 1) ? 1. : ri(0, 1) ? -1. : (0.25 + rd01()) * (ri(0, 1) ? 1. : -1.), be = ri(0, 1) ? 0. : ri(0, 1) ? 1. : rval();
      bool inex = ri(0, tol > 0. ? 1 : 3) == 0;
      SmartPtr<IteratesVector> rhs = F.data->curr()->MakeNewIteratesVector(true), res = F.data->curr()->MakeNewIteratesVector(true);
      auto fill = [&](IteratesVector& v, double sz)
      {
         SmartPtr<Vector> w[8] = {v.x_NonConst(), v.s_NonConst(), v.y_c_NonConst(), v.y_d_NonConst(), v.z_L_NonConst(), v.z_U_NonConst(), v.v_L_NonConst(), v.v_U_NonConst()};
         for( int k = 0; k < 8; k++ ) { VD r(w[k]->Dim()); for( double& e : r ) { e = (rd01() - 0.5) * sz; } put_all(*w[k], r); }
      };
      fill(*rhs, 8.);
      if( be != 0. || ri(0, 1) ) { fill(*res, 4.); }
      else { res->Set(0.); }
      std::vector<VD> b = comps(*rhs), old = comps(*res);
      setcase("solve", "residual_ratio_max " + S(rmax) + " singular " + S(rsing) + " refinement " + S(minref) + ".." + S(maxref) + " alpha " + S(al) + " beta " + S(be) + (inex ? " inexact" : "") + " call " + S(q) + " curvature test " + S(tol) + (newp ? " new point" : " same point") + " quality " + S(quality));
      F.data->Set_info_skip_output(false);
      F.data->info_string_ = "";
      bool ok = false, thrown = false;
      try { ok = pd->Solve(al, be, *rhs, *res, inex, false); }
      catch( IpoptException& ) { thrown = true; }
      ph->CurrentPerturbation(dl[0], dl[1], dl[2], dl[3]);
      std::string info = F.data->info_string();
      std::vector<VD> b2 = comps(*rhs), now = comps(*res);
      chk(b == b2, "the right-hand side is not changed");
      if( !ok )
      {
         chk(!lin->stats.empty(), "failure without a solve");
         if( info.find('s') == std::string::npos && lin->sol.size() == 1 && be == 0. && !thrown ) { chk(now == old, "failure leaves the vector unchanged"); }
         if( !thrown )
         {
            bool bad = false;
            for( ESymSolverStatus t : lin->stats ) { bad = bad || t != SYMSOLVER_SUCCESS; }
            chk(bad || tol > 0. || info.find('s') != std::string::npos, "failure is reported though every solve was a success");
         }
         else { chk(lin->stats.back() != SYMSOLVER_SUCCESS && lin->stats.size() > 1, "thrown though the last solve was a success"); }
         break;
      }
      chk(lin->stats.back() == SYMSOLVER_SUCCESS, "a result was given though the last solve failed");
      // inertia is verified for a new matrix
      if( newp )
      {
         size_t first = 0;
         while( lin->stats[first] != SYMSOLVER_SUCCESS ) { first++; }
         if( tol <= 0. ) { chk(lin->chks[first], "the inertia of a new matrix is checked"); }
         for( int k = 0; k < 4; k++ )
         {
            double w[4];
            F.data->getPDPert(w[0], w[1], w[2], w[3]);
            chk(w[k] == dl[k], "recorded perturbation");
         }
      }
      std::vector<VD> sol(8);
      for( int k = 0; k < 8; k++ ) { sol[k] = vadd(now[k], old[k], -be); for( double& e : sol[k] ) { e /= al; } }
      std::vector<VD> L = full(*P, sol, dl), R(8);
      for( int k = 0; k < 8; k++ ) { R[k] = vadd(L[k], b[k], -1.); }
      double nr = amx(b), ns = amx(sol), nd = amx(R);
      double ratio = nr + ns == 0. ? nd : nd / (std::min(ns, 1e6 * nr) + nr), eps = 1e-9 * (1. + amx(old));
      bool s = info.find('s') != std::string::npos;
      if( !inex )
      {
         for( int k = 0; k < 8; k++ ) { chk(ratio <= rmax + eps || ratio < rsing + eps || s, "residual ratio " + S(ratio) + " was accepted, largest residual in one of the blocks, e.g. " + std::string(NAME[k]) + " " + S(amax(R[k]))); }
         int refs = 0;
         for( size_t i = 1; i < lin->stats.size(); i++ ) { refs++; }
         chk(refs >= minref, "refinement steps");
      }
      if( quality == 0 && !s ) { for( int k = 0; k < 8; k++ ) { chk(amax(R[k]) <= 1e-7 * (1. + ns + nr + amx(old)), "residual in block " + std::string(NAME[k]) + " of an exact solve: " + S(amax(R[k]))); } }
      if( inex )
      {
         // solution of the last solve, with the bound multipliers eliminated exactly
         VD x = lin->sol.back()[0];
         VD cmp;
         for( int k = 0; k < 4; k++ ) { cmp.insert(cmp.end(), sol[k].begin(), sol[k].end()); }
         for( size_t i = 0; i < x.size(); i++ ) { chk(std::fabs(cmp[i] - x[i]) <= 1e-9 * (1. + amax(x) + amx(old)), "the solution is that of the linear solver"); }
         for( int k = 4; k < 8; k++ ) { for( double e : R[k] ) { chk(std::fabs(e) <= 1e-8 * (1. + ns + nr + amx(old)), "complementarity block " + std::string(NAME[k])); } }
         // right-hand side: that of the reduced system
         VD br = lin->rhs.back()[0], want;
         VD t[4];
         for( int k = 0; k < 4; k++ ) { t[k] = b[4 + k]; for( size_t i = 0; i < t[k].size(); i++ ) { t[k][i] /= P->c.slk[k][i]; } }
         VD wx = vadd(vadd(b[0], P->c.M(0, t[0])), P->c.M(1, t[1]), -1.), wsv = vadd(vadd(b[1], P->c.M(2, t[2])), P->c.M(3, t[3]), -1.);
         want = wx; want.insert(want.end(), wsv.begin(), wsv.end()); want.insert(want.end(), b[2].begin(), b[2].end()); want.insert(want.end(), b[3].begin(), b[3].end());
         for( size_t i = 0; i < want.size(); i++ ) { chk(std::fabs(br[i] - want[i]) <= 1e-9 * (1. + amax(want)), "right-hand side of the reduced system"); }
         if( newp && tol > 0. && lin->negs.back() != lin->ncons )
         {
            VD u = sol[0], w = sol[1];
            double c2 = vdot(u, mul(P->W, u)) + vdot(u, vmul(P->sx, u)) + vdot(w, vmul(P->ss, w)), n2 = vdot(u, u) + vdot(w, w);
            if( reg ) { c2 += dl[0] * vdot(u, u) + dl[1] * vdot(w, w); }
            chk(c2 >= tol * n2 - 1e-8 * (1. + std::fabs(c2) + amx(old) * amx(old)), "a direction of wrong inertia needs sufficient curvature: " + S(c2) + " for squared norm " + S(n2));
         }
      }
   }
   delete P;
}

// the augmented system solver alone: any combination of arguments and changes
static void augsolves(Env& E)
{
   Fix& F = E.F;
   newpoint(F);
   SmartPtr<Lin> lin = new Lin;
   SmartPtr<StdAugSystemSolver> aug = new StdAugSystemSolver(*lin);
   chk(aug->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *F.app->Options(), ""), "initialization");
   SmartPtr<const IteratesVector> itp = F.data->curr();
   const IteratesVector& it = *itp;
   const Vector* proto[4] = {GetRawPtr(it.x()), GetRawPtr(it.s()), GetRawPtr(it.y_c()), GetRawPtr(it.y_d())};
   SmartPtr<const SymMatrix> W = F.cq->curr_exact_hessian();
   SmartPtr<const Matrix> Jc = F.cq->curr_jac_c(), Jd = F.cq->curr_jac_d();
   SmartPtr<Vector> D[4];
   VD Dv[4];
   double del[4] = {0., 0., 0., 0.}, wf = 1.;
   bool nul[4], nW = false;
   auto newd = [&](int k) { if( IsNull(D[k]) || ri(0, 1) ) { D[k] = proto[k]->MakeNew(); } Dv[k].assign(proto[k]->Dim(), 0.); for( double& e : Dv[k] ) { e = k < 2 ? 0.5 + rd01() : -rd01(); } put_all(*D[k], Dv[k]); };
   for( int k = 0; k < 4; k++ ) { newd(k); nul[k] = ri(0, 1); del[k] = ri(0, 1) ? 0. : rd01(); }
   int steps = ri(2, 8);
   std::string hist;
   for( int q = 0; q < steps; q++ )
   {
      if( q > 0 )
      {
         int what = ri(0, 7), k = ri(0, 3);
         hist += " " + S((double) what) + "/" + S((double) k);
         if( what == 0 ) { newd(k); }
         if( what == 1 ) { del[k] = ri(0, 1) ? 0. : rd01(); }
         if( what == 2 ) { nul[k] = !nul[k]; }
         if( what == 3 ) { nW = !nW; }
         if( what == 4 ) { wf = 1. - wf; }
         if( what == 5 ) { moveiterate(F, 0.7); W = F.cq->curr_exact_hessian(); if( ri(0, 1) ) { Jc = F.cq->curr_jac_c(); } if( ri(0, 1) ) { Jd = F.cq->curr_jac_d(); } }
      }
      int nr = ri(0, 1) ? 1 : ri(1, 3);
      setcase("augmented system", "history" + hist + " right-hand sides " + S((double) nr) + (nW ? " no W" : "") + " D given: " + S((double) !nul[0]) + S((double) !nul[1]) + S((double) !nul[2]) + S((double) !nul[3]));
      MD Wd = mden(*W, *proto[0], *proto[0]), Jcd = mden(*Jc, *proto[0], *proto[2]), Jdd = mden(*Jd, *proto[0], *proto[3]);
      VD Z[4];
      for( int k = 0; k < 4; k++ ) { Z[k] = nul[k] ? VD(proto[k]->Dim(), 0.) : Dv[k]; }
      lin->clear();
      lin->ncons = Z[2].size() + Z[3].size();
      lin->expect = [&]() { return augm(Wd, nW ? 0. : wf, Z[0], del[0], Z[1], del[1], Jcd, Z[2], del[2], Jdd, Z[3], del[3]); };
      ESymSolverStatus st = ri(0, 3) ? SYMSOLVER_SUCCESS : ri(0, 1) ? SYMSOLVER_SINGULAR : ri(0, 1) ? SYMSOLVER_FATAL_ERROR : SYMSOLVER_CALL_AGAIN;
      lin->next = [&]() { return Act{st, 0., ri(-1, 1), 0.}; };
      std::vector<SmartPtr<const Vector> > r[4];
      std::vector<SmartPtr<Vector> > s[4];
      std::vector<VD> rr(nr);
      for( int i = 0; i < nr; i++ )
      {
         for( int k = 0; k < 4; k++ )
         {
            SmartPtr<Vector> a = proto[k]->MakeNew(), b = proto[k]->MakeNew();
            VD v(a->Dim());
            for( double& e : v ) { e = rval(); }
            put_all(*a, v);
            b->Set(-7.);
            rr[i].insert(rr[i].end(), v.begin(), v.end());
            r[k].push_back(ConstPtr(a)); s[k].push_back(b);
         }
      }
      bool check = ri(0, 1);
      ESymSolverStatus got;
      auto dp = [&](int k) -> const Vector* { return nul[k] ? NULL : GetRawPtr(D[k]); };
      const SymMatrix* Wp = q > 0 && nW ? NULL : GetRawPtr(W);
      if( q == 0 ) { nW = false; }
      if( nr == 1 && ri(0, 1) ) { got = aug->Solve(Wp, wf, dp(0), del[0], dp(1), del[1], GetRawPtr(Jc), dp(2), del[2], GetRawPtr(Jd), dp(3), del[3], *r[0][0], *r[1][0], *r[2][0], *r[3][0], *s[0][0], *s[1][0], *s[2][0], *s[3][0], check, lin->ncons); }
      else { got = aug->MultiSolve(Wp, wf, dp(0), del[0], dp(1), del[1], GetRawPtr(Jc), dp(2), del[2], GetRawPtr(Jd), dp(3), del[3], r[0], r[1], r[2], r[3], s[0], s[1], s[2], s[3], check, lin->ncons); }
      chk(lin->stats.size() == 1 && got == lin->stats[0], "the status of the linear solver is returned");
      chk(lin->chks[0] == check, "whether inertia is checked is passed on");
      chk(lin->rhs[0] == rr, "right-hand sides of the linear solver");
      for( int i = 0; i < nr; i++ )
      {
         VD v;
         for( int k = 0; k < 4; k++ ) { VD w = dv(*s[k][i]); v.insert(v.end(), w.begin(), w.end()); }
         chk(v == lin->sol[0][i], "solutions of the linear solver");
      }
      chk(aug->NumberOfNegEVals() == lin->neg && aug->ProvidesInertia(), "inertia is that of the linear solver");
      lin->qual = ri(0, 1);
      bool hq = lin->qual > 0;
      chk(aug->IncreaseQuality() == hq, "the linear solver is asked for better quality");
   }
}

// the search direction solves the Newton system of the optimality conditions
static void searchdir(Env& E)
{
   Fix& F = E.F;
   newpoint(F, true);
   SmartPtr<Lin> lin = new Lin;
   SmartPtr<StdAugSystemSolver> aug = new StdAugSystemSolver(*lin);
   SmartPtr<PDPerturbationHandler> ph = new PDPerturbationHandler;
   SmartPtr<PDFullSpaceSolver> pd = new PDFullSpaceSolver(*aug, *ph);
   SmartPtr<PDSearchDirCalculator> sd = new PDSearchDirCalculator(GetRawPtr(pd));
   SmartPtr<OptionsList> o = new OptionsList(*F.app->Options());
   chk(sd->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *o, ""), "initialization");
   bool meh = ri(0, 1), fast = ri(0, 1), have = ri(0, 3) == 0;
   sd->mehrotra_algorithm_ = meh;
   sd->fast_step_computation_ = fast;
   Pt P(F);
   lin->ncons = P.Jc.size() + P.ss.size();
   lin->next = [&]() { return Act{SYMSOLVER_SUCCESS, 0., 0, 0.}; };
   auto rnd = [&]() { SmartPtr<IteratesVector> v = F.data->curr()->MakeNewIteratesVector(true); SmartPtr<Vector> w[8] = {v->x_NonConst(), v->s_NonConst(), v->y_c_NonConst(), v->y_d_NonConst(), v->z_L_NonConst(), v->z_U_NonConst(), v->v_L_NonConst(), v->v_U_NonConst()};
      for( int k = 0; k < 8; k++ ) { VD r(w[k]->Dim()); for( double& e : r ) { e = rval(); } put_all(*w[k], r); } return v; };
   SmartPtr<IteratesVector> aff = rnd(), del = rnd();
   std::vector<VD> A = comps(*aff), D0 = comps(*del);
   F.data->set_delta_aff(aff);
   F.data->SetHaveAffineDeltas(true);
   F.data->set_delta(del);
   F.data->SetHaveDeltas(have);
   setcase("search direction", std::string(meh ? "Mehrotra " : "") + (fast ? "fast " : "") + (have ? "with given direction" : ""));
   std::vector<VD> b = {dv(*F.cq->curr_grad_lag_with_damping_x()), dv(*F.cq->curr_grad_lag_with_damping_s()), dv(*F.cq->curr_c()), dv(*F.cq->curr_d_minus_s()),
                        dv(*F.cq->curr_relaxed_compl_x_L()), dv(*F.cq->curr_relaxed_compl_x_U()), dv(*F.cq->curr_relaxed_compl_s_L()), dv(*F.cq->curr_relaxed_compl_s_U())};
   if( meh ) { for( int k = 0; k < 4; k++ ) { b[4 + k] = vadd(b[4 + k], vmul(P.c.T(k, A[k < 2 ? 0 : 1]), A[4 + k]), k % 2 ? -1. : 1.); } }
   // every solution is checked against the right-hand side of this system unless a given direction is improved
   bool ok = sd->ComputeSearchDirection();
   F.data->SetHaveDeltas(false);
   F.data->SetHaveAffineDeltas(false);
   std::vector<VD> d = comps(*F.data->delta());
   if( have && fast ) { chk(ok && d == D0 && lin->stats.empty(), "a given direction is kept if fast steps are allowed"); return; }
   if( !ok ) { for( size_t i = 0; i < lin->stats.size(); i++ ) { if( lin->stats[i] != SYMSOLVER_SUCCESS ) { return; } } chk(false, "failure though the solver succeeded"); }
   double dl[4];
   ph->CurrentPerturbation(dl[0], dl[1], dl[2], dl[3]);
   std::vector<VD> L = full(P, d, dl);
   if( F.data->info_string().find('s') != std::string::npos ) { F.data->info_string_ = ""; return; }
   for( int k = 0; k < 8; k++ ) { chk(amax(vadd(L[k], b[k])) <= 1e-6 * (1. + amx(d) + amx(b)), "direction: block " + std::string(NAME[k]) + " of the Newton system is violated by " + S(amax(vadd(L[k], b[k])))); }
}

int main()
{
   h_init();
   for( int i = 0; i < 8; i++ )
   {
      setcase("setup", S((double) i));
      int n = ri(2, 4);
      Env* e = new Env(randproblem(n, ri(1, 3), false, i % 3 != 0), true);
      e->F.start();
      e->F.data->Set_W(e->F.cq->curr_exact_hessian());
      envs.push_back(e);
   }
   int N = THOROUGH ? 60000 : 4500;
   for( int it = 0; it < N; it++ )
   {
      Env& E = *envs[ri(0, (int) envs.size() - 1)];
      if( it % 6 == 2 ) { searchdir(E); }
      else if( it % 3 == 2 ) { augsolves(E); }
      else { pdsolves(E); }
   }
   return h_done();
}
