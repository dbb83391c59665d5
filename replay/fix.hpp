// a small parametric problem and access to the solver objects built for it
#pragma once
#include "h.hpp"
#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpOrigIpoptNLP.hpp"
#include "IpIpoptAlg.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpIteratesVector.hpp"
#include "IpSolveStatistics.hpp"
using namespace Ipopt;
typedef std::vector<double> VD;
struct Ent { int i, j; double v; };

// f = c0 + c'x + x'Qx/2,  g_k = d_k + A_k'x + x'B_k x/2   (Q, B_k symmetric, given by lower triangle)
class PNLP: public TNLP
{
public:
   int n, m;
   double c0;
   VD c, xl, xu, gl, gu, x0, d;
   std::vector<Ent> Q;
   std::vector<VD> A;                    // dense rows, zeros not in the pattern
   std::vector<std::vector<Ent>> B;
   // results and hooks
   VD sx, szl, szu, sg, slam;
   double sf;
   SolverReturn status;
   int finalized = 0, nf = 0, ng = 0, nh = 0, nj = 0, ngr = 0, niter = 0;
   std::function<bool(PNLP&, AlgorithmMode, int, const IpoptData*, IpoptCalculatedQuantities*)> cb;
   std::function<bool(const char*, const double*)> evalhook;   // false: report evaluation failure
   std::function<void(PNLP&)> boundshook;
   bool fortran = false;
   double cbargs[10];
   bool user_scaling = false, use_xs = false, use_gs = false;
   double obj_s = 1.;
   VD xs, gs;
   VD z0l, z0u, lam0;

   PNLP(int n_, int m_) : n(n_), m(m_), c0(0.), c(n, 0.), xl(n, -1e20), xu(n, 1e20), gl(m, -1e20), gu(m, 1e20), x0(n, 0.), d(m, 0.), A(m, VD(n, 0.)), B(m) { }
   double f(const double* x) const
   {
      double r = c0;
      for( int i = 0; i < n; i++ ) { r += c[i] * x[i]; }
      for( auto& e : Q ) { r += (e.i == e.j ? 0.5 : 1.) * e.v * x[e.i] * x[e.j]; }
      return r;
   }
   VD gradf(const double* x) const
   {
      VD r = c;
      for( auto& e : Q ) { r[e.i] += e.v * x[e.j]; if( e.i != e.j ) { r[e.j] += e.v * x[e.i]; } }
      return r;
   }
   VD g(const double* x) const
   {
      VD r = d;
      for( int k = 0; k < m; k++ )
      {
         for( int i = 0; i < n; i++ ) { r[k] += A[k][i] * x[i]; }
         for( auto& e : B[k] ) { r[k] += (e.i == e.j ? 0.5 : 1.) * e.v * x[e.i] * x[e.j]; }
      }
      return r;
   }
   std::vector<VD> jac(const double* x) const
   {
      std::vector<VD> r = A;
      for( int k = 0; k < m; k++ )
      {
         for( auto& e : B[k] ) { r[k][e.i] += e.v * x[e.j]; if( e.i != e.j ) { r[k][e.j] += e.v * x[e.i]; } }
      }
      return r;
   }
   std::vector<std::pair<int, int>> jpat() const
   {
      std::vector<std::pair<int, int>> p;
      for( int k = 0; k < m; k++ )
      {
         std::vector<bool> u(n, false);
         for( int i = 0; i < n; i++ ) { u[i] = A[k][i] != 0.; }
         for( auto& e : B[k] ) { u[e.i] = u[e.j] = true; }
         for( int i = 0; i < n; i++ ) { if( u[i] ) { p.push_back(std::make_pair(k, i)); } }
      }
      return p;
   }
   bool ok(const char* what, const double* x) { return !evalhook || evalhook(what, x); }
   bool get_nlp_info(Index& n_, Index& m_, Index& nj_, Index& nh_, IndexStyleEnum& st)
   {
      n_ = n; m_ = m; nj_ = jpat().size();
      size_t h = Q.size();
      for( auto& b : B ) { h += b.size(); }
      nh_ = h;
      st = fortran ? FORTRAN_STYLE : C_STYLE;
      return true;
   }
   bool get_bounds_info(Index, Number* a, Number* b, Index, Number* c_, Number* d_)
   {
      if( boundshook ) { boundshook(*this); }
      std::copy(xl.begin(), xl.end(), a); std::copy(xu.begin(), xu.end(), b); std::copy(gl.begin(), gl.end(), c_); std::copy(gu.begin(), gu.end(), d_);
      return true;
   }
   bool get_scaling_parameters(Number& os, bool& ux, Index, Number* x_s, bool& ug, Index, Number* g_s)
   {
      if( !user_scaling ) { return false; }
      os = obj_s; ux = use_xs; ug = use_gs;
      if( ux ) { std::copy(xs.begin(), xs.end(), x_s); }
      if( ug ) { std::copy(gs.begin(), gs.end(), g_s); }
      return true;
   }
   bool get_starting_point(Index, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index, bool il, Number* lam)
   {
      if( ix ) { std::copy(x0.begin(), x0.end(), x); }
      if( iz ) { for( int i = 0; i < n; i++ ) { zl[i] = z0l.empty() ? 1. : z0l[i]; zu[i] = z0u.empty() ? 1. : z0u[i]; } }
      if( il ) { for( int i = 0; i < m; i++ ) { lam[i] = lam0.empty() ? 0. : lam0[i]; } }
      return true;
   }
   bool eval_f(Index, const Number* x, bool, Number& v) { nf++; if( !ok("f", x) ) { return false; } v = f(x); return true; }
   bool eval_grad_f(Index, const Number* x, bool, Number* v) { ngr++; if( !ok("grad_f", x) ) { return false; } VD r = gradf(x); std::copy(r.begin(), r.end(), v); return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* v) { ng++; if( !ok("g", x) ) { return false; } VD r = g(x); std::copy(r.begin(), r.end(), v); return true; }
   bool eval_jac_g(Index, const Number* x, bool, Index, Index, Index* ir, Index* jc, Number* v)
   {
      auto p = jpat();
      int o = fortran ? 1 : 0;
      if( !v )
      {
         for( size_t k = 0; k < p.size(); k++ ) { ir[k] = p[k].first + o; jc[k] = p[k].second + o; }
         return ok("jac_structure", NULL);
      }
      nj++;
      if( !ok("jac_g", x) ) { return false; }
      auto J = jac(x);
      for( size_t k = 0; k < p.size(); k++ ) { v[k] = J[p[k].first][p[k].second]; }
      return true;
   }
   bool eval_h(Index, const Number* x, bool, Number of, Index, const Number* lam, bool, Index, Index* ir, Index* jc, Number* v)
   {
      size_t k = 0;
      int o = fortran ? 1 : 0;
      if( v ) { nh++; if( !ok("h", x) ) { return false; } }
      auto put = [&](const Ent& e, double w) { if( v ) { v[k] = w * e.v; } else { ir[k] = e.i + o; jc[k] = e.j + o; } k++; };
      for( auto& e : Q ) { put(e, of); }
      for( int q = 0; q < m; q++ ) { for( auto& e : B[q] ) { put(e, v ? lam[q] : 0.); } }
      return true;
   }
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number obj, Number ipr, Number idu, Number mu, Number dn, Number rs, Number ad, Number ap, Index ls, const IpoptData* dd, IpoptCalculatedQuantities* cq)
   {
      niter++;
      double a[10] = {obj, ipr, idu, mu, dn, rs, ad, ap, (double) ls, (double) iter};
      std::copy(a, a + 10, cbargs);
      return cb ? cb(*this, mode, iter, dd, cq) : true;
   }
   void finalize_solution(SolverReturn st, Index n_, const Number* x, const Number* zl, const Number* zu, Index m_, const Number* g_, const Number* lam, Number f_, const IpoptData*, IpoptCalculatedQuantities*)
   {
      finalized++;
      status = st;
      sx.assign(x, x + n_); szl.assign(zl, zl + n_); szu.assign(zu, zu + n_); sg.assign(g_, g_ + m_); slam.assign(lam, lam + m_);
      sf = f_;
   }
};

// random convex problem with all kinds of bounds; x0 is strictly feasible with respect to the bounds
inline SmartPtr<PNLP> randproblem(int n, int m, bool withfixed = false, bool convex = true)
{
   SmartPtr<PNLP> p = new PNLP(n, m);
   p->c0 = rval();
   for( int i = 0; i < n; i++ )
   {
      p->x0[i] = rval();
      p->c[i] = rval();
      int k = ri(0, withfixed ? 5 : 4);
      if( k == 0 || k == 1 ) { p->xl[i] = p->x0[i] - rpos(); }
      if( k == 0 || k == 2 ) { p->xu[i] = p->x0[i] + rpos(); }
      if( k == 5 ) { p->xl[i] = p->xu[i] = p->x0[i]; }
      p->Q.push_back(Ent{i, i, (convex ? 4. : 0.) + rval() / 8.});
      if( i > 0 && ri(0, 1) ) { p->Q.push_back(Ent{i, ri(0, i - 1), 0.5 * rval() / 8.}); }
   }
   for( int k = 0; k < m; k++ )
   {
      for( int i = 0; i < n; i++ ) { if( ri(0, 2) ) { p->A[k][i] = rval(); } }
      if( n > 0 && ri(0, 1) ) { int i = ri(0, n - 1); p->B[k].push_back(Ent{i, i, rval() / 4.}); }
      if( n > 1 && ri(0, 2) == 0 ) { int i = ri(1, n - 1); p->B[k].push_back(Ent{i, ri(0, i - 1), rval() / 4.}); }
      p->d[k] = rval();
   }
   VD g0 = p->g(p->x0.data());
   for( int k = 0; k < m; k++ )
   {
      int t = ri(0, 3);
      if( t == 0 && k < n - 1 ) { p->gl[k] = p->gu[k] = g0[k] + 0.25 * rval(); }
      else if( t == 1 ) { p->gl[k] = g0[k] - rpos(); }
      else if( t == 2 ) { p->gu[k] = g0[k] + rpos(); }
      else { p->gl[k] = g0[k] - rpos(); p->gu[k] = g0[k] + rpos(); }
   }
   return p;
}

struct Fix
{
   SmartPtr<PNLP> t;
   SmartPtr<IpoptApplication> app;
   IpoptData* data = NULL;
   IpoptCalculatedQuantities* cq = NULL;
   IpoptAlgorithm* alg = NULL;
   OrigIpoptNLP* nlp = NULL;
   TNLPAdapter* ad = NULL;
   ApplicationReturnStatus ret;

   Fix(SmartPtr<PNLP> p) : t(p)
   {
      app = new IpoptApplication(false);
      app->Options()->SetIntegerValue("print_level", 0);
      app->Options()->SetStringValue("sb", "yes");
      app->Options()->SetStringValue("linear_solver", "mumps");
   }
   void num(const char* n, double v) { chk(app->Options()->SetNumericValue(n, v), std::string("option ") + n); }
   void in(const char* n, int v) { chk(app->Options()->SetIntegerValue(n, v), std::string("option ") + n); }
   void str(const char* n, const std::string& v) { chk(app->Options()->SetStringValue(n, v), std::string("option ") + n); }
   // run; leaves the solver objects in place
   ApplicationReturnStatus solve()
   {
      app->Initialize("");
      ret = app->OptimizeTNLP(GetRawPtr(t));
      grab();
      return ret;
   }
   void grab()
   {
      data = GetRawPtr(app->ip_data_);
      cq = GetRawPtr(app->ip_cq_);
      alg = GetRawPtr(app->alg_);
      nlp = dynamic_cast<OrigIpoptNLP*>(GetRawPtr(app->ip_nlp_));
      ad = dynamic_cast<TNLPAdapter*>(GetRawPtr(app->nlp_adapter_));
   }
   // only build and initialise everything: the solver stops in the starting point
   bool start()
   {
      in("max_iter", 0);
      ret = solve();
      if( !(alg && data && IsValid(data->curr())) ) { fail("problem could not be set up, status " + S((double) ret)); }
      return true;
   }
};

inline VD dv(const Vector& v)
{
   if( const DenseVector* d = dynamic_cast<const DenseVector*>(&v) )
   {
      VD r(d->Dim());
      for( int i = 0; i < d->Dim(); i++ ) { r[i] = d->IsHomogeneous() ? d->Scalar() : d->Values()[i]; }
      return r;
   }
   const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v);
   VD r;
   for( int i = 0; c && i < c->NComps(); i++ ) { VD s = dv(*c->GetComp(i)); r.insert(r.end(), s.begin(), s.end()); }
   return r;
}
inline void setv(Vector& v, const VD& x)
{
   DenseVector* d = dynamic_cast<DenseVector*>(&v);
   if( d && d->Dim() ) { d->SetValues(x.data()); }
}
inline double amax(const VD& v) { double r = 0.; for( double x : v ) { r = std::max(r, std::fabs(x)); } return r; }
inline double asum(const VD& v) { double r = 0.; for( double x : v ) { r += std::fabs(x); } return r; }
// makes a perturbed copy of the current iterate the new current one (slacks and bound multipliers stay positive)
inline void moveiterate(Fix& F, double size)
{
   SmartPtr<IteratesVector> it = F.data->curr()->MakeNewIteratesVectorCopy();
   VD x = dv(*it->x()), s = dv(*it->s());
   // keep x strictly inside its (relaxed) bounds: move relative to the slacks
   SmartPtr<const Vector> sl = F.cq->curr_slack_x_L(), su = F.cq->curr_slack_x_U(), tl = F.cq->curr_slack_s_L(), tu = F.cq->curr_slack_s_U();
   SmartPtr<Vector> w = it->x()->MakeNew();
   auto room = [](const Matrix& PL, const Vector& SL, const Matrix& PU, const Vector& SU, const Vector& proto, VD& lo, VD& hi)
   {
      SmartPtr<Vector> a = proto.MakeNew(), b = proto.MakeNew();
      SmartPtr<Vector> sl2 = SL.MakeNewCopy(), su2 = SU.MakeNewCopy();
      a->Set(0.); PL.MultVector(1., *sl2, 0., *a);
      b->Set(0.); PU.MultVector(1., *su2, 0., *b);
      lo = dv(*a); hi = dv(*b);
   };
   VD lo, hi;
   room(*F.nlp->Px_L(), *sl, *F.nlp->Px_U(), *su, *it->x(), lo, hi);
   for( size_t i = 0; i < x.size(); i++ ) { double r = (rd01() - 0.5) * 2. * size; x[i] += r < 0 ? (lo[i] > 0. ? std::max(r, -0.9 * lo[i]) : r) : (hi[i] > 0. ? std::min(r, 0.9 * hi[i]) : r); }
   room(*F.nlp->Pd_L(), *tl, *F.nlp->Pd_U(), *tu, *it->s(), lo, hi);
   for( size_t i = 0; i < s.size(); i++ ) { double r = (rd01() - 0.5) * 2. * size; s[i] += r < 0 ? (lo[i] > 0. ? std::max(r, -0.9 * lo[i]) : r) : (hi[i] > 0. ? std::min(r, 0.9 * hi[i]) : r); }
   setv(*it->x_NonConst(), x);
   setv(*it->s_NonConst(), s);
   auto rnd = [&](Vector& v, bool pos) { VD a = dv(v); for( double& q : a ) { q = pos ? 0.01 + rd01() * size : (rd01() - 0.5) * 4. * size; } setv(v, a); };
   rnd(*it->y_c_NonConst(), false); rnd(*it->y_d_NonConst(), false);
   rnd(*it->z_L_NonConst(), true); rnd(*it->z_U_NonConst(), true); rnd(*it->v_L_NonConst(), true); rnd(*it->v_U_NonConst(), true);
   SmartPtr<const IteratesVector> cit = ConstPtr(it);
   F.data->set_trial(it);
   F.data->AcceptTrialPoint();
}
