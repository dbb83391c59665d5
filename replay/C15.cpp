// run-time contracts of the C interface: a problem given through it behaves exactly like the same problem given as a TNLP
#include "fix.hpp"
#include <stdbool.h>
namespace capi {
#include "IpStdCInterface.h"
}
using capi::IpoptProblem; using capi::UserDataPtr; using capi::CreateIpoptProblem; using capi::SetIpoptProblemScaling; using capi::AddIpoptStrOption; using capi::AddIpoptNumOption; using capi::AddIpoptIntOption; using capi::SetIntermediateCallback; using capi::IpoptSolve; using capi::GetIpoptCurrentIterate; using capi::GetIpoptCurrentViolations; using capi::FreeIpoptProblem;
#include <stdexcept>
struct Rec { std::string what; VD v; };
static std::string str(const Rec& r) { return r.what + " " + S(r.v); }
class RNLP: public PNLP
{
public:
   std::vector<Rec> log;
   std::string failwhat;
   int failat = -1, nev = 0, stopat = -1;
   int failkind = 0;            // 0: report failure, 1: not a number, 2: foreign exception
   bool have_zl = true, have_zu = true, have_lam = true, scal = false;
   int getmask = 0;
   RNLP(const PNLP& p) : PNLP(p.n, p.m) { c0 = p.c0; c = p.c; xl = p.xl; xu = p.xu; gl = p.gl; gu = p.gu; x0 = p.x0; d = p.d; Q = p.Q; A = p.A; B = p.B; fortran = p.fortran; }
   RNLP(const RNLP& p) : RNLP((const PNLP&) p)
   {
      failwhat = p.failwhat; failat = p.failat; failkind = p.failkind; stopat = p.stopat; have_zl = p.have_zl; have_zu = p.have_zu; have_lam = p.have_lam; getmask = p.getmask;
      user_scaling = p.user_scaling; use_xs = p.use_xs; use_gs = p.use_gs; obj_s = p.obj_s; xs = p.xs; gs = p.gs; z0l = p.z0l; z0u = p.z0u; lam0 = p.lam0;
   }
   bool ev(const std::string& w, bool nx, const double* x, VD extra = VD())
   {
      VD a(1, nx);
      if( x ) { a.insert(a.end(), x, x + n); }
      a.insert(a.end(), extra.begin(), extra.end());
      log.push_back(Rec{w, a});
      if( w == failwhat && nev++ == failat )
      {
         if( failkind == 2 ) { throw std::runtime_error("from a callback"); }
         return failkind == 0 ? false : true;
      }
      return true;
   }
   bool bad(const std::string& w) { return w == failwhat && nev == failat + 1 && failkind == 1; }
   bool get_scaling_parameters(Number& os, bool& ux, Index a, Number* x_s, bool& ug, Index b, Number* g_s) override
   {
      if( user_scaling ) { return PNLP::get_scaling_parameters(os, ux, a, x_s, ug, b, g_s); }
      os = 1.; ux = ug = false;
      return true;
   }
   bool get_starting_point(Index a, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index b, bool il, Number* lam) override
   {
      PNLP::get_starting_point(a, ix, x, iz, zl, zu, b, il, lam);
      return !(iz && !(have_zl && have_zu)) && !(il && !have_lam);
   }
   bool eval_f(Index a, const Number* x, bool nx, Number& v) override { if( !ev("f", nx, x) ) { return false; } PNLP::eval_f(a, x, nx, v); if( bad("f") ) { v = NAN; nev++; } return true; }
   bool eval_grad_f(Index a, const Number* x, bool nx, Number* v) override { if( !ev("grad_f", nx, x) ) { return false; } PNLP::eval_grad_f(a, x, nx, v); if( bad("grad_f") ) { v[n - 1] = NAN; nev++; } return true; }
   bool eval_g(Index a, const Number* x, bool nx, Index b, Number* v) override { if( !ev("g", nx, x) ) { return false; } PNLP::eval_g(a, x, nx, b, v); if( m && bad("g") ) { v[m - 1] = INFINITY; nev++; } return true; }
   bool eval_jac_g(Index a, const Number* x, bool nx, Index b, Index c_, Index* ir, Index* jc, Number* v) override
   {
      if( !ev(v ? "jac_g" : "jac_structure", nx, v ? x : NULL) ) { return false; }
      return PNLP::eval_jac_g(a, x, nx, b, c_, ir, jc, v);
   }
   bool eval_h(Index a, const Number* x, bool nx, Number of, Index b, const Number* lam, bool nl, Index c_, Index* ir, Index* jc, Number* v) override
   {
      VD e;
      if( v ) { e.push_back(of); e.push_back(nl); e.insert(e.end(), lam, lam + m); }
      if( !ev(v ? "h" : "h_structure", nx, v ? x : NULL, e) ) { return false; }
      return PNLP::eval_h(a, x, nx, of, b, lam, nl, c_, ir, jc, v);
   }
   VD box[12];
   // what the caller of GetIpoptCurrentIterate / Violations gets
   void got(bool r1, bool r2)
   {
      VD a{(double) r1, (double) r2};
      for( auto& b : box ) { a.insert(a.end(), b.begin(), b.end()); a.push_back(-77.); }
      log.push_back(Rec{"current iterate", a});
   }
   double* bx(int k, int len) { box[k].assign(len, 55.); return (getmask >> k) & 1 ? box[k].data() : NULL; }
   bool inter(VD a, std::function<void()> get)
   {
      log.push_back(Rec{"intermediate", a});
      if( getmask ) { get(); }
      return niter++ != stopat;
   }
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number obj, Number ipr, Number idu, Number mu, Number dn, Number rs, Number ad, Number ap, Index ls, const IpoptData* dd, IpoptCalculatedQuantities* cq) override
   {
      return inter(VD{(double) mode, (double) iter, obj, ipr, idu, mu, dn, rs, ad, ap, (double) ls}, [&]()
      {
         bool sc = (getmask >> 12) & 1;
         double* p[12];
         for( int k = 0; k < 12; k++ ) { p[k] = bx(k, k == 3 || k == 4 || k == 10 || k == 11 ? m : n); }
         bool r1 = get_curr_iterate(dd, cq, sc, n, p[0], p[1], p[2], m, p[3], p[4]);
         bool r2 = get_curr_violations(dd, cq, sc, n, p[5], p[6], p[7], p[8], p[9], m, p[10], p[11]);
         got(r1, r2);
      });
   }
};
static IpoptProblem PROB;
#define T ((RNLP*) ud)
static bool c_f(ipindex n, ipnumber* x, bool nx, ipnumber* v, UserDataPtr ud) { return T->eval_f(n, x, nx, *v); }
static bool c_gf(ipindex n, ipnumber* x, bool nx, ipnumber* v, UserDataPtr ud) { return T->eval_grad_f(n, x, nx, v); }
static bool c_g(ipindex n, ipnumber* x, bool nx, ipindex m, ipnumber* v, UserDataPtr ud) { return T->eval_g(n, x, nx, m, v); }
static bool c_jg(ipindex n, ipnumber* x, bool nx, ipindex m, ipindex nz, ipindex* ir, ipindex* jc, ipnumber* v, UserDataPtr ud) { return T->eval_jac_g(n, x, nx, m, nz, ir, jc, v); }
static bool c_h(ipindex n, ipnumber* x, bool nx, ipnumber of, ipindex m, ipnumber* lam, bool nl, ipindex nz, ipindex* ir, ipindex* jc, ipnumber* v, UserDataPtr ud) { return T->eval_h(n, x, nx, of, m, lam, nl, nz, ir, jc, v); }
static bool c_i(ipindex mode, ipindex iter, ipnumber obj, ipnumber ipr, ipnumber idu, ipnumber mu, ipnumber dn, ipnumber rs, ipnumber ad, ipnumber ap, ipindex ls, UserDataPtr ud)
{
   RNLP* t = T;
   return t->inter(VD{(double) mode, (double) iter, obj, ipr, idu, mu, dn, rs, ad, ap, (double) ls}, [&]()
   {
      bool sc = (t->getmask >> 12) & 1;
      int n = t->n, m = t->m;
      double* p[12];
      for( int k = 0; k < 12; k++ ) { p[k] = t->bx(k, k == 3 || k == 4 || k == 10 || k == 11 ? m : n); }
      bool r1 = GetIpoptCurrentIterate(PROB, sc, n, p[0], p[1], p[2], m, p[3], p[4]);
      bool r2 = GetIpoptCurrentViolations(PROB, sc, n, p[5], p[6], p[7], p[8], p[9], m, p[10], p[11]);
      t->got(r1, r2);
   });
}
struct Opt { std::string k, s; double d; int i; char t; };

static bool samev(const VD& a, const VD& b)
{
   if( a.size() != b.size() ) { return false; }
   for( size_t i = 0; i < a.size(); i++ ) { if( !(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) ) { return false; } }
   return true;
}

int main()
{
   h_init();
   static char nm[64], vl[64];
   int N = THOROUGH ? 2500 : 320;
#ifdef DEMO
   N = DEMO;
#endif
   for( int it = 0; it < N; it++ )
   {
      int n = ri(1, 5), m = ri(0, 3);
      SmartPtr<PNLP> base = randproblem(n, m, ri(0, 2) == 0);
      base->fortran = ri(0, 1);
      setcase("creation", "refused data");
      Index nn, mm, nj, nh;
      TNLP::IndexStyleEnum st;
      base->get_nlp_info(nn, mm, nj, nh, st);
      VD a = base->xl, b = base->xu, c = base->gl, d = base->gu;
      auto mk = [&](int w)
      {
         return CreateIpoptProblem(w == 1 ? 0 : n, w == 2 ? NULL : a.data(), w == 3 ? NULL : b.data(), w == 4 ? -1 : m, w == 5 ? NULL : c.data(), w == 6 ? NULL : d.data(), w == 7 ? (m ? 0 : 1) : nj, w == 8 ? -1 : nh, st == TNLP::FORTRAN_STYLE,
                                   w == 9 ? NULL : c_f, w == 10 ? NULL : c_g, w == 11 ? NULL : c_gf, w == 12 ? NULL : c_jg, c_h);
      };
      for( int w = 1; w <= 12; w++ )
      {
         if( m == 0 && (w == 5 || w == 6 || w == 10 || w == 12) ) { continue; }
         if( mk(w) != NULL ) { fail("invalid data of kind " + std::to_string(w) + " are accepted"); }
      }
      PROB = mk(0);
      if( m > 0 && nj == 0 ) { if( PROB != NULL ) { fail("constraints without Jacobian entries are accepted"); } continue; }
      if( PROB == NULL ) { fail("valid data are refused"); }
      // the problem has own copies of the arrays
      for( VD* p : {&a, &b, &c, &d} ) { for( double& x : *p ) { x = -999.; } }
      for( int run = 0; run < 2; run++ )
      {
         setcase("solve", "");
         SmartPtr<RNLP> t = new RNLP(*base);
         for( int i = 0; i < n; i++ ) { if( base->xl[i] < base->xu[i] && run ) { t->x0[i] += 0.25 * rval(); } }
         t->niter = 0;
         std::vector<Opt> o;
         auto ostr = [&](const char* k, const char* v) { o.push_back(Opt{k, v, 0., 0, 's'}); };
         auto onum = [&](const char* k, double v) { o.push_back(Opt{k, "", v, 0, 'n'}); };
         auto oint = [&](const char* k, int v) { o.push_back(Opt{k, "", 0., v, 'i'}); };
         oint("print_level", 0); ostr("sb", "yes"); ostr("linear_solver", "mumps"); oint("mumps_permuting_scaling", 0); oint("mumps_scaling", 0); oint("max_iter", ri(0, 3) ? ri(1, 25) : 0);
         onum("tol", ri(0, 1) ? 1e-8 : 1e-4);
         ostr("hessian_approximation", ri(0, 3) ? "exact" : "limited-memory");
         ostr("jacobian_approximation", ri(0, 3) ? "exact" : "finite-difference-values");
         ostr("gradient_approximation", ri(0, 3) ? "exact" : "finite-difference-values");
         ostr("fixed_variable_treatment", ri(0, 1) ? "make_parameter" : "relax_bounds");
         ostr("derivative_test", ri(0, 5) == 0 ? "second-order" : "none");
         bool warm = ri(0, 2) == 0;
         ostr("warm_start_init_point", warm ? "yes" : "no");
         t->have_zl = ri(0, 5) != 0; t->have_zu = ri(0, 5) != 0; t->have_lam = ri(0, 5) != 0;
         bool have_g = ri(0, 2) != 0, have_obj = ri(0, 2) != 0, usecb = ri(0, 3) != 0;
         for( int i = 0; i < n; i++ ) { t->z0l.push_back(rpos()); t->z0u.push_back(rpos()); }
         for( int k = 0; k < m; k++ ) { t->lam0.push_back(rval()); }
         ostr("nlp_scaling_method", ri(0, 2) ? "gradient-based" : "user-scaling");
         t->user_scaling = ri(0, 1);
         if( t->user_scaling || run )
         {
            t->user_scaling = true;
            t->obj_s = rpos(); t->use_xs = ri(0, 1); t->use_gs = m > 0 && ri(0, 1);
            for( int i = 0; i < n; i++ ) { t->xs.push_back(rpos()); }
            for( int k = 0; k < m; k++ ) { t->gs.push_back(rpos()); }
            VD q = t->xs, r = t->gs;
            if( !SetIpoptProblemScaling(PROB, t->obj_s, t->use_xs ? q.data() : NULL, t->use_gs ? r.data() : NULL) ) { fail("scaling is refused"); }
            for( VD* p : {&q, &r} ) { for( double& x : *p ) { x = -999.; } }
         }
         t->getmask = ri(0, 2) ? ri(0, 8191) : 0;
         t->stopat = ri(0, 4) == 0 ? ri(0, 6) : -1;
         if( ri(0, 2) == 0 )
         {
            static const char* W[] = {"f", "grad_f", "g", "jac_g", "h", "jac_structure", "h_structure"};
            t->failwhat = W[ri(0, 6)];
            t->failat = ri(0, 2) ? ri(0, 8) : 0;
            t->failkind = ri(0, 2);
         }
         SmartPtr<RNLP> u = new RNLP(*t);
         for( auto& q : o ) { CASE += q.k + "=" + (q.t == 's' ? q.s : q.t == 'n' ? S(q.d) : std::to_string(q.i)) + " "; }
         CASE += "fail=" + t->failwhat + std::to_string(t->failat) + "/" + std::to_string(t->failkind) + " mask=" + std::to_string(t->getmask) + " n=" + std::to_string(n) + " m=" + std::to_string(m) + " run=" + std::to_string(run) + " ";
         // as a TNLP
         int r1;
         {
            SmartPtr<IpoptApplication> app = new IpoptApplication();
            app->RethrowNonIpoptException(false);
            for( auto& q : o )
            {
               bool k = q.t == 's' ? app->Options()->SetStringValue(q.k, q.s) : q.t == 'n' ? app->Options()->SetNumericValue(q.k, q.d) : app->Options()->SetIntegerValue(q.k, q.i);
               chk(k, "option " + q.k);
            }
            r1 = (int) app->Initialize();
            if( r1 == 0 ) { if( !usecb ) { t->stopat = -1; u->stopat = -1; t->getmask = 0; u->getmask = 0; } r1 = (int) app->OptimizeTNLP(GetRawPtr(t)); }
         }
         // through the C interface
         for( auto& q : o )
         {
            strcpy(nm, q.k.c_str()); strcpy(vl, q.s.c_str());
            bool k = q.t == 's' ? AddIpoptStrOption(PROB, nm, vl) : q.t == 'n' ? AddIpoptNumOption(PROB, nm, q.d) : AddIpoptIntOption(PROB, nm, q.i);
            if( !k ) { fail("option is refused: " + q.k); }
         }
         strcpy(nm, "no_such_option"); strcpy(vl, "no_such_value");
         if( AddIpoptStrOption(PROB, nm, vl) || AddIpoptNumOption(PROB, nm, 1.) || AddIpoptIntOption(PROB, nm, 1) ) { fail("an unknown option is accepted"); }
         strcpy(nm, "max_iter");
         if( AddIpoptIntOption(PROB, nm, -1) ) { fail("an invalid value is accepted"); }
         SetIntermediateCallback(PROB, usecb ? c_i : NULL);
         VD x = t->x0, zl = t->z0l, zu = t->z0u, lam = t->lam0, g(m, 33.);
         double obj = 44.;
         lam.push_back(66.); g.push_back(33.);
         int r2 = (int) IpoptSolve(PROB, x.data(), have_g ? g.data() : NULL, have_obj ? &obj : NULL, u->have_lam ? lam.data() : NULL, u->have_zl ? zl.data() : NULL, u->have_zu ? zu.data() : NULL, GetRawPtr(u));
         if( (int) r1 != (int) r2 ) { fail("status " + std::to_string((int) r2) + " instead of " + std::to_string((int) r1)); }
         if( lam.back() != 66. || g.back() != 33. ) { fail("an array is written beyond its end"); }
         lam.pop_back(); g.pop_back();
         if( t->finalized > 1 ) { fail("solution is reported more than once"); }
         bool fin = t->finalized;
         auto cmp = [&](const char* w, bool have, const VD& q, const VD& sol, const VD& before) { if( !samev(q, have && fin ? sol : before) ) { fail(std::string(w) + ": " + S(q) + " instead of " + S(have && fin ? sol : before)); } };
         cmp("x", true, x, t->sx, t->x0);
         cmp("lower bound multipliers", u->have_zl, zl, t->szl, t->z0l);
         cmp("upper bound multipliers", u->have_zu, zu, t->szu, t->z0u);
         cmp("constraint multipliers", u->have_lam, lam, t->slam, t->lam0);
         cmp("constraints", have_g, g, t->sg, VD(m, 33.));
         cmp("objective", have_obj, VD(1, obj), VD(1, t->sf), VD(1, 44.));
         // the callbacks see the same calls with the same points
         std::vector<Rec> l1, l2;
         for( auto& q : t->log ) { if( usecb || q.what != "intermediate" ) { l1.push_back(q); } }
         l2 = u->log;
         for( size_t k = 0; k < l1.size() && k < l2.size(); k++ )
         {
            if( l1[k].what != l2[k].what || !samev(l1[k].v, l2[k].v) ) { fail("call " + std::to_string(k) + " of a callback: " + str(l2[k]) + " instead of " + str(l1[k])); }
         }
         if( l1.size() != l2.size() ) { fail("number of calls of callbacks: " + std::to_string(l2.size()) + " instead of " + std::to_string(l1.size())); }
         VD w(n, 1.);
         if( GetIpoptCurrentIterate(PROB, false, n, w.data(), NULL, NULL, m, NULL, NULL) || GetIpoptCurrentViolations(PROB, false, n, w.data(), NULL, NULL, NULL, NULL, m, NULL, NULL) ) { fail("there is a current iterate outside the callback"); }
         if( r1 == 0 || r1 == 1 ) { GROUPS["solved"]++; }
         if( l1.size() > 20 ) { GROUPS["long run"]++; }
      }
      if( (int) IpoptSolve(PROB, NULL, NULL, NULL, NULL, NULL, NULL, NULL) != -11 ) { fail("a missing starting point is accepted"); }
      FreeIpoptProblem(PROB);
   }
   return h_done();
}
