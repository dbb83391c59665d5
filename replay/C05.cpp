// run-time contracts of the inertia correction
#include "h.hpp"
#include "IpPDPerturbationHandler.hpp"
#include "IpIpoptData.hpp"
#include "IpOptionsList.hpp"
#include "IpRegOptions.hpp"
#include "IpJournalist.hpp"
#include "IpIpoptNLP.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
using namespace Ipopt;
enum { U, N, D };
enum { T0, T00, T10, T01, T11 };
struct Ref
{
   double xl, cl, x, c, mu, regu;
   double mx, mn, first, inc, dec, ini, cdv, cde;
   bool always, reset;
   int h, j, t, n, nmax;
   double cd() { return cdv * std::pow(mu, cde); }
   void fin()
   {
      int h0 = h, j0 = j;
      bool count = (t == T10 && j0 == U) || (t == T01 && h0 == U) || t == T11;
      n += count;
      bool en = n >= nmax;
      if( t == T00 ) { if( h0 == U ) { h = N; } if( j0 == U ) { j = N; } }
      if( t == T10 ) { if( h0 == U ) { h = N; } if( j0 == U && en ) { j = D; } }
      if( t == T01 ) { if( j0 == U ) { j = N; } if( h0 == U && en ) { h = D; } }
      if( t == T11 && en ) { h = j = D; }
   }
   bool wrong()
   {
      double y;
      if( x == 0. ) { y = xl == 0. ? ini : std::max(mn, xl * dec); }
      else { y = x * ((xl == 0. || 1e5 * xl < x) ? first : inc); }
      x = y;
      if( y > mx ) { xl = 0.; return false; }
      regu = y;
      return true;
   }
   bool consider()
   {
      fin();
      if( reset || x > 0. ) { xl = x; }
      if( reset || c > 0. ) { cl = c; }
      t = (h == U || j == U) ? (always ? T10 : T00) : T0;
      c = (j == D || always) ? cd() : 0.;
      x = 0.;
      if( h == D ) { return wrong(); }
      regu = 0.;
      return true;
   }
   bool sing()
   {
      if( h == U || j == U )
      {
         switch( t )
         {
            case T00:
               if( j == U ) { c = cd(); t = T10; }
               else { if( !wrong() ) { return false; } t = T01; }
               break;
            case T10:
               if( !always ) { c = 0.; }
               if( !wrong() ) { return false; }
               t = always ? T11 : T01;
               break;
            case T01:
               c = cd();
               if( !wrong() ) { return false; }
               t = T11;
               break;
            case T11:
               if( !wrong() ) { return false; }
         }
      }
      else if( c > 0. ) { if( !wrong() ) { return false; } }
      else { c = cd(); }
      regu = x;
      return true;
   }
   bool winert()
   {
      fin();
      bool first_c0 = c == 0.;
      bool r = wrong();
      if( !r && first_c0 )
      {
         c = cd();
         x = 0.;
         t = T0;
         if( h == D ) { h = U; }
         r = wrong();
      }
      return r;
   }
};

static SmartPtr<Journalist> JN;
static SmartPtr<RegisteredOptions> RO;

static void history(int mode)
{
   SmartPtr<OptionsList> o = new OptionsList(RO, JN);
   Ref R;
   memset(&R, 0, sizeof R);
   static const double MX[] = {1e20, 1e3, 1e-2, 10., 1e5}, MN[] = {1e-20, 1e-4, 0.5, 0.}, FI[] = {100., 1.5, 2.}, IN[] = {8., 3., 1.25}, DE[] = {1. / 3., 0.5, 0.9}, IT[] = {1e-4, 1., 20.}, CV[] = {1e-8, 1e-3, 0.}, CE[] = {0.25, 0., 1.};
   R.mx = MX[ri(0, 4)]; R.mn = MN[ri(0, 3)]; R.first = FI[ri(0, 2)]; R.inc = IN[ri(0, 2)]; R.dec = DE[ri(0, 2)]; R.ini = IT[ri(0, 2)]; R.cdv = CV[mode % 7 == 6 ? 2 : ri(0, 1)]; R.cde = CE[ri(0, 2)];
   R.always = ri(0, 2) == 0;
   if( mode == 0 )
   {
      R.mx = 1e20; R.mn = 1e-20; R.first = 100.; R.inc = 8.; R.dec = 1. / 3.; R.ini = 1e-4; R.cdv = 1e-8; R.cde = 0.25; R.always = false;
   }
   PDPerturbationHandler H;
   R.reset = mode % 3 == 2;
   R.nmax = mode % 4 == 3 ? ri(1, 4) : H.degen_iters_max_;
   chk(H.degen_iters_max_ == 3 && !H.reset_last_, "default number of observations");
   H.reset_last_ = R.reset;
   H.degen_iters_max_ = R.nmax;
   if( mode != 0 )
   {
      // OptionsList prints only 6 digits: values above are chosen to survive that, except 1/3
      if( R.dec < 0.4 ) { R.dec = 0.25; }
      o->SetNumericValue("max_hessian_perturbation", R.mx); o->SetNumericValue("min_hessian_perturbation", R.mn);
      o->SetNumericValue("perturb_inc_fact_first", R.first); o->SetNumericValue("perturb_inc_fact", R.inc);
      o->SetNumericValue("perturb_dec_fact", R.dec); o->SetNumericValue("first_hessian_perturbation", R.ini);
      o->SetNumericValue("jacobian_regularization_value", R.cdv); o->SetNumericValue("jacobian_regularization_exponent", R.cde);
      o->SetStringValue("perturb_always_cd", R.always ? "yes" : "no");
   }
   SmartPtr<IpoptData> data = new IpoptData();
   data->curr_mu_ = R.mu = 0.1;
   data->mu_initialized_ = true;
   setcase("initialisation", "");
   // the handler only uses the data object
   chk(H.Initialize(*JN, *(IpoptNLP*) NULL, *data, *(IpoptCalculatedQuantities*) NULL, *o, ""), "initialisation succeeds");
   R.j = R.always ? N : U;
   std::string log;
   double dx = -7., ds = -7., dc = -7., dd = -7.;
   bool ok = false, fresh = true;
   for( int k = 0; k < 40; k++ )
   {
      int op = fresh ? 0 : ri(0, ok ? 9 : 0);
      bool r, e;
      if( op <= 3 )
      {
         if( ri(0, 2) == 0 ) { data->curr_mu_ = R.mu = R.mu * rpos(); }
         log += "new(mu=" + S(R.mu) + ") ";
         setcase("new system", "max=" + S(R.mx) + " min=" + S(R.mn) + " history: " + log);
         r = H.ConsiderNewSystem(dx, ds, dc, dd);
         e = R.consider();
      }
      else if( op <= 6 )
      {
         log += "singular ";
         setcase("singular", "max=" + S(R.mx) + " min=" + S(R.mn) + " history: " + log);
         r = H.PerturbForSingularity(dx, ds, dc, dd);
         e = R.sing();
      }
      else
      {
         log += "wrong-inertia ";
         setcase("wrong inertia", "max=" + S(R.mx) + " min=" + S(R.mn) + " history: " + log);
         r = H.PerturbForWrongInertia(dx, ds, dc, dd);
         e = R.winert();
      }
      fresh = false;
      chk(r == e, std::string("success reported is ") + (r ? "true" : "false"));
      ok = r;
      if( r )
      {
         eq("delta_x", dx, R.x, 1e-14); eq("delta_s", ds, R.x, 1e-14); eq("delta_c", dc, R.c, 1e-14); eq("delta_d", dd, R.c, 1e-14);
         chk(dx == 0. || (dx > 0. && dx <= R.mx), "perturbation within the maximum");
      }
      double a, b, c, d;
      H.CurrentPerturbation(a, b, c, d);
      if( r )
      {
         chk(a == dx && b == ds && c == dc && d == dd, "current perturbation is the one determined last");
      }
      eq("reported regularisation", data->info_regu_x(), R.regu, 1e-14);
      chk(H.hess_degenerate_ == R.h && H.jac_degenerate_ == R.j, "degeneracy conclusions");
      chk(H.degen_iters_ == R.n, "number of observations");
      if( r )
      {
         eq("last perturbation", H.delta_x_last_, R.xl, 1e-14);
         chk((int) H.test_status_ == R.t, "state of the degeneracy test");
      }
   }
}

int main()
{
   h_init();
   JN = new Journalist();
   RO = new RegisteredOptions();
   PDPerturbationHandler::RegisterOptions(RO);
   int n = THOROUGH ? 60000 : 4000;
   for( int i = 0; i < n; i++ )
   {
      history(i % 24);
   }
   return h_done();
}
