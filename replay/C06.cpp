// run-time contracts of the monotone barrier parameter update
#include "fix.hpp"
#include "IpMonotoneMuUpdate.hpp"
#include "IpLineSearch.hpp"
#include "IpTNLPAdapter.hpp"

struct CountLS: public LineSearch
{
   IpoptData* d = NULL;
   int resets = 0;
   double mu = -1., tau = -1.;
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void FindAcceptableTrialPoint() { }
   void Reset() { resets++; mu = d->curr_mu(); tau = d->curr_tau(); }
   void SetRigorousLineSearch(bool) { }
   bool CheckSkippedLineSearch() { return false; }
   bool ActivateFallbackMechanism() { return false; }
};

int main()
{
   h_init();
   int NP = THOROUGH ? 60 : 8, NK = THOROUGH ? 3000 : 900;
   for( int p = 0; p < NP; p++ )
   {
      int n = ri(1, 6), m = ri(0, 4);
      SmartPtr<PNLP> t = randproblem(n, m);
      if( p % 2 ) { for( double& c : t->c ) { c *= 3000.; } }
      Fix F(t);
      double oi = 0.125 * ri(1, 9), of = 0.5 * ri(1, 30), ol = 0.1 * ri(1, 9), op = 1. + 0.1 * ri(1, 9), ot = 0.1 * ri(1, 9), oc = 1e-5 * ri(1, 9), og = p % 2 ? 0. : 1e-4 * ri(1, 9);
      bool oa = ri(0, 1);
      F.num("mu_init", oi); F.num("barrier_tol_factor", of); F.num("mu_linear_decrease_factor", ol); F.num("mu_superlinear_decrease_power", op); F.num("tau_min", ot); F.num("compl_inf_tol", oc); F.num("mu_target", og);
      F.str("mu_allow_fast_monotone_decrease", oa ? "yes" : "no");
      setcase("setup", "");
      F.start();
      MonotoneMuUpdate* U = dynamic_cast<MonotoneMuUpdate*>(GetRawPtr(F.alg->mu_update_));
      chk(U != NULL, "monotone update is the default");
      SmartPtr<CountLS> ls = new CountLS();
      ls->d = F.data;
      U->linesearch_ = GetRawPtr(ls);
      auto nearly = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); };
      setcase("options", "");
      chk(nearly(U->mu_init_, oi) && nearly(U->barrier_tol_factor_, of) && nearly(U->mu_linear_decrease_factor_, ol) && nearly(U->mu_superlinear_decrease_power_, op) && nearly(U->tau_min_, ot) && nearly(U->compl_inf_tol_, oc) && nearly(U->mu_target_, og) && U->mu_allow_fast_monotone_decrease_ == oa, "options are read into the right parameters");
      for( int r = 0; r < 2; r++ )
      {
         U->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *F.app->Options(), r ? "resto." : "");
         setcase("initialisation", r ? "restoration" : "regular");
         chk(U->first_iter_resto_ == (r == 1) && !U->initialized_, "flags");
         chk(F.data->curr_mu() == U->mu_init_ && F.data->curr_tau() == std::max(U->tau_min_, 1. - U->mu_init_), "first mu and tau");
      }
      for( int k = 0; k < NK; k++ )
      {
         if( ri(0, 3) == 0 ) { moveiterate(F, rpos()); }
         static const double mus[] = {1., 0.5, 0.1, 1e-2, 1e-3, 1e-5, 1e-8, 1e-9, 2., 10.};
         double mu0 = mus[ri(0, 9)] * (ri(0, 1) ? 1. : rpos());
         U->mu_target_ = ri(0, 2) ? 0. : mus[ri(1, 7)];
         U->compl_inf_tol_ = ri(0, 1) ? 1e-4 : mus[ri(0, 7)];
         F.data->tol_ = ri(0, 1) ? 1e-8 : mus[ri(0, 7)];
         U->mu_linear_decrease_factor_ = 0.1 * ri(1, 9);
         U->mu_superlinear_decrease_power_ = 1. + 0.1 * ri(1, 9);
         U->tau_min_ = 0.1 * ri(1, 9);
         U->mu_allow_fast_monotone_decrease_ = ri(0, 1);
         U->initialized_ = ri(0, 2) != 0;
         U->first_iter_resto_ = ri(0, 9) == 0;
         bool tiny = ri(0, 3) == 0;
         F.data->Set_tiny_step_flag(tiny);
         F.data->Set_mu(mu0);
         double tau0 = ri(0, 1) ? std::max(U->tau_min_, 1. - mu0) : 0.99;
         F.data->Set_tau(tau0);
         auto berr = [&](double mu) { double o = F.data->curr_mu(); F.data->Set_mu(mu); double e = F.cq->curr_barrier_error(); F.data->Set_mu(o); return e; };
         // tolerance factor such that the outcome of the test varies
         static const double fs[] = {0.25, 0.9, 0.999, 1.001, 1.1, 4., 100., 1e6};
         double e0 = berr(mu0);
         U->barrier_tol_factor_ = ri(0, 2) ? e0 / mu0 * fs[ri(0, 7)] : 0.5 * ri(1, 40);
         if( !(U->barrier_tol_factor_ > 0.) ) { U->barrier_tol_factor_ = 10.; }
         double cs = std::fabs(F.nlp->NLP_scaling()->apply_obj_scaling(U->compl_inf_tol_));
         double floor_ = std::max(U->mu_target_, std::min(F.data->tol_, cs) / (U->barrier_tol_factor_ + 1.));
         auto next = [&](double mu) { return std::max(std::min(U->mu_linear_decrease_factor_ * mu, std::pow(mu, U->mu_superlinear_decrease_power_)), floor_); };
         auto tauof = [&](double mu) { return std::max(U->tau_min_, 1. - mu); };
         if( ri(0, 5) == 0 ) { mu0 = ri(0, 1) ? floor_ : floor_ * (ri(0, 1) ? 1.5 : 0.5); F.data->Set_mu(mu0); e0 = berr(mu0); }
         // oracle
         double mu = mu0, tau = tau0;
         bool texc = false, t2 = tiny, nodec = U->initialized_ && !U->mu_allow_fast_monotone_decrease_;
         bool need = (e0 <= U->barrier_tol_factor_ * mu0 || tiny) && !U->first_iter_resto_;
         if( need )
         {
            if( tiny && next(mu0) == mu0 ) { texc = true; }
            else
            {
               for( int q = 0; q < 100000; q++ )
               {
                  double nm = next(mu);
                  bool ch = nm != mu;
                  mu = nm; tau = tauof(mu);
                  if( nodec || !ch || berr(mu) > U->barrier_tol_factor_ * mu ) { break; }
               }
            }
         }
         (void) t2;
         double x0 = asum(dv(*F.data->curr()->x())), z0 = asum(dv(*F.data->curr()->z_L()));
         setcase("update", "mu=" + S(mu0) + " tau=" + S(tau0) + " error/(kappa mu)=" + S(e0 / (U->barrier_tol_factor_ * mu0)) + " factor=" + S(U->barrier_tol_factor_) + " tiny=" + S(tiny) + " floor=" + S(floor_) + " target=" + S(U->mu_target_) + " tol=" + S(F.data->tol_) + " compl=" + S(U->compl_inf_tol_) + " lin=" + S(U->mu_linear_decrease_factor_) + " pow=" + S(U->mu_superlinear_decrease_power_) + " tau_min=" + S(U->tau_min_) + " initialized=" + S(U->initialized_) + " fast=" + S(U->mu_allow_fast_monotone_decrease_) + " first resto=" + S(U->first_iter_resto_) + " expected mu=" + S(mu));
         int r0 = ls->resets;
         bool exc = false, ret = false;
         F.data->Set_mu(mu0);
         try { ret = U->UpdateBarrierParameter(); }
         catch( IpoptException& e ) { exc = true; }
         chk(exc == texc, exc ? "unexpected exception" : "tiny step without possible change of mu must be reported");
         if( exc ) { chk(F.data->curr_mu() == mu0 && ls->resets == r0, "state after tiny step"); GROUPS["tiny step reported"]++; continue; }
         chk(ret, "success");
         if( !nearly(F.data->curr_mu(), mu) ) { fail("mu is " + S(F.data->curr_mu()) + ", expected " + S(mu)); }
         if( !nearly(F.data->curr_tau(), tau) ) { fail("tau is " + S(F.data->curr_tau()) + ", expected " + S(tau)); }
         chk(!F.data->tiny_step_flag(), "tiny step flag is consumed");
         chk(U->initialized_ && !U->first_iter_resto_, "flags");
         if( mu != mu0 )
         {
            GROUPS["mu changed"]++;
            if( ls->resets != r0 + 1 ) { fail("line search was reset " + S(ls->resets - r0) + " times after mu was changed"); }
            chk(ls->mu == F.data->curr_mu(), "line search is reset with the final mu in place");
         }
         else { GROUPS["mu unchanged"]++; chk(ls->resets == r0, "no reset if mu does not change"); }
         chk(mu0 < floor_ || F.data->curr_mu() <= mu0, "mu never increases");
         chk(!need || F.data->curr_mu() >= floor_, "mu is not below its floor");
         chk(asum(dv(*F.data->curr()->x())) == x0 && asum(dv(*F.data->curr()->z_L())) == z0, "the iterate is unchanged");
      }
   }
   return h_done();
}
