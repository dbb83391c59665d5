// run-time contracts of the termination tests
#include "fix.hpp"
#include "IpOptErrorConvCheck.hpp"

static double pick(double v, double tolscale = 1.)
{
   static const double f[] = {0.25, 0.5, 0.999, 1., 1.001, 2., 4., 1000.};
   return v * f[ri(0, 7)] * tolscale;
}

int main()
{
   h_init();
   int NP = THOROUGH ? 60 : 6, NK = THOROUGH ? 4000 : 1200;
   for( int p = 0; p < NP; p++ )
   {
      int n = p == 0 ? 1 : ri(1, 6), m = p == 0 ? 0 : ri(0, 4);
      SmartPtr<PNLP> t = randproblem(n, m);
      Fix F(t);
      F.num("acceptable_obj_change_tol", 0.5);
      setcase("setup", "");
      chk(F.start(), "objects are set up");
      OptimalityErrorConvergenceCheck* C = dynamic_cast<OptimalityErrorConvergenceCheck*>(GetRawPtr(F.alg->conv_check_));
      chk(C != NULL, "standard convergence check");
      chk(C->max_iterations_ == 0 && C->acceptable_obj_change_tol_ == 0.5 && C->acceptable_iter_ == 15 && C->acceptable_tol_ == 1e-6 && C->dual_inf_tol_ == 1. && C->constr_viol_tol_ == 1e-4 && C->compl_inf_tol_ == 1e-4
          && C->acceptable_dual_inf_tol_ == 1e10 && C->acceptable_constr_viol_tol_ == 1e-2 && C->acceptable_compl_inf_tol_ == 1e-2 && C->diverging_iterates_tol_ == 1e20 && C->mu_target_ == 0. && C->max_cpu_time_ == 1e20 && C->max_wall_time_ == 1e20, "options are read into the right parameters");
      int cnt = 0;
      double last = -1e50, cur = -1e50;
      int lastit = -1;
      C->acceptable_counter_ = 0; C->curr_obj_val_ = -1e50; C->last_obj_val_iter_ = -1;
      int iter = 0;
      for( int k = 0; k < NK; k++ )
      {
         if( ri(0, 3) == 0 ) { moveiterate(F, rpos()); }
         if( ri(0, 3) ) { iter++; }
         F.data->Set_iter_count(iter);
         F.data->curr_mu_ = rpos();
         C->mu_target_ = ri(0, 2) == 0 ? 0. : rpos();
         double err = F.cq->curr_nlp_error(), du = F.cq->unscaled_curr_dual_infeasibility(NORM_MAX), pr = F.cq->unscaled_curr_nlp_constraint_violation(NORM_MAX), co = F.cq->unscaled_curr_complementarity(C->mu_target_, NORM_MAX);
         double f = F.cq->curr_f(), ax = F.data->curr()->x()->Amax();
         auto tols = [&](double& a, double& b, double& c, double& d)
         {
            a = pick(err); b = pick(du); c = pick(pr); d = pick(co);
            int w = ri(0, 7);
            // often leave only one of the tolerances unsatisfied, or none
            if( w < 6 )
            {
               a = err * 2.; b = du * 2.; c = pr * 2.; d = co * 2.;
               if( w == 0 ) { a = err / 2.; } if( w == 1 ) { b = du / 2.; } if( w == 2 ) { c = pr / 2.; } if( w == 3 ) { d = co / 2.; }
            }
         };
         double tol;
         tols(tol, C->dual_inf_tol_, C->constr_viol_tol_, C->compl_inf_tol_);
         if( ri(0, 3) ) { tol = err / 2.; }
         F.data->tol_ = tol;
         tols(C->acceptable_tol_, C->acceptable_dual_inf_tol_, C->acceptable_constr_viol_tol_, C->acceptable_compl_inf_tol_);
         if( ri(0, 1) ) { C->acceptable_tol_ = 2. * err; C->acceptable_dual_inf_tol_ = 2. * du; C->acceptable_constr_viol_tol_ = 2. * pr; C->acceptable_compl_inf_tol_ = 2. * co; }
         C->acceptable_obj_change_tol_ = ri(0, 2) ? 1e20 : 0.25 * rpos();
         C->acceptable_iter_ = ri(0, 5);
         C->diverging_iterates_tol_ = ri(0, 5) ? 1e20 : pick(ax);
         C->max_iterations_ = ri(0, 5) ? 1000000 : iter + ri(-1, 1);
         int ct = ri(0, 8), wt = ri(0, 8);
         double cpu0 = F.data->TimingStats().OverallAlgorithm().StartCpuTime(), wall0 = F.data->TimingStats().OverallAlgorithm().StartWallclockTime();
         C->max_cpu_time_ = ct == 0 ? 1e-9 : ct == 1 ? 1e10 : ct == 2 ? 2e20 : 1e20;
         C->max_wall_time_ = wt == 0 ? 1e-9 : wt == 1 ? 1e10 : wt == 2 ? 2e20 : 1e20;
         bool usecb = ri(0, 1), cont = ri(0, 3) != 0;
         int calls = 0;
         AlgorithmMode gm = RestorationPhaseMode;
         t->cb = [&](PNLP&, AlgorithmMode mode, int, const IpoptData* dd, IpoptCalculatedQuantities* q) { calls++; gm = mode; chk(dd == F.data && q == F.cq, "callback objects"); return cont; };
         double x0 = asum(dv(*F.data->curr()->x())), z0 = asum(dv(*F.data->curr()->z_L())), y0 = asum(dv(*F.data->curr()->y_c()));
         const IteratesVector* cp = GetRawPtr(F.data->curr());
         std::string desc = "iter=" + S(iter) + " err/tol=" + S(err / tol) + " du=" + S(du / C->dual_inf_tol_) + " pr=" + S(pr) + "/" + S(C->constr_viol_tol_) + " co=" + S(co / C->compl_inf_tol_) + " acc: " + S(err / C->acceptable_tol_) + " " + S(du / C->acceptable_dual_inf_tol_) + " "
                            + S(pr) + "/" + S(C->acceptable_constr_viol_tol_) + " " + S(co / C->acceptable_compl_inf_tol_) + " objtol " + S(C->acceptable_obj_change_tol_) + " need " + S(C->acceptable_iter_) + " have " + S(cnt) + " div " + S(ax) + "/" + S(C->diverging_iterates_tol_) + " maxit " + S(C->max_iterations_);
         setcase("convergence check", desc);
         ConvergenceCheck::ConvergenceStatus got = C->CheckConvergence(usecb), want = ConvergenceCheck::CONTINUE;
         auto expect = [&]()
         {
            if( usecb && !cont ) { return ConvergenceCheck::USER_STOP; }
            if( err <= tol && du <= C->dual_inf_tol_ && pr <= C->constr_viol_tol_ && co <= C->compl_inf_tol_ ) { return ConvergenceCheck::CONVERGED; }
            bool acc = false;
            if( C->acceptable_iter_ > 0 )
            {
               if( iter != lastit ) { last = cur; cur = f; lastit = iter; }
               acc = err <= C->acceptable_tol_ && du <= C->acceptable_dual_inf_tol_ && pr <= C->acceptable_constr_viol_tol_ && co <= C->acceptable_compl_inf_tol_ && std::fabs(cur - last) / std::max(1., std::fabs(cur)) <= C->acceptable_obj_change_tol_;
            }
            cnt = acc ? cnt + 1 : 0;
            if( acc && cnt >= C->acceptable_iter_ ) { return ConvergenceCheck::CONVERGED_TO_ACCEPTABLE_POINT; }
            if( ax > C->diverging_iterates_tol_ ) { return ConvergenceCheck::DIVERGING; }
            if( iter >= C->max_iterations_ ) { return ConvergenceCheck::MAXITER_EXCEEDED; }
            if( ct == 0 ) { return ConvergenceCheck::CPUTIME_EXCEEDED; }
            if( wt == 0 ) { return ConvergenceCheck::WALLTIME_EXCEEDED; }
            return ConvergenceCheck::CONTINUE;
         };
         want = expect();
         (void) cpu0; (void) wall0;
         GROUPS["status " + S(got)]++;
         if( got != want ) { fail("status " + S(got) + ", expected " + S(want)); }
         chk(calls == (usecb ? 1 : 0), "callback exactly when requested");
         if( usecb )
         {
            chk(gm == RegularMode, "callback mode");
            eq("objective passed to the callback", t->cbargs[0], F.cq->unscaled_curr_f());
            eq("mu passed to the callback", t->cbargs[3], F.data->curr_mu());
            eq("iteration passed to the callback", t->cbargs[9], iter);
            eq("inf_pr passed to the callback", t->cbargs[1], F.cq->curr_primal_infeasibility(NORM_MAX));
            eq("inf_du passed to the callback", t->cbargs[2], F.cq->curr_dual_infeasibility(NORM_MAX));
            eq("alpha_du passed to the callback", t->cbargs[6], F.data->info_alpha_dual());
            eq("alpha_pr passed to the callback", t->cbargs[7], F.data->info_alpha_primal());
         }
         chk(C->acceptable_counter_ == cnt, "number of consecutive acceptable iterates");
         chk(GetRawPtr(F.data->curr()) == cp && asum(dv(*F.data->curr()->x())) == x0 && asum(dv(*F.data->curr()->z_L())) == z0 && asum(dv(*F.data->curr()->y_c())) == y0, "the iterate is unchanged");
         F.data->info_alpha_dual_ = rpos(); F.data->info_alpha_primal_ = rpos();
         if( ri(0, 30) == 0 )
         {
            bool r1 = C->CurrentIsAcceptable();
            if( iter != lastit ) { last = cur; cur = f; lastit = iter; }
            chk(r1 == (err <= C->acceptable_tol_ && du <= C->acceptable_dual_inf_tol_ && pr <= C->acceptable_constr_viol_tol_ && co <= C->acceptable_compl_inf_tol_ && std::fabs(cur - last) / std::max(1., std::fabs(cur)) <= C->acceptable_obj_change_tol_), "acceptable test");
         }
      }
      t->cb = nullptr;
   }
   // no free variable
   for( int k = 0; k < 4; k++ )
   {
      SmartPtr<PNLP> t = new PNLP(1, k == 3 ? 0 : 1);
      t->xl[0] = t->xu[0] = t->x0[0] = 2.;
      if( t->m ) { t->A[0][0] = 1.; t->gl[0] = k == 0 ? 2. : -1e20; t->gu[0] = k == 1 ? 1. : (k == 0 ? 2. : 5.); }
      Fix F(t);
      setcase("no free variable", "case " + S(k));
      ApplicationReturnStatus r = F.solve();
      chk(k == 1 ? r == Infeasible_Problem_Detected : r == Solve_Succeeded, "status " + S(r));
   }
   return h_done();
}
