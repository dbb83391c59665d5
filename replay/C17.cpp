// run-time contracts of the calculated quantities: whatever was asked before, every quantity is the one of the current iterates and mu
#include "cq.hpp"

static std::vector<CQEnt> TAB;
static std::string H;

static void perturb(IpoptCalculatedQuantities& q, CQO& o, IteratesVector& it, const IteratesVector& from, int mask, bool own)
{
   // moves x and s by less than their slacks, anything else freely (bound multipliers stay positive)
   auto step = [&](int k, const VD& x)
   {
      VD lo = o.M(k, o.rawslk[k]), hi = o.M(k + 1, o.rawslk[k + 1]), hl = o.M(k, VD(o.b[k].size(), 1.)), hu = o.M(k + 1, VD(o.b[k + 1].size(), 1.)), r = x;
      for( size_t i = 0; i < x.size(); i++ )
      {
         double w = (rd01() - 0.5) * (ri(0, 4) ? 2. : 16.);
         if( w < 0. && hl[i] != 0. ) { w = std::max(w, -0.9 * lo[i]); }
         if( w > 0. && hu[i] != 0. ) { w = std::min(w, 0.9 * hi[i]); }
         r[i] += w;
      }
      return r;
   };
   for( int k = 0; k < 8; k++ )
   {
      if( !(mask & (1 << k)) ) { continue; }
      SmartPtr<const Vector> f = from.GetComp(k);
      SmartPtr<Vector> v = own ? it.GetCompNonConst(k) : f->MakeNew();
      VD w = dv(*f);
      if( k == 0 ) { w = step(0, w); }
      else if( k == 1 ) { w = step(2, w); }
      else { for( double& e : w ) { e = k >= 4 ? 0.05 + rd01() * (ri(0, 3) ? 2. : 300.) : (rd01() - 0.5) * (ri(0, 3) ? 4. : 1000.); } }
      put_all(*v, w);
      if( !own ) { it.SetComp(k, *v); }
   }
}

static void history(IpoptCalculatedQuantities& q, int steps, const char* grp)
{
   IpoptData& d = *q.ip_data_;
   H = "";
   auto say = [&](const std::string& s) { H += s + "; "; if( H.size() > 4000 ) { H = H.substr(H.size() - 3000); } };
   SmartPtr<IteratesVector> tr;
   for( int k = 0; k < steps; k++ )
   {
      setcase(grp, H);
      int w = ri(0, 9);
      bool ht = IsValid(d.trial());
      if( !ht || w <= 1 )
      {
         CQO o(q, false);
         int mask = ri(0, 2) ? ri(1, 255) : 255;
         tr = d.curr()->MakeNewContainer();
         perturb(q, o, *tr, *d.curr(), mask, false);
         SmartPtr<IteratesVector> tt = tr;
         d.set_trial(tt);
         say("trial" + std::to_string(mask));
      }
      else if( w == 2 )
      {
         d.AcceptTrialPoint();
         tr = NULL;
         say("accept");
         CQO o(q, false);
         SmartPtr<IteratesVector> t2 = d.curr()->MakeNewContainer();
         perturb(q, o, *t2, *d.curr(), ri(0, 255), false);
         SmartPtr<IteratesVector> tt = t2;
         d.set_trial(tt);
      }
      else if( w <= 4 )
      {
         static const double mus[] = {1., 0.1, 1e-3, 1e-6, 1e-9, 10., 0.};
         double m = mus[ri(0, 5)];
         d.Set_mu(m);
         say("mu=" + S(m));
      }
      else if( w == 5 || !IsValid(d.delta()) )
      {
         SmartPtr<IteratesVector> e = d.curr()->MakeNewIteratesVector(true);
         // a new direction may share vectors with the old one
         bool part = IsValid(d.delta()) && ri(0, 2);
         int keep = part ? ri(1, 254) : 0;
         for( int i = 0; i < 8; i++ ) { if( keep & (1 << i) ) { e->SetComp(i, *d.delta()->GetComp(i)); continue; } VD v(e->GetComp(i)->Dim()); for( double& z : v ) { z = ri(0, 3) ? (rd01() - 0.5) * 4. : 0.; } put_all(*e->GetCompNonConst(i), v); }
         SmartPtr<const IteratesVector> ce = GetRawPtr(e);
         d.set_delta(ce);
         say("delta" + std::to_string(keep));
      }
      else if( w == 6 )
      {
         q.ResetAdjustedTrialSlacks();
         q.mu_target_ = ri(0, 1) ? 0. : 1e-3;
         say("reset");
         // the target is an option: it does not change during a run
         q.curr_nlp_error_cache_.Clear(); q.unscaled_curr_nlp_error_cache_.Clear();
      }
      CQO oc(q, false), ot(q, true);
      int n = ri(1, ri(0, 4) ? 6 : (int) TAB.size());
      for( int j = 0; j < n; j++ )
      {
         const CQEnt& e = TAB[ri(0, TAB.size() - 1)];
         const CQO& o = e.trial ? ot : oc;
         if( e.slack && o.tinyslack ) { continue; }
         if( e.fld == 4 && !IsValid(d.delta()) ) { continue; }
         static const double ms[] = {0., 0.1, 1e-3, 1.};
         int nt = ri(0, 2);
         double m = e.fld == 4 ? 0.5 + 0.1 * ri(0, 5) : ri(0, 2) ? ms[ri(0, 3)] : d.curr_mu();
         std::string what = std::string(e.name) + (e.fld == 1 || e.fld == 2 ? "(norm " + std::to_string(nt) + ")" : "") + (e.fld >= 2 ? "(" + S(m) + ")" : "");
         say(what + "?");
         setcase(grp, H);
         VD a = e.got(q, nt, m), b = e.want(o, nt, m);
         if( b.empty() ) { b.assign(a.size(), 0.); }
         double sc = std::max(1., amax(b));
         bool ok = a.size() == b.size();
         for( size_t i = 0; ok && i < a.size(); i++ ) { ok = close(a[i], b[i], 1e-8) || std::fabs(a[i] - b[i]) <= 1e-9 * sc; }
         if( !ok ) { fail(what + " must be the value for the iterate and mu of this moment: got " + S(a) + ", expected " + S(b)); }
      }
   }
}

static void safeslacks(IpoptCalculatedQuantities& q, int N)
{
   SmartPtr<DenseVectorSpace> sp;
   for( int k = 0; k < N; k++ )
   {
      int n = ri(0, 4);
      sp = new DenseVectorSpace(n);
      SmartPtr<DenseVector> s = sp->MakeNewDenseVector(), b = sp->MakeNewDenseVector(), m = sp->MakeNewDenseVector();
      VD vs(n), vb(n), vm(n);
      static const double mus[] = {1., 0.1, 1e-3, 1e-9, 10., 0., 1e-300};
      double mu = mus[ri(0, 6)];
      for( int i = 0; i < n; i++ )
      {
         static const double tiny[] = {0., 1e-17, -1e-10, 1e-30, -1., 2.3e-16, 1e-320};
         vs[i] = ri(0, 2) ? 0.25 * ri(1, 8) : tiny[ri(0, 6)];
         vb[i] = (rd01() - 0.5) * (ri(0, 1) ? 1. : 100.);
         vm[i] = ri(0, 1) ? 0.1 * ri(1, 9) : ri(0, 1) ? 1e8 : 1e-12;
      }
      put(*s, vs); put(*b, vb); put(*m, vm);
      q.ip_data_->Set_mu(mu);
      setcase("tiny slacks", "mu " + S(mu) + " slacks " + S(vs) + " bounds " + S(vb) + " multipliers " + S(vm));
      SmartPtr<Vector> sl = GetRawPtr(s);
      SmartPtr<const Vector> cb = GetRawPtr(b), cm = GetRawPtr(m), cp = GetRawPtr(b);
      int r = q.CalculateSafeSlack(sl, cb, cp, cm), want = 0;
      double smin = std::numeric_limits<double>::epsilon() * std::min(1., mu);
      if( smin == 0. ) { smin = std::numeric_limits<double>::min(); }
      VD w = vs;
      for( int i = 0; i < n; i++ )
      {
         if( vs[i] < smin ) { want++; w[i] = std::min(std::max(mu / vm[i], smin), std::max(vs[i], 0.) + q.slack_move_ * std::max(1., std::fabs(vb[i]))); }
      }
      eqv("slacks after the correction", dv(*sl), w, 1e-12);
      eq("number of corrections", r, want);
      for( double e : dv(*sl) ) { chk(e > 0., "a corrected slack is positive"); }
   }
}

int main()
{
   h_init();
   TAB = cqtable();
   int NP = THOROUGH ? 90 : 24, NK = THOROUGH ? 900 : 250;
   for( int p = 0; p < NP; p++ )
   {
      int n = ri(1, 5), m = ri(0, 4);
      bool resto = p % 2;
      if( resto ) { n = ri(2, 5); m = std::max(m, 1); }
      SmartPtr<PNLP> t = randproblem(n, m, p % 3 == 0);
      if( p % 4 >= 2 )
      {
         t->user_scaling = true; t->use_xs = ri(0, 2); t->use_gs = ri(0, 4); t->obj_s = ri(0, 4) ? 0.25 * ri(1, 12) : 1.;
         for( int i = 0; i < n; i++ ) { t->xs.push_back(rpos()); }
         for( int i = 0; i < m; i++ ) { t->gs.push_back(rpos()); }
      }
      Fix F(t);
      if( t->user_scaling ) { F.str("nlp_scaling_method", "user-scaling"); }
      else if( p % 3 == 1 ) { F.str("nlp_scaling_method", "none"); }
      F.str("constraint_violation_norm_type", p % 3 == 0 ? "1-norm" : p % 3 == 1 ? "2-norm" : "max-norm");
      F.num("kappa_d", ri(0, 2) ? 1e-2 : 0.);
      F.num("s_max", ri(0, 1) ? 100. : 0.5);
      F.num("bound_relax_factor", ri(0, 2) ? 1e-3 : 0.);
      setcase("setup", std::to_string(p));
      if( !resto )
      {
         F.start();
         history(*F.cq, NK, "regular mode");
         if( p < 2 || THOROUGH ) { safeslacks(*F.cq, 2000); }
      }
      else
      {
         bool done = false;
         F.str("start_with_resto", "yes");
         F.in("max_iter", 5);
         t->cb = [&](PNLP&, AlgorithmMode mode, int, const IpoptData*, IpoptCalculatedQuantities* cq)
         {
            if( mode != RestorationPhaseMode ) { return true; }
            done = true;
            chk(cq->ip_nlp_->objective_depends_on_mu(), "the objective of the restoration phase depends on mu");
            history(*cq, NK, "restoration phase");
            return false;
         };
         F.solve();
         if( !done ) { GROUPS["no restoration"]++; }
      }
   }
   return h_done();
}
