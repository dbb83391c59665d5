// run-time contracts of the filter and of the acceptance tests of the filter line search
#include "fix.hpp"
#include "IpFilter.hpp"
#include "IpFilterLSAcceptor.hpp"
#include "IpBacktrackingLineSearch.hpp"
#include "IpRestoMinC_1Nrm.hpp"
#include "IpRestoFilterConvCheck.hpp"
#include "IpPDFullSpaceSolver.hpp"

static const double EPS = std::numeric_limits<double>::epsilon();

static void filterclass()
{
   int N = THOROUGH ? 4000 : 500;
   for( int c = 0; c < N; c++ )
   {
      int dim = c % 4 == 3 ? ri(1, 4) : 2;
      Filter f(dim);
      std::vector<VD> E;
      int len = ri(1, 40);
      std::string h;
      for( int s = 0; s < len; s++ )
      {
         VD v(dim);
         for( double& x : v ) { x = ri(0, 2) ? ri(0, 5) : rval(); }
         int op = ri(0, 9);
         bool two = dim == 2 && ri(0, 1);
         if( op < 6 )
         {
            bool want = true;
            for( auto& e : E ) { bool all = true; for( int i = 0; i < dim; i++ ) { all = all && v[i] > e[i]; } want = want && !all; }
            setcase("Filter::Acceptable", h + " ? " + S(v));
            bool got = two ? f.Acceptable(v[0], v[1]) : f.Acceptable(v);
            chk(got == want, got ? "point dominated by an entry in every coordinate was accepted" : "point not worse than any entry was rejected");
         }
         else if( op < 9 )
         {
            setcase("Filter::AddEntry", h + " + " + S(v));
            if( two ) { f.AddEntry(v[0], v[1], s); } else { f.AddEntry(v, s); }
            std::vector<VD> R;
            for( auto& e : E ) { bool dom = true; for( int i = 0; i < dim; i++ ) { dom = dom && v[i] <= e[i]; } if( !dom ) { R.push_back(e); } }
            R.push_back(v);
            E = R;
            h += S(v);
         }
         else
         {
            setcase("Filter::Clear", h);
            f.Clear();
            E.clear();
            h = "";
         }
      }
   }
}

struct Unclear { };
struct Oracle
{
   double tmaxf, tminf, eta, delta, sphi, stheta, gphi, gtheta, amin, incmax;
   int maxres, trig;
   double rt = 0, rb = 0, rg = 0, wt = 0, wb = 0, wg = 0, tmax = -1., tmin = -1.;
   std::vector<std::pair<double, double>> E;
   bool last = false;
   int cnt = 0, nres = 0;
   // a <= b, undecided if they agree up to rounding
   static bool le(double a, double b)
   {
      if( a != b && std::fabs(a - b) <= 1e-11 * std::max(std::fabs(a), std::fabs(b)) ) { throw Unclear(); }
      return a <= b;
   }
   static bool lt(double a, double b)
   {
      if( a != b && std::fabs(a - b) <= 1e-11 * std::max(std::fabs(a), std::fabs(b)) ) { throw Unclear(); }
      return a < b;
   }
   static bool cle(double a, double b, double base)
   {
      double d = a - b, t = 10. * EPS * std::fabs(base), u = 4. * EPS * (std::fabs(a) + std::fabs(b) + std::fabs(base));
      if( std::fabs(d - t) <= u && d != t ) { throw Unclear(); }
      return d <= t;
   }
   double gc() const { return (rt == 0. && rg > 0. && rg < 100. * EPS) ? -EPS : rg; }
   bool ftype(double a, double g) const { return g < 0. && lt(delta * std::pow(rt, stheta), a * std::pow(-g, sphi)); }
   bool armijo(double a, double g, double tb) const
   {
      double d = tb - rb, r = eta * a * g, t = 10. * EPS * std::fabs(rb);
      if( std::fabs(d - r - t) <= 4. * EPS * (std::fabs(tb) + std::fabs(rb) + std::fabs(r)) ) { throw Unclear(); }
      return d - r <= t;
   }
   bool curit(double tb, double tt, bool resto) const
   {
      if( !resto && tb > rb )
      {
         double base = std::fabs(rb) > 10. ? std::log10(std::fabs(rb)) : 1.;
         if( lt(incmax + base, std::log10(tb - rb)) ) { return false; }
      }
      if( cle(tt, (1. - gtheta) * rt, rt) ) { return true; }
      double d = tb - rb, r = -gphi * rt, t = 10. * EPS * std::fabs(rb);
      if( std::fabs(d - r - t) <= 4. * EPS * (std::fabs(tb) + std::fabs(rb) + std::fabs(r)) ) { throw Unclear(); }
      return d - r <= t;
   }
   bool filt(double tb, double tt) const
   {
      bool ok = true;
      for( auto& e : E ) { ok = ok && (le(tb, e.first) || le(tt, e.second)); }
      return ok;
   }
   bool check(double a, double tb, double tt)
   {
      Oracle o = *this;
      if( o.tmax < 0. ) { o.tmax = tmaxf * std::max(1., rt); }
      if( o.tmin < 0. ) { o.tmin = tminf * std::max(1., rt); }
      if( o.tmax > 0. && lt(o.tmax, tt) ) { *this = o; return false; }
      double g = rg;
      bool ft = false;
      if( a > 0. ) { g = o.rg = gc(); ft = ftype(a, g); }
      bool acc = ft && le(rt, o.tmin) ? armijo(a, g, tb) : curit(tb, tt, false);
      if( !acc ) { o.last = false; *this = o; return false; }
      if( !filt(tb, tt) ) { o.last = true; *this = o; return false; }
      if( maxres > 0 && nres < maxres )
      {
         if( last )
         {
            o.cnt++;
            if( o.cnt >= trig ) { o.E.clear(); o.cnt = 0; o.nres++; }
         }
         else { o.cnt = 0; }
      }
      o.last = false;
      *this = o;
      return true;
   }
   void augment()
   {
      double p = rb - gphi * rt, t = (1. - gtheta) * rt;
      std::vector<std::pair<double, double>> R;
      for( auto& e : E ) { if( !(le(p, e.first) && le(t, e.second)) ) { R.push_back(e); } }
      R.push_back(std::make_pair(p, t));
      E = R;
   }
   std::string txt() const { return "theta_ref=" + S(rt) + " phi_ref=" + S(rb) + " slope=" + S(rg) + " theta_max=" + S(tmax) + " theta_min=" + S(tmin) + " entries=" + S((double) E.size()) + " last=" + S(last) + " count=" + S(cnt) + " resets=" + S(nres); }
};

static void options(Fix& F, Oracle& o, bool mild)
{
   if( mild )
   {
      o.tmaxf = 1e4; o.tminf = 1e-4; o.eta = 1e-8; o.delta = 1.; o.sphi = 2.3; o.stheta = 1.1; o.gphi = 1e-8; o.gtheta = 1e-5; o.amin = 0.05; o.incmax = 5.; o.maxres = ri(0, 3); o.trig = ri(1, 3);
      if( ri(0, 1) ) { o.gphi = 0.01; o.gtheta = 0.1; o.eta = 0.1; o.tminf = 0.5; }
   }
   else
   {
      o.tmaxf = ri(0, 1) ? 1e4 : 1.5 + rd01(); o.tminf = ri(0, 1) ? 1e-4 : 0.5 + 0.5 * rd01(); o.eta = ri(0, 1) ? 1e-4 : 0.45 * rd01() + 1e-3; o.delta = rpos(); o.sphi = 1.1 + rd01() * 2.; o.stheta = 1.1 + rd01();
      o.gphi = ri(0, 1) ? 1e-8 : 0.9 * rd01() + 0.01; o.gtheta = ri(0, 1) ? 1e-5 : 0.9 * rd01() + 0.01; o.amin = 0.05 + 0.9 * rd01(); o.incmax = 1.01 + 2. * rd01(); o.maxres = ri(0, 3); o.trig = ri(1, 3);
   }
   F.num("theta_max_fact", o.tmaxf); F.num("theta_min_fact", o.tminf); F.num("eta_phi", o.eta); F.num("delta", o.delta); F.num("s_phi", o.sphi); F.num("s_theta", o.stheta);
   F.num("gamma_phi", o.gphi); F.num("gamma_theta", o.gtheta); F.num("alpha_min_frac", o.amin); F.num("obj_max_inc", o.incmax); F.in("max_filter_resets", o.maxres); F.in("filter_reset_trigger", o.trig);
   // options are stored as text: use the values that will be read
   auto get = [&](const char* n) { Number v; F.app->Options()->GetNumericValue(n, v, ""); return v; };
   o.tmaxf = get("theta_max_fact"); o.tminf = get("theta_min_fact"); o.eta = get("eta_phi"); o.delta = get("delta"); o.sphi = get("s_phi"); o.stheta = get("s_theta");
   o.gphi = get("gamma_phi"); o.gtheta = get("gamma_theta"); o.amin = get("alpha_min_frac"); o.incmax = get("obj_max_inc");
}

static void randdelta(Fix& F, double size)
{
   SmartPtr<IteratesVector> d = F.data->curr()->MakeNewIteratesVectorCopy();
   auto rnd = [&](Vector& v) { VD a = dv(v); for( double& q : a ) { q = (rd01() - 0.5) * size; } setv(v, a); };
   rnd(*d->x_NonConst()); rnd(*d->s_NonConst()); rnd(*d->y_c_NonConst()); rnd(*d->y_d_NonConst()); rnd(*d->z_L_NonConst()); rnd(*d->z_U_NonConst()); rnd(*d->v_L_NonConst()); rnd(*d->v_U_NonConst());
   F.data->set_delta(d);
}

static void newtrial(Fix& F, double big = 0.)
{
   SmartPtr<IteratesVector> it = F.data->curr()->MakeNewIteratesVectorCopy();
   int how = ri(0, 5);
   double sz = how == 0 ? 0. : how == 1 ? 1e-9 : how == 2 ? 1e-4 : big > 0. ? big : 0.3;
   VD x = dv(*it->x()), s = dv(*it->s());
   for( size_t i = 0; i < x.size(); i++ ) { x[i] += (rd01() - 0.5) * sz; }
   for( size_t i = 0; i < s.size(); i++ ) { s[i] += (rd01() - 0.5) * sz; }
   setv(*it->x_NonConst(), x); setv(*it->s_NonConst(), s);
   F.data->set_trial(it);
}

// every operation against the definition, on arbitrary iterates, steps and histories
static void acceptor()
{
   int NP = THOROUGH ? 60 : 24, NK = THOROUGH ? 1500 : 600;
   for( int p = 0; p < NP; p++ )
   {
      int n = ri(1, 5), m = p % 4 == 3 ? 0 : ri(0, 4);
      SmartPtr<PNLP> t = randproblem(n, m);
      Fix F(t);
      Oracle o;
      options(F, o, p % 3 == 0);
      setcase("setup", "");
      F.start();
      SmartPtr<FilterLSAcceptor> A = new FilterLSAcceptor(NULL);
      SmartPtr<OptionsList> opt = new OptionsList(*F.app->Options());
      opt->SetIntegerValue("max_soc", 0);
      chk(A->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *opt, ""), "initialisation");
      randdelta(F, 1.);
      newtrial(F);
      auto init = [&](bool w) { o.rt = w ? o.wt : F.cq->curr_constraint_violation(); o.rb = w ? o.wb : F.cq->curr_barrier_obj(); o.rg = w ? o.wg : F.cq->curr_gradBarrTDelta(); };
      A->InitThisLineSearch(false); init(false);
      bool havewd = false;
      for( int k = 0; k < NK; k++ )
      {
         // steered: a trial point that only the filter rejects, then one that is accepted
         if( k % 12 == 11 )
         {
            if( k % 5 == 0 ) { o.E.clear(); o.last = false; o.cnt = 0; A->Reset(); }
            for( int phase = 0; phase < 3; phase++ )
            {
               bool found = false;
               for( int q = 0; q < 25 && !found; q++ )
               {
                  if( phase == 0 ) { moveiterate(F, rpos()); randdelta(F, 1.); }
                  newtrial(F, phase == 0 ? 0.1 : 3.);
                  if( phase == 0 )
                  {
                     A->InitThisLineSearch(false); init(false);
                     Oracle z = o;
                     try { o.augment(); } catch( Unclear& ) { o = z; continue; }
                     A->PrepareRestoPhaseStart();
                     moveiterate(F, 3. * rpos()); randdelta(F, 1.); newtrial(F, 3.);
                     A->InitThisLineSearch(false); init(false);
                     found = true;
                     continue;
                  }
                  double tb = F.cq->trial_barrier_obj(), tt = F.cq->trial_constraint_violation();
                  if( !std::isfinite(tb) ) { continue; }
                  Oracle z = o;
                  bool w;
                  try { w = z.check(0.5, tb, tt); } catch( Unclear& ) { continue; }
                  if( phase == 1 ? (w || !z.last) : !w ) { continue; }
                  found = true;
                  setcase("filter reset heuristic", "phi=" + S(tb) + " theta=" + S(tt) + " " + o.txt());
                  chk(A->CheckAcceptabilityOfTrialPoint(0.5) == w, w ? "acceptable trial point was rejected" : "trial point was accepted that the filter rejects");
                  if( z.nres != o.nres ) { GROUPS["filter resets"]++; }
                  o = z;
                  // the filter contents show
                  for( int c = 0; c < 4; c++ )
                  {
                     double b2 = o.rb + rval() * rpos(), t2 = o.rt + std::fabs(rval());
                     if( c == 0 ) { b2 = o.rb + 1e6; t2 = 1e6; }
                     try { bool w2 = o.filt(b2, t2); chk(A->IsAcceptableToCurrentFilter(b2, t2) == w2, "contents of the filter"); } catch( Unclear& ) { }
                  }
               }
               if( !found ) { break; }
            }
            newtrial(F);
            continue;
         }
         int op = ri(0, 19);
         static const double al[] = {1., 0.5, 0.25, 1e-3, 1e-8, 0., 0.9};
         double a = al[ri(0, 6)];
         Oracle o0 = o;
         try
         {
            if( op < 9 )
            {
               newtrial(F);
               double tb = F.cq->trial_barrier_obj(), tt = F.cq->trial_constraint_violation();
               if( !std::isfinite(tb) ) { continue; }
               bool want = o.check(a, tb, tt);
               setcase("CheckAcceptabilityOfTrialPoint", "alpha=" + S(a) + " phi=" + S(tb) + " theta=" + S(tt) + " " + o0.txt());
               bool got = A->CheckAcceptabilityOfTrialPoint(a);
               GROUPS[want ? "trial accepted" : "trial rejected"]++;
               chk(got == want, got ? "trial point was accepted that does not satisfy the acceptance conditions" : "trial point satisfying the acceptance conditions was rejected");
            }
            else if( op == 9 || op == 10 )
            {
               double tb = F.cq->trial_barrier_obj();
               double g = o.gc();
               bool f = o.ftype(a, g) && o.armijo(a, g, tb);
               o.rg = g;
               if( !f ) { o.augment(); }
               setcase("UpdateForNextIteration", "alpha=" + S(a) + " phi=" + S(tb) + " " + o0.txt());
               char c = A->UpdateForNextIteration(a);
               chk(c == (f ? 'f' : 'h'), "type of the accepted step");
               GROUPS[f ? "f-type" : "h-type"]++;
            }
            else if( op == 11 ) { moveiterate(F, rpos() * (ri(0, 1) ? 1e-3 : 1.)); newtrial(F); randdelta(F, ri(0, 3) ? 1. : 1e-3); A->InitThisLineSearch(false); init(false); if( ri(0, 3) == 0 && !THOROUGH ) { F.data->Set_mu(std::pow(10., -ri(0, 6))); } }
            else if( op == 12 )
            {
               // slope close to zero
               randdelta(F, 1.);
               double g = F.cq->curr_gradBarrTDelta();
               if( g != 0. )
               {
                  SmartPtr<IteratesVector> d = F.data->delta()->MakeNewIteratesVectorCopy();
                  static const double tg[] = {50., 99., 101., -50., -1e6, 1e-3};
                  d->Scal(tg[ri(0, 5)] * EPS / g);
                  F.data->set_delta(d);
                  A->InitThisLineSearch(false); init(false);
               }
            }
            else if( op == 13 ) { o.augment(); setcase("PrepareRestoPhaseStart", o0.txt()); A->PrepareRestoPhaseStart(); }
            else if( op == 14 && ri(0, 3) == 0 ) { o.E.clear(); o.last = false; o.cnt = 0; setcase("Reset", o0.txt()); A->Reset(); }
            else if( op == 15 ) { o.wt = F.cq->curr_constraint_violation(); o.wb = F.cq->curr_barrier_obj(); o.wg = F.cq->curr_gradBarrTDelta(); havewd = true; setcase("StartWatchDog", ""); A->StartWatchDog(); }
            else if( op == 16 && havewd ) { setcase("StopWatchDog", ""); if( ri(0, 1) ) { A->StopWatchDog(); } else { A->InitThisLineSearch(true); } init(true); }
            else if( op == 17 )
            {
               double gBD = F.cq->curr_gradBarrTDelta(), th = F.cq->curr_constraint_violation(), w = o.gtheta;
               if( gBD < 0. )
               {
                  w = std::min(w, o.gphi * th / -gBD);
                  if( th <= o.tmin ) { w = std::min(w, o.delta * std::pow(th, o.stheta) / std::pow(-gBD, o.sphi)); }
               }
               setcase("CalculateAlphaMin", o0.txt());
               eq("minimal step size", A->CalculateAlphaMin(), o.amin * w, 0.);
            }
            else
            {
               double tb = o.rb + rval() * (ri(0, 1) ? 1. : 1e-6), tt = std::fabs(rval());
               if( ri(0, 2) == 0 && !o.E.empty() ) { auto& e = o.E[ri(0, o.E.size() - 1)]; tb = e.first + (ri(0, 2) - 1) * 1e-3; tt = std::fabs(e.second + (ri(0, 2) - 1) * 1e-3); }
               if( ri(0, 5) == 0 ) { tb = o.rb + std::pow(10., ri(-2, 9)); }
               if( ri(0, 1) )
               {
                  bool w = o.filt(tb, tt);
                  setcase("IsAcceptableToCurrentFilter", "phi=" + S(tb) + " theta=" + S(tt) + " " + o0.txt());
                  chk(A->IsAcceptableToCurrentFilter(tb, tt) == w, "test against the filter");
               }
               else
               {
                  bool r = ri(0, 1), w = o.curit(tb, tt, r);
                  setcase("IsAcceptableToCurrentIterate", "phi=" + S(tb) + " theta=" + S(tt) + " restoration=" + S(r) + " " + o0.txt());
                  chk(A->IsAcceptableToCurrentIterate(tb, tt, r) == w, "test against the current iterate");
                  if( ri(0, 1) ) { double tb2 = tb; bool w2 = o.curit(tb2, tt, false); chk(A->IsAcceptableToCurrentIterate(tb2, tt) == w2, "test against the current iterate (default argument)"); }
               }
            }
         }
         catch( Unclear& ) { o = o0; if( op == 13 ) { o.E.clear(); A->Reset(); o.last = false; o.cnt = 0; } }
         if( ri(0, 99) == 0 ) { A->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *opt, ""); o.tmax = o.tmin = -1.; o.E.clear(); o.last = false; o.cnt = o.nres = 0; }
      }
   }
}

// the line search of real solves: every decision is compared with the definition
struct Spy: public FilterLSAcceptor
{
   Oracle o;
   bool sync = true;
   long checks = 0, acc = 0;
   // the point that was accepted last
   bool ok = false;
   VD okx;
   Spy(const SmartPtr<PDSystemSolver>& s, const Oracle& o_) : FilterLSAcceptor(s), o(o_) { }
   void InitThisLineSearch(bool w)
   {
      FilterLSAcceptor::InitThisLineSearch(w);
      o.rt = w ? o.wt : IpCq().curr_constraint_violation(); o.rb = w ? o.wb : IpCq().curr_barrier_obj(); o.rg = w ? o.wg : IpCq().curr_gradBarrTDelta();
      ok = false;
   }
   void StartWatchDog() { FilterLSAcceptor::StartWatchDog(); o.wt = IpCq().curr_constraint_violation(); o.wb = IpCq().curr_barrier_obj(); o.wg = IpCq().curr_gradBarrTDelta(); GROUPS["solve: watchdog"]++; }
   void StopWatchDog() { FilterLSAcceptor::StopWatchDog(); o.rt = o.wt; o.rb = o.wb; o.rg = o.wg; }
   void Reset() { FilterLSAcceptor::Reset(); o.E.clear(); o.last = false; o.cnt = 0; if( !sync && !incheck ) { sync = true; } }
   bool incheck = false;
   bool CheckAcceptabilityOfTrialPoint(Number a)
   {
      double tt = IpCq().trial_constraint_violation(), tb = IpCq().trial_barrier_obj();
      Oracle q = o;
      bool w = false, known = sync;
      try { w = q.check(a, tb, tt); } catch( Unclear& ) { known = false; }
      setcase("solve: acceptance test", "alpha=" + S(a) + " phi=" + S(tb) + " theta=" + S(tt) + " " + o.txt());
      incheck = true;
      bool g = FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(a);
      incheck = false;
      if( known ) { chk(g == w, g ? "trial point was accepted that does not satisfy the acceptance conditions" : "trial point satisfying the acceptance conditions was rejected"); o = q; }
      else { sync = false; }
      ok = g;
      if( g ) { okx = dv(*IpData().trial()->x()); }
      return g;
   }
   char UpdateForNextIteration(Number a)
   {
      bool known = sync, f = false;
      Oracle q = o;
      try { double tb = IpCq().trial_barrier_obj(), g = q.gc(); f = q.ftype(a, g) && q.armijo(a, g, tb); q.rg = g; if( !f ) { q.augment(); } } catch( Unclear& ) { known = false; }
      setcase("solve: end of line search", "alpha=" + S(a) + " " + o.txt());
      char c = FilterLSAcceptor::UpdateForNextIteration(a);
      if( known ) { chk(c == (f ? 'f' : 'h'), "type of the accepted step"); o = q; } else { sync = false; }
      return c;
   }
   void PrepareRestoPhaseStart()
   {
      try { o.augment(); } catch( Unclear& ) { sync = false; }
      GROUPS["solve: restoration"]++;
      FilterLSAcceptor::PrepareRestoPhaseStart();
   }
};

static void solves()
{
   int NP = THOROUGH ? 600 : 120;
   for( int p = 0; p < NP; p++ )
   {
      int n = ri(2, 6), m = ri(1, 4);
      SmartPtr<PNLP> t = randproblem(n, m, false, p % 2 == 0);
      // more nonlinearity and a bad start
      for( int k = 0; k < m; k++ ) { for( auto& e : t->B[k] ) { e.v *= 4.; } for( int q = 0; q < 2; q++ ) { int i = ri(0, n - 1); t->B[k].push_back(Ent{i, i, 4. * rval()}); } }
      for( int i = 0; i < n; i++ ) { t->x0[i] += 3. * rval(); if( !(t->xl[i] > -1e19) && !(t->xu[i] < 1e19) ) { t->xl[i] = -20.; t->xu[i] = 20.; } }
      Fix F(t);
      Oracle o;
      options(F, o, p % 3 != 0);
      F.in("max_iter", 60);
      if( p % 4 == 0 ) { F.in("watchdog_shortened_iter_trigger", 2); }
      if( p % 5 == 0 ) { F.str("mu_strategy", "adaptive"); F.str("adaptive_mu_globalization", "obj-constr-filter"); }
      SmartPtr<Spy> spy;
      t->cb = [&](PNLP&, AlgorithmMode, int iter, const IpoptData*, IpoptCalculatedQuantities*)
      {
         if( !IsValid(spy) )
         {
            F.grab();
            BacktrackingLineSearch* ls = dynamic_cast<BacktrackingLineSearch*>(GetRawPtr(F.alg->line_search_));
            FilterLSAcceptor* old = ls ? dynamic_cast<FilterLSAcceptor*>(GetRawPtr(ls->acceptor_)) : NULL;
            chk(old != NULL, "the filter line search is the default");
            spy = new Spy(old->pd_solver_, o);
            spy->Initialize(*F.app->Jnlst(), *F.nlp, *F.data, *F.cq, *F.app->Options(), "");
            if( MinC_1NrmRestorationPhase* r = dynamic_cast<MinC_1NrmRestorationPhase*>(GetRawPtr(ls->resto_phase_)) )
            {
               RestoFilterConvergenceCheck* cc = dynamic_cast<RestoFilterConvergenceCheck*>(GetRawPtr(r->resto_alg_->conv_check_));
               if( cc ) { cc->orig_filter_ls_acceptor_ = GetRawPtr(spy); }
            }
            ls->acceptor_ = GetRawPtr(spy);
         }
         (void) iter;
         return true;
      };
      setcase("solve", S((double) p));
      F.solve();
      if( IsValid(spy) ) { GROUPS["solve: " + std::string(spy->sync ? "all decisions compared" : "compared until a tie")]++; }
   }
}

int main()
{
   h_init();
   filterclass();
   acceptor();
   solves();
   return h_done();
}
