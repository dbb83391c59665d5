// the definitions of the calculated quantities, evaluated densely and without any cache
#pragma once
#include "fix.hpp"
#include "la.hpp"
#include "IpRestoIpoptNLP.hpp"
#include "IpNLPScaling.hpp"

inline void put_all(Vector& v, const VD& r)
{
   size_t o = 0;
   if( CompoundVector* c = dynamic_cast<CompoundVector*>(&v) )
   {
      for( int i = 0; i < c->NComps(); i++ )
      {
         SmartPtr<Vector> w = c->GetCompNonConst(i);
         put_all(*w, VD(r.begin() + o, r.begin() + o + w->Dim()));
         o += w->Dim();
      }
   }
   else { put(dynamic_cast<DenseVector&>(v), r); }
}
inline MD mden(const Matrix& A, const Vector& colproto, const Vector& rowproto)
{
   SmartPtr<Vector> x = colproto.MakeNew(), y = rowproto.MakeNew();
   int n = x->Dim(), m = y->Dim();
   MD r(m, VD(n, 0.));
   for( int j = 0; j < n && m > 0; j++ )
   {
      VD e(n, 0.);
      e[j] = 1.;
      put_all(*x, e);
      y->Set(0.);
      A.MultVector(1., *x, 0., *y);
      VD c = dv(*y);
      for( int i = 0; i < m; i++ ) { r[i][j] = c[i]; }
   }
   return r;
}
inline VD vadd(const VD& a, const VD& b, double f = 1.) { VD r = a; for( size_t i = 0; i < r.size(); i++ ) { r[i] += f * b[i]; } return r; }
inline VD vmul(const VD& a, const VD& b) { VD r = a; for( size_t i = 0; i < r.size(); i++ ) { r[i] *= b[i]; } return r; }
inline double vdot(const VD& a, const VD& b) { double r = 0.; for( size_t i = 0; i < a.size(); i++ ) { r += a[i] * b[i]; } return r; }
inline double vsum(const VD& a) { double r = 0.; for( double x : a ) { r += x; } return r; }
inline double vnorm(int t, const std::vector<VD>& v)
{
   double s1 = 0., s2 = 0., s3 = 0.;
   for( auto& a : v ) { for( double x : a ) { s1 += std::fabs(x); s2 += x * x; s3 = std::max(s3, std::fabs(x)); } }
   return t == NORM_1 ? s1 : t == NORM_2 ? std::sqrt(s2) : s3;
}
inline double vftb(const VD& v, const VD& d, double tau)
{
   double a = 1.;
   for( size_t i = 0; i < v.size(); i++ ) { if( d[i] < 0. ) { a = std::min(a, -tau * v[i] / d[i]); } }
   return a;
}

struct CQO
{
   IpoptCalculatedQuantities& q;
   IpoptData& data;
   IpoptNLP& nlp;
   SmartPtr<NLPScalingObject> sc;
   bool om, orig;
   double mu;
   SmartPtr<const IteratesVector> it;
   VD x, s, yc, yd, zL, zU, vL, vU, dx, ds, dzL, dzU, dvL, dvU;
   double f;
   VD g, c, d, slk[4], rawslk[4], b[4], damp[4];
   MD P[4], Jc, Jd;
   bool tinyslack = false;

   CQO(IpoptCalculatedQuantities& q_, bool trial) : q(q_), data(*q_.ip_data_), nlp(*q_.ip_nlp_), sc(q_.ip_nlp_->NLP_scaling())
   {
      om = nlp.objective_depends_on_mu();
      orig = dynamic_cast<OrigIpoptNLP*>(&nlp) != NULL;
      mu = data.curr_mu();
      it = trial ? data.trial() : data.curr();
      x = dv(*it->x()); s = dv(*it->s()); yc = dv(*it->y_c()); yd = dv(*it->y_d());
      zL = dv(*it->z_L()); zU = dv(*it->z_U()); vL = dv(*it->v_L()); vU = dv(*it->v_U());
      if( IsValid(data.delta()) )
      {
         dx = dv(*data.delta()->x()); ds = dv(*data.delta()->s());
         dzL = dv(*data.delta()->z_L()); dzU = dv(*data.delta()->z_U()); dvL = dv(*data.delta()->v_L()); dvU = dv(*data.delta()->v_U());
      }
      SmartPtr<Vector> xc = it->x()->MakeNewCopy();
      f = om ? nlp.f(*xc, mu) : nlp.f(*xc);
      g = dv(om ? *nlp.grad_f(*xc, mu) : *nlp.grad_f(*xc));
      c = dv(*nlp.c(*xc));
      d = dv(*nlp.d(*xc));
      Jc = mden(*nlp.jac_c(*xc), *it->x(), *it->y_c());
      Jd = mden(*nlp.jac_d(*xc), *it->x(), *it->y_d());
      const Matrix* M[4] = {GetRawPtr(nlp.Px_L()), GetRawPtr(nlp.Px_U()), GetRawPtr(nlp.Pd_L()), GetRawPtr(nlp.Pd_U())};
      const Vector* B[4] = {GetRawPtr(nlp.x_L()), GetRawPtr(nlp.x_U()), GetRawPtr(nlp.d_L()), GetRawPtr(nlp.d_U())};
      const VD* mult[4] = {&zL, &zU, &vL, &vU};
      for( int k = 0; k < 4; k++ )
      {
         P[k] = mden(*M[k], *B[k], k < 2 ? *it->x() : *it->s());
         b[k] = dv(*B[k]);
         VD p = mulT(P[k], k < 2 ? x : s, b[k].size());
         rawslk[k] = vadd(p, b[k], -1.);
         if( k % 2 ) { for( double& e : rawslk[k] ) { e = -e; } }
         slk[k] = rawslk[k];
         double smin = std::numeric_limits<double>::epsilon() * std::min(1., mu);
         for( size_t i = 0; i < slk[k].size(); i++ )
         {
            if( slk[k][i] < smin )
            {
               tinyslack = true;
               slk[k][i] = std::min(std::max(mu / (*mult[k])[i], smin), std::max(slk[k][i], 0.) + q.slack_move_ * std::max(1., std::fabs(b[k][i])));
            }
         }
      }
      for( int k = 0; k < 4; k += 2 )
      {
         VD on = vadd(mul(P[k], VD(b[k].size(), 1.)), mul(P[k + 1], VD(b[k + 1].size(), 1.)), -1.);
         if( on.empty() ) { on.assign((k ? s : x).size(), 0.); }
         damp[k] = mulT(P[k], on, b[k].size());
         damp[k + 1] = mulT(P[k + 1], on, b[k + 1].size());
         for( double& e : damp[k + 1] ) { e = -e; }
      }
   }
   VD M(int k, const VD& v) const { VD r = mul(P[k], v); r.resize((k < 2 ? x : s).size(), 0.); return r; }
   VD T(int k, const VD& v) const { return mulT(P[k], v, b[k].size()); }
   double unf(double v) const { return sc->unapply_obj_scaling(v); }
   VD unc(const VD& v) const { SmartPtr<Vector> w = it->y_c()->MakeNew(); put_all(*w, v); return dv(*sc->unapply_vector_scaling_c(ConstPtr(w))); }
   VD und(const VD& v) const { SmartPtr<Vector> w = it->y_d()->MakeNew(); put_all(*w, v); return dv(*sc->unapply_vector_scaling_d(ConstPtr(w))); }
   VD apd(const VD& v) const { SmartPtr<Vector> w = it->y_d()->MakeNew(); put_all(*w, v); return dv(*sc->apply_vector_scaling_d(ConstPtr(w))); }
   VD unx(const VD& v) const { SmartPtr<Vector> w = it->x()->MakeNew(); put_all(*w, v); return dv(*sc->unapply_vector_scaling_x(ConstPtr(w))); }
   VD ungf(const VD& v) const { SmartPtr<Vector> w = it->x()->MakeNew(); put_all(*w, v); return dv(*sc->unapply_grad_obj_scaling(ConstPtr(w))); }
   const VD& mult(int k) const { return k == 0 ? zL : k == 1 ? zU : k == 2 ? vL : vU; }
   VD compl_(int k, double m = 0.) const { VD r = vmul(slk[k], mult(k)); for( double& e : r ) { e -= m; } return r; }
   double barrier() const
   {
      double r = f;
      for( int k = 0; k < 4; k++ )
      {
         for( double e : slk[k] ) { r -= mu * std::log(e); }
         if( q.kappa_d_ > 0. ) { r += q.kappa_d_ * mu * asum(vmul(slk[k], damp[k])); }
      }
      return r;
   }
   VD damping(int k, double w) const
   {
      VD r = vadd(M(k, damp[k]), M(k + 1, damp[k + 1]), -1.);
      for( double& e : r ) { e *= q.kappa_d_ > 0. ? w : 0.; }
      return r;
   }
   VD sinv(int k, const VD& z, double a) const { VD r = z; for( size_t i = 0; i < r.size(); i++ ) { r[i] = a * z[i] / slk[k][i]; } return M(k, r); }
   VD gradbar(int k) const
   {
      VD r = vadd(sinv(k, VD(b[k].size(), 1.), -mu), sinv(k + 1, VD(b[k + 1].size(), 1.), mu));
      if( k == 0 ) { r = vadd(r, g); }
      return vadd(r, damping(k, q.kappa_d_ * mu));
   }
   VD gradlagx() const
   {
      VD r = g;
      r = vadd(r, mulT(Jc, yc, x.size()));
      r = vadd(r, mulT(Jd, yd, x.size()));
      return vadd(vadd(r, M(0, zL), -1.), M(1, zU));
   }
   VD gradlags() const { return vadd(vadd(M(3, vU), M(2, vL), -1.), yd, -1.); }
   VD dms() const { return vadd(d, s, -1.); }
   double pinf(int t) const { return vnorm(t, {c, dms()}); }
   double dinf(int t) const { return vnorm(t, {gradlagx(), gradlags()}); }
   double undinf(int t) const { VD a = apd(gradlags()); for( double& e : a ) { e *= unf(1.); } return vnorm(t, {ungf(gradlagx()), a}); }
   double cmp(double m, int t) const { return vnorm(t, {compl_(0, m), compl_(1, m), compl_(2, m), compl_(3, m)}); }
   double nlpcv(int t, bool un) const
   {
      VD dd = un ? und(d) : d;
      auto bd = [&](int k) { VD w = M(k, b[k]); return T(k, un ? und(w) : w); };
      VD l = vadd(bd(2), T(2, dd), -1.), u = vadd(bd(3), T(3, dd), -1.);
      for( double& e : l ) { e = std::max(e, 0.); }
      for( double& e : u ) { e = std::min(e, 0.); }
      return vnorm(t, {un ? unc(c) : c, l, u});
   }
   double scal(bool withy) const
   {
      double a = asum(zL) + asum(zU) + asum(vL) + asum(vU), n = zL.size() + zU.size() + vL.size() + vU.size();
      if( withy ) { a += asum(yc) + asum(yd); n += yc.size() + yd.size(); }
      return n == 0 ? 1. : std::max(q.s_max_, a / n) / q.s_max_;
   }
   double nlperr() const { return std::max(std::max(dinf(NORM_MAX) / scal(true), nlpcv(NORM_MAX, false)), cmp(q.mu_target_, NORM_MAX) / scal(false)); }
   double unnlperr() const { return std::max(std::max(undinf(NORM_MAX), nlpcv(NORM_MAX, true)), unf(cmp(q.mu_target_, NORM_MAX))); }
   double barerr() const { return std::max(std::max(dinf(NORM_MAX) / scal(true), pinf(NORM_MAX)), cmp(mu, NORM_MAX) / scal(false)); }
   double pderr(double m) const
   {
      double n = zL.size() + zU.size() + vL.size() + vU.size(), r = dinf(NORM_1) / (x.size() + s.size());
      if( yc.size() + yd.size() ) { r += pinf(NORM_1) / (yc.size() + yd.size()); }
      if( n ) { r += cmp(m, NORM_1) / n; }
      return r;
   }
   double avrg() const { double n = 0., a = 0.; for( int k = 0; k < 4; k++ ) { n += slk[k].size(); a += vsum(compl_(k)); } return n ? a / n : 0.; }
   double centr() const
   {
      double m = 1e300, a = 0., n = 0.;
      for( int k = 0; k < 4; k++ ) { for( double e : compl_(k) ) { m = std::min(m, e); a += std::fabs(e); n++; } }
      return n ? std::min(1., m / (a / n)) : 0.;
   }
   double pftb(double tau, const VD& px, const VD& ps) const
   {
      double r = 1.;
      for( int k = 0; k < 4; k++ ) { VD w = T(k, k < 2 ? px : ps); if( k % 2 ) { for( double& e : w ) { e = -e; } } r = std::min(r, vftb(slk[k], w, tau)); }
      return r;
   }
   double dftb(double tau, const VD& a, const VD& e, const VD& h, const VD& i) const { return std::min(std::min(vftb(zL, a, tau), vftb(zU, e, tau)), std::min(vftb(vL, h, tau), vftb(vU, i, tau))); }
   VD sigma(int k) const { return vadd(sinv(k, mult(k), 1.), sinv(k + 1, mult(k + 1), 1.)); }
   MD hess() const
   {
      SmartPtr<Vector> xc = it->x()->MakeNewCopy(), a = it->y_c()->MakeNewCopy(), e = it->y_d()->MakeNewCopy();
      SmartPtr<const SymMatrix> h = om ? nlp.h(*xc, 1., *a, *e, mu) : nlp.h(*xc, 1., *a, *e);
      return mden(*h, *it->x(), *it->x());
   }
   VD origviol(bool upper, bool un) const
   {
      OrigIpoptNLP* o = dynamic_cast<OrigIpoptNLP*>(&nlp);
      SmartPtr<const Vector> ob;
      if( o ) { ob = upper ? o->orig_x_U() : o->orig_x_L(); }
      int k = upper ? 1 : 0;
      if( !IsValid(ob) ) { return VD(b[k].size(), 0.); }
      VD r = T(k, un ? unx(x) : x), w = dv(*ob);
      if( !un && sc->have_x_scaling() ) { SmartPtr<Vector> z = it->x()->MakeNew(); put_all(*z, M(k, w)); w = T(k, dv(*sc->apply_vector_scaling_x(ConstPtr(z)))); }
      for( size_t i = 0; i < r.size(); i++ ) { r[i] = std::max(0., upper ? r[i] - w[i] : w[i] - r[i]); }
      return r;
   }
};

struct CQEnt
{
   const char* name;
   bool trial, slack;         // needs the slacks
   int fld;                   // 0: no argument, 1: norm type, 2: mu and norm type, 3: mu, 4: needs delta and tau
   std::function<VD(IpoptCalculatedQuantities&, int, double)> got;
   std::function<VD(const CQO&, int, double)> want;
   bool mat = false;
};
inline VD mflat(const MD& m) { VD r; for( auto& a : m ) { r.insert(r.end(), a.begin(), a.end()); } return r; }

inline std::vector<CQEnt> cqtable()
{
   typedef IpoptCalculatedQuantities Q;
   std::vector<CQEnt> t;
#define E0(n, tr, sl, w) t.push_back(CQEnt{#n, tr, sl, 0, [](Q& q, int, double) { return VD(1, q.n()); }, [](const CQO& o, int, double) { return VD(1, w); }});
#define V0(n, tr, sl, w) t.push_back(CQEnt{#n, tr, sl, 0, [](Q& q, int, double) { return dv(*q.n()); }, [](const CQO& o, int, double) { return VD(w); }});
#define EN(n, tr, sl, w) t.push_back(CQEnt{#n, tr, sl, 1, [](Q& q, int nt, double) { return VD(1, q.n((ENormType) nt)); }, [](const CQO& o, int nt, double) { return VD(1, w); }});
#define EM(n, tr, w) t.push_back(CQEnt{#n, tr, true, 2, [](Q& q, int nt, double m) { return VD(1, q.n(m, (ENormType) nt)); }, [](const CQO& o, int nt, double m) { return VD(1, w); }});
   E0(curr_f, false, false, o.f) E0(trial_f, true, false, o.f)
   E0(unscaled_curr_f, false, false, o.unf(o.f)) E0(unscaled_trial_f, true, false, o.unf(o.f))
   V0(curr_grad_f, false, false, o.g) V0(trial_grad_f, true, false, o.g)
   V0(curr_c, false, false, o.c) V0(trial_c, true, false, o.c) V0(curr_d, false, false, o.d) V0(trial_d, true, false, o.d)
   V0(unscaled_curr_c, false, false, o.unc(o.c)) V0(unscaled_trial_c, true, false, o.unc(o.c)) V0(unscaled_curr_d, false, false, o.und(o.d))
   V0(curr_d_minus_s, false, false, o.dms()) V0(trial_d_minus_s, true, false, o.dms())
   E0(curr_barrier_obj, false, true, o.barrier()) E0(trial_barrier_obj, true, true, o.barrier())
   V0(curr_grad_barrier_obj_x, false, true, o.gradbar(0)) V0(curr_grad_barrier_obj_s, false, true, o.gradbar(2))
   V0(grad_kappa_times_damping_x, false, false, o.damping(0, o.q.kappa_d_)) V0(grad_kappa_times_damping_s, false, false, o.damping(2, o.q.kappa_d_))
   V0(curr_slack_x_L, false, true, o.slk[0]) V0(curr_slack_x_U, false, true, o.slk[1]) V0(curr_slack_s_L, false, true, o.slk[2]) V0(curr_slack_s_U, false, true, o.slk[3])
   V0(trial_slack_x_L, true, true, o.slk[0]) V0(trial_slack_x_U, true, true, o.slk[1]) V0(trial_slack_s_L, true, true, o.slk[2]) V0(trial_slack_s_U, true, true, o.slk[3])
   V0(curr_compl_x_L, false, true, o.compl_(0)) V0(curr_compl_x_U, false, true, o.compl_(1)) V0(curr_compl_s_L, false, true, o.compl_(2)) V0(curr_compl_s_U, false, true, o.compl_(3))
   V0(trial_compl_x_L, true, true, o.compl_(0)) V0(trial_compl_x_U, true, true, o.compl_(1)) V0(trial_compl_s_L, true, true, o.compl_(2)) V0(trial_compl_s_U, true, true, o.compl_(3))
   V0(curr_relaxed_compl_x_L, false, true, o.compl_(0, o.mu)) V0(curr_relaxed_compl_x_U, false, true, o.compl_(1, o.mu)) V0(curr_relaxed_compl_s_L, false, true, o.compl_(2, o.mu)) V0(curr_relaxed_compl_s_U, false, true, o.compl_(3, o.mu))
   V0(curr_jac_cT_times_curr_y_c, false, false, mulT(o.Jc, o.yc, o.x.size())) V0(trial_jac_cT_times_trial_y_c, true, false, mulT(o.Jc, o.yc, o.x.size()))
   V0(curr_jac_dT_times_curr_y_d, false, false, mulT(o.Jd, o.yd, o.x.size())) V0(trial_jac_dT_times_trial_y_d, true, false, mulT(o.Jd, o.yd, o.x.size()))
   V0(curr_grad_lag_x, false, false, o.gradlagx()) V0(trial_grad_lag_x, true, false, o.gradlagx())
   V0(curr_grad_lag_s, false, false, o.gradlags()) V0(trial_grad_lag_s, true, false, o.gradlags())
   V0(curr_grad_lag_with_damping_x, false, false, vadd(o.gradlagx(), o.damping(0, o.q.kappa_d_ * o.mu))) V0(curr_grad_lag_with_damping_s, false, false, vadd(o.gradlags(), o.damping(2, o.q.kappa_d_ * o.mu)))
   EN(curr_primal_infeasibility, false, false, o.pinf(nt)) EN(trial_primal_infeasibility, true, false, o.pinf(nt))
   E0(curr_constraint_violation, false, false, o.pinf(o.q.constr_viol_normtype_)) E0(trial_constraint_violation, true, false, o.pinf(o.q.constr_viol_normtype_))
   EN(curr_dual_infeasibility, false, false, o.dinf(nt)) EN(trial_dual_infeasibility, true, false, o.dinf(nt)) EN(unscaled_curr_dual_infeasibility, false, false, o.undinf(nt))
   EN(curr_nlp_constraint_violation, false, false, o.nlpcv(nt, false)) EN(unscaled_curr_nlp_constraint_violation, false, false, o.nlpcv(nt, true)) EN(unscaled_trial_nlp_constraint_violation, true, false, o.nlpcv(nt, true))
   EM(curr_complementarity, false, o.cmp(m, nt)) EM(trial_complementarity, true, o.cmp(m, nt)) EM(unscaled_curr_complementarity, false, std::fabs(o.unf(o.cmp(m, nt))))
   E0(curr_nlp_error, false, true, o.nlperr()) E0(unscaled_curr_nlp_error, false, true, o.unnlperr()) E0(curr_barrier_error, false, true, o.barerr())
   E0(curr_avrg_compl, false, true, o.avrg()) E0(trial_avrg_compl, true, true, o.avrg()) E0(curr_centrality_measure, false, true, o.centr())
   V0(curr_sigma_x, false, true, o.sigma(0)) V0(curr_sigma_s, false, true, o.sigma(2))
   EN(unscaled_curr_orig_bounds_violation, false, false, vnorm(nt, {o.origviol(false, true), o.origviol(true, true)}))
   EN(curr_orig_bounds_violation, false, false, vnorm(nt, {o.origviol(false, false), o.origviol(true, false)}))
   V0(unscaled_curr_orig_x_L_violation, false, false, o.origviol(false, true)) V0(unscaled_curr_orig_x_U_violation, false, false, o.origviol(true, true))
   V0(curr_orig_x_L_violation, false, false, o.origviol(false, false)) V0(curr_orig_x_U_violation, false, false, o.origviol(true, false))
   t.push_back(CQEnt{"curr_primal_dual_system_error", false, true, 3, [](Q& q, int, double m) { return VD(1, q.curr_primal_dual_system_error(m)); }, [](const CQO& o, int, double m) { return VD(1, o.pderr(m)); }});
   t.push_back(CQEnt{"trial_primal_dual_system_error", true, true, 3, [](Q& q, int, double m) { return VD(1, q.trial_primal_dual_system_error(m)); }, [](const CQO& o, int, double m) { return VD(1, o.pderr(m)); }});
   t.push_back(CQEnt{"curr_primal_frac_to_the_bound", false, true, 4, [](Q& q, int, double m) { return VD(1, q.curr_primal_frac_to_the_bound(m)); }, [](const CQO& o, int, double m) { return VD(1, o.pftb(m, o.dx, o.ds)); }});
   t.push_back(CQEnt{"curr_dual_frac_to_the_bound", false, false, 4, [](Q& q, int, double m) { return VD(1, q.curr_dual_frac_to_the_bound(m)); }, [](const CQO& o, int, double m) { return VD(1, o.dftb(m, o.dzL, o.dzU, o.dvL, o.dvU)); }});
   t.push_back(CQEnt{"uncached_slack_frac_to_the_bound", false, true, 4, [](Q& q, int, double m) { SmartPtr<const IteratesVector> d = q.ip_data_->delta(); return VD(1, q.uncached_slack_frac_to_the_bound(m, *d->z_L(), *d->z_U(), *d->v_L(), *d->v_U())); },
                     [](const CQO& o, int, double m) { return VD(1, std::min(std::min(vftb(o.slk[0], o.dzL, m), vftb(o.slk[1], o.dzU, m)), std::min(vftb(o.slk[2], o.dvL, m), vftb(o.slk[3], o.dvU, m)))); }});
   t.push_back(CQEnt{"curr_gradBarrTDelta", false, true, 4, [](Q& q, int, double) { return VD(1, q.curr_gradBarrTDelta()); }, [](const CQO& o, int, double) { return VD(1, vdot(o.gradbar(0), o.dx) + vdot(o.gradbar(2), o.ds)); }});
   auto mats = [&](const char* n, bool tr, int w)
   {
      t.push_back(CQEnt{n, tr, false, 0, [w, tr](Q& q, int, double)
      {
         SmartPtr<const IteratesVector> i = tr ? q.ip_data_->trial() : q.ip_data_->curr();
         if( w == 0 ) { return mflat(mden(tr ? *q.trial_jac_c() : *q.curr_jac_c(), *i->x(), *i->y_c())); }
         if( w == 1 ) { return mflat(mden(tr ? *q.trial_jac_d() : *q.curr_jac_d(), *i->x(), *i->y_d())); }
         return mflat(mden(*q.curr_exact_hessian(), *i->x(), *i->x()));
      }, [w](const CQO& o, int, double) { return mflat(w == 0 ? o.Jc : w == 1 ? o.Jd : o.hess()); }});
   };
   mats("curr_jac_c", false, 0); mats("trial_jac_c", true, 0); mats("curr_jac_d", false, 1); mats("trial_jac_d", true, 1); mats("curr_exact_hessian", false, 2);
   // products with a given vector
   auto prods = [&](const char* n, bool tr, int w)
   {
      t.push_back(CQEnt{n, tr, false, 4, [w, tr](Q& q, int, double)
      {
         SmartPtr<const IteratesVector> d = q.ip_data_->delta();
         switch( w )
         {
            case 0: return dv(*q.curr_jac_c_times_vec(*d->x()));
            case 1: return dv(*q.curr_jac_d_times_vec(*d->x()));
            case 2: return dv(tr ? *q.trial_jac_cT_times_vec(*d->y_c()) : *q.curr_jac_cT_times_vec(*d->y_c()));
            default: return dv(tr ? *q.trial_jac_dT_times_vec(*d->y_d()) : *q.curr_jac_dT_times_vec(*d->y_d()));
         }
      }, [w](const CQO& o, int, double)
      {
         VD ec = dv(*o.data.delta()->y_c()), ed = dv(*o.data.delta()->y_d());
         return w == 0 ? mul(o.Jc, o.dx) : w == 1 ? mul(o.Jd, o.dx) : w == 2 ? mulT(o.Jc, ec, o.x.size()) : mulT(o.Jd, ed, o.x.size());
      }});
   };
   prods("curr_jac_c_times_vec", false, 0); prods("curr_jac_d_times_vec", false, 1); prods("curr_jac_cT_times_vec", false, 2); prods("curr_jac_dT_times_vec", false, 3);
   prods("trial_jac_cT_times_vec", true, 2); prods("trial_jac_dT_times_vec", true, 3);
   return t;
}
