// run-time contracts of the scaling: everything the algorithm sees is the factor times what the user gave, everything the user sees is unscaled
#include "fix.hpp"
#include "mat.hpp"
#include "IpNLPScaling.hpp"
#include "IpGradientScaling.hpp"

class TestScaling: public StandardScalingBase
{
public:
   double df0 = 1.;
   SmartPtr<Vector> x0, c0, d0;
protected:
   void DetermineScalingParametersImpl(const SmartPtr<const VectorSpace>, const SmartPtr<const VectorSpace>, const SmartPtr<const VectorSpace>, const SmartPtr<const MatrixSpace>, const SmartPtr<const MatrixSpace>, const SmartPtr<const SymMatrixSpace>, const Matrix&, const Vector&, const Matrix&, const Vector&, Number& df, SmartPtr<Vector>& dx, SmartPtr<Vector>& dc, SmartPtr<Vector>& dd)
   { df = df0; dx = x0; dc = c0; dd = d0; }
};

static VD mul(const VD& a, const VD& b) { VD r = a; for( size_t i = 0; i < r.size(); i++ ) { r[i] *= b[i]; } return r; }
static VD dvd(const VD& a, const VD& b) { VD r = a; for( size_t i = 0; i < r.size(); i++ ) { r[i] /= b[i]; } return r; }
static VD sc(const VD& a, double f) { VD r = a; for( double& x : r ) { x *= f; } return r; }
static VD pick(const VD& a, const std::vector<int>& e) { VD r; for( int i : e ) { r.push_back(a[i]); } return r; }
static MD densify(const Matrix& A)
{
   int m = A.NRows(), n = A.NCols();
   MD d(m, VD(n));
   SmartPtr<DenseVectorSpace> rs = new DenseVectorSpace(m), cs = new DenseVectorSpace(n);
   for( int j = 0; j < n; j++ )
   {
      SmartPtr<DenseVector> x = cs->MakeNewDenseVector(), y = rs->MakeNewDenseVector();
      VD u(n, 0.); u[j] = 1.;
      x->SetValues(u.data());
      y->Set(0.);
      A.MultVector(1., *x, 0., *y);
      VD r = dv(*y);
      for( int i = 0; i < m; i++ ) { d[i][j] = r[i]; }
   }
   return d;
}
static void eqm(const char* what, const MD& a, const MD& b)
{
   chk(a.size() == b.size(), std::string(what) + ": rows");
   for( size_t i = 0; i < a.size(); i++ ) { eqv(std::string(what) + ", row " + S((double) i), a[i], b[i]); }
}

static void direct()
{
   int n = ri(1, 4), mc = ri(0, 3), md = ri(0, 3);
   SmartPtr<DenseVectorSpace> xs = new DenseVectorSpace(n), cs = new DenseVectorSpace(mc), ds = new DenseVectorSpace(md);
   SmartPtr<Vector> dx, dc, dd;
   VD rx(n, 1.), rc(mc, 1.), rd(md, 1.);
   auto mk = [&](const DenseVectorSpace& s, SmartPtr<Vector>& v, VD& r) { if( ri(0, 1) ) { v = GetRawPtr(mkdense(s, r, true)); } };
   mk(*xs, dx, rx); mk(*cs, dc, rc); mk(*ds, dd, rd);
   SmartPtr<TestScaling> T = new TestScaling();
   double df = ri(0, 2) ? rpos() * (ri(0, 4) ? 1. : -1.) : 1., of = ri(0, 2) ? rpos() * (ri(0, 4) ? 1. : -1.) : 1.;
   T->df0 = df; T->x0 = dx; T->c0 = dc; T->d0 = dd;
   VS R, C;
   RM Jc = mkmat(GetRawPtr(cs), GetRawPtr(xs), 0, false, true), Jd = mkmat(GetRawPtr(ds), GetRawPtr(xs), 0, false, true), H = mkmat(GetRawPtr(xs), GetRawPtr(xs), 0, true, true);
   setcase("scaling object", "n " + S(n) + " c " + S(mc) + " d " + S(md) + " df " + S(df) + " obj_scaling_factor " + S(of) + " dx " + (IsValid(dx) ? S(rx) : "none") + " dc " + (IsValid(dc) ? S(rc) : "none") + " dd " + (IsValid(dd) ? S(rd) : "none"));
   static SmartPtr<IpoptApplication> app;
   if( IsNull(app) ) { app = new IpoptApplication(false); }
   SmartPtr<OptionsList> o = new OptionsList(*app->Options());
   SmartPtr<Journalist> jn = new Journalist();
   o->SetNumericValue("obj_scaling_factor", of);
   chk(T->Initialize(*jn, *o, ""), "scaling object is initialized");
   bool withh = ri(0, 4) > 0;
   SmartPtr<const MatrixSpace> njc, njd;
   SmartPtr<const SymMatrixSpace> nh;
   SmartPtr<const SymMatrixSpace> hs = dynamic_cast<const SymMatrixSpace*>(GetRawPtr(H.sp));
   SmartPtr<DenseVectorSpace> es = new DenseVectorSpace(0);
   SmartPtr<DenseVector> ev = es->MakeNewDenseVector();
   Index dumi = 0;
   SmartPtr<ExpansionMatrixSpace> eps = new ExpansionMatrixSpace(n, 0, &dumi);
   SmartPtr<ExpansionMatrix> ep = eps->MakeNewExpansionMatrix();
   for( int rep = ri(1, 2); rep > 0; rep-- )
      T->DetermineScaling(GetRawPtr(xs), GetRawPtr(cs), GetRawPtr(ds), Jc.sp, Jd.sp, withh ? hs : SmartPtr<const SymMatrixSpace>(), njc, njd, nh, *ep, *ev, *ep, *ev);
   double DF = df * of;
   double f = rval();
   eq("scaled objective", T->apply_obj_scaling(f), DF * f);
   eq("unscaled objective", T->unapply_obj_scaling(f), f / DF);
   chk(T->have_x_scaling() == IsValid(dx) && T->have_c_scaling() == IsValid(dc) && T->have_d_scaling() == IsValid(dd), "which parts are scaled");
   VD x, c, d;
   SmartPtr<const Vector> vx = GetRawPtr(mkdense(*xs, x)), vc = GetRawPtr(mkdense(*cs, c)), vd = GetRawPtr(mkdense(*ds, d));
   const Vector* given = NULL;
   auto con = [&](const char* what, SmartPtr<const Vector> r, const VD& e) { eqv(what, dv(*r), e); };
   auto non = [&](const char* what, SmartPtr<Vector> r, const VD& e) { eqv(what, dv(*r), e); chk(GetRawPtr(r) != given, std::string(what) + " is a new vector"); r->Set(-99.); };
   given = GetRawPtr(vx);
   con("x scaled", T->apply_vector_scaling_x(vx), mul(x, rx)); non("x scaled, new", T->apply_vector_scaling_x_NonConst(vx), mul(x, rx));
   con("x unscaled", T->unapply_vector_scaling_x(vx), dvd(x, rx)); non("x unscaled, new", T->unapply_vector_scaling_x_NonConst(vx), dvd(x, rx));
   con("gradient scaled", T->apply_grad_obj_scaling(vx), sc(dvd(x, rx), DF)); non("gradient scaled, new", T->apply_grad_obj_scaling_NonConst(vx), sc(dvd(x, rx), DF));
   con("gradient unscaled", T->unapply_grad_obj_scaling(vx), sc(mul(x, rx), 1. / DF)); non("gradient unscaled, new", T->unapply_grad_obj_scaling_NonConst(vx), sc(mul(x, rx), 1. / DF));
   given = GetRawPtr(vc);
   con("c scaled", T->apply_vector_scaling_c(vc), mul(c, rc)); non("c scaled, new", T->apply_vector_scaling_c_NonConst(vc), mul(c, rc));
   con("c unscaled", T->unapply_vector_scaling_c(vc), dvd(c, rc)); non("c unscaled, new", T->unapply_vector_scaling_c_NonConst(vc), dvd(c, rc));
   given = GetRawPtr(vd);
   con("d scaled", T->apply_vector_scaling_d(vd), mul(d, rd)); non("d scaled, new", T->apply_vector_scaling_d_NonConst(vd), mul(d, rd));
   con("d unscaled", T->unapply_vector_scaling_d(vd), dvd(d, rd)); non("d unscaled, new", T->unapply_vector_scaling_d_NonConst(vd), dvd(d, rd));
   eqv("the vectors stay", dv(*vx), x); eqv("the vectors stay", dv(*vc), c); eqv("the vectors stay", dv(*vd), d);
   for( int w = 0; w < 2; w++ )
   {
      int N = w ? md : n;
      if( N == 0 ) { continue; }
      std::vector<Index> e;
      for( int i = 0; i < N; i++ ) { if( ri(0, 1) ) { e.push_back(i); } }
      Index dum = 0;
      SmartPtr<ExpansionMatrixSpace> ps = new ExpansionMatrixSpace(N, e.size(), e.empty() ? &dum : e.data());
      SmartPtr<ExpansionMatrix> P = ps->MakeNewExpansionMatrix();
      SmartPtr<DenseVectorSpace> bs = new DenseVectorSpace(e.size());
      VD b;
      SmartPtr<const Vector> vb = GetRawPtr(mkdense(*bs, b));
      VD fac = pick(w ? rd : rx, e);
      given = GetRawPtr(vb);
      if( w == 0 )
      {
         con("bounds on x scaled", T->apply_vector_scaling_x_LU(*P, vb, *xs), mul(b, fac)); non("bounds on x scaled, new", T->apply_vector_scaling_x_LU_NonConst(*P, vb, *xs), mul(b, fac));
      }
      else
      {
         con("bounds on d scaled", T->apply_vector_scaling_d_LU(*P, vb, *ds), mul(b, fac)); non("bounds on d scaled, new", T->apply_vector_scaling_d_LU_NonConst(*P, vb, *ds), mul(b, fac));
         con("bounds on d unscaled", T->unapply_vector_scaling_d_LU(*P, vb, *ds), dvd(b, fac)); non("bounds on d unscaled, new", T->unapply_vector_scaling_d_LU_NonConst(*P, vb, *ds), dvd(b, fac));
      }
      eqv("the bounds stay", dv(*vb), b);
   }
   auto scaled = [](const MD& A, const VD& r, const VD& c2) { MD q = A; for( size_t i = 0; i < q.size(); i++ ) { for( size_t j = 0; j < q[i].size(); j++ ) { q[i][j] *= r[i] / c2[j]; } } return q; };
   VD one(n, 1.);
   eqm("Jacobian of c scaled", densify(*T->apply_jac_c_scaling(ConstPtr(Jc.A))), scaled(Jc.d, rc, rx));
   eqm("Jacobian of d scaled", densify(*T->apply_jac_d_scaling(ConstPtr(Jd.A))), scaled(Jd.d, rd, rx));
   chk(njc->NRows() == mc && njc->NCols() == n && njd->NRows() == md && njd->NCols() == n, "dimensions of the scaled spaces");
   chk((GetRawPtr(njc) == GetRawPtr(Jc.sp)) == !(IsValid(dx) || IsValid(dc)) && (GetRawPtr(njd) == GetRawPtr(Jd.sp)) == !(IsValid(dx) || IsValid(dd)), "spaces change exactly if something is scaled");
   chk(withh == IsValid(nh), "space of the Hessian");
   if( withh )
   {
      VD inv = dvd(VD(n, 1.), rx);
      eqm("Hessian scaled", densify(*T->apply_hessian_scaling(dynamic_cast<const SymMatrix*>(GetRawPtr(H.A)))), scaled(H.d, inv, rx));
   }
}

static std::string describe(PNLP& p)
{
   std::string r = "n " + S(p.n) + " m " + S(p.m) + " x0 " + S(p.x0) + " xl " + S(p.xl) + " xu " + S(p.xu) + " gl " + S(p.gl) + " gu " + S(p.gu) + " c " + S(p.c) + " A";
   for( auto& a : p.A ) { r += " " + S(a); }
   return r;
}

static void problem()
{
   int n = ri(2, 4), m = ri(0, 3);
   SmartPtr<PNLP> t = randproblem(n, m, ri(0, 2) == 0);
   int nfree = 0;
   for( int i = 0; i < n; i++ ) { nfree += t->xl[i] != t->xu[i]; }
   int neq = 0;
   for( int k = 0; k < m; k++ ) { neq += t->gl[k] == t->gu[k]; }
   if( neq >= nfree ) { return; }
   double big = std::pow(10., ri(-1, 4));
   for( double& v : t->c ) { v *= big; }
   for( auto& a : t->A ) { double b = std::pow(10., ri(-1, 3)); if( ri(0, 1) ) { for( double& v : a ) { v *= b; } } }
   {  // keep the starting point feasible for the inequalities, equalities anywhere
      VD g0 = t->g(t->x0.data());
      for( int k = 0; k < m; k++ )
      {
         if( t->gl[k] == t->gu[k] ) { t->gl[k] = t->gu[k] = g0[k]; continue; }
         if( t->gl[k] > -1e19 ) { t->gl[k] = g0[k] - rpos(); }
         if( t->gu[k] < 1e19 ) { t->gu[k] = g0[k] + rpos(); }
      }
   }
   Fix F(t);
   int meth = ri(0, 2);
   const char* names[] = {"none", "user-scaling", "gradient-based"};
   F.str("nlp_scaling_method", names[meth]);
   double of = ri(0, 2) ? std::pow(2., ri(-3, 3)) : 1., gmax = 100., tobj = 0., tcon = 0., smin = 1e-8;
   F.num("obj_scaling_factor", of);
   std::string how = names[meth];
   VD XS(n, 1.), GS(m, 1.);
   double OS = 1.;
   bool failgrad = false, failjac = false;
   if( meth == 1 )
   {
      t->user_scaling = true;
      t->use_xs = ri(0, 2) > 0; t->use_gs = ri(0, 2) > 0;
      t->obj_s = OS = std::pow(2., ri(-3, 3));
      t->xs.resize(n); t->gs.resize(m);
      for( double& v : t->xs ) { v = std::pow(2., ri(-2, 2)); }
      for( double& v : t->gs ) { v = std::pow(2., ri(-2, 2)); }
      if( t->use_xs ) { XS = t->xs; }
      if( t->use_gs ) { GS = t->gs; }
      how += " obj " + S(OS) + " x " + S(XS) + " g " + S(GS);
   }
   if( meth == 2 )
   {
      if( ri(0, 1) ) { gmax = std::pow(10., ri(-2, 3)); }
      if( ri(0, 3) == 0 ) { tobj = std::pow(10., ri(-2, 2)); }
      if( ri(0, 2) == 0 ) { tcon = std::pow(10., ri(-2, 2)); }
      if( ri(0, 1) == 0 ) { smin = ri(0, 3) ? std::pow(10., ri(-3, 0)) : 0.; }
      F.num("nlp_scaling_max_gradient", gmax); F.num("nlp_scaling_obj_target_gradient", tobj); F.num("nlp_scaling_constr_target_gradient", tcon); F.num("nlp_scaling_min_value", smin);
      failgrad = ri(0, 5) == 0; failjac = ri(0, 5) == 0;
      how += " max gradient " + S(gmax) + " targets " + S(tobj) + " " + S(tcon) + " min " + S(smin) + (failgrad ? " gradient fails once" : "") + (failjac ? " Jacobian fails once" : "");
      if( m == 0 ) { failjac = false; }
      int ngf = 0, njf = 0;
      t->evalhook = [=](const char* w, const double*) mutable
      {
         if( failgrad && !strcmp(w, "grad_f") && ngf++ == 0 ) { return false; }
         if( failjac && !strcmp(w, "jac_g") && njf++ == 0 ) { return false; }
         return true;
      };
   }
   double relax = ri(0, 2) == 0 ? 0. : ri(0, 1) ? 1e-8 : 1e-2;
   bool honor = ri(0, 1);
   F.num("bound_relax_factor", relax);
   F.str("honor_original_bounds", honor ? "yes" : "no");
   double cvt = ri(0, 1) ? 1e-4 : 1.;
   F.num("constr_viol_tol", cvt);
   F.num("bound_push", 1e-12); F.num("bound_frac", 1e-12); F.num("slack_bound_push", 1e-12); F.num("slack_bound_frac", 1e-12);
   bool same = ri(0, 1);
   setcase("problem", describe(*t) + " " + how + " obj_scaling_factor " + S(of) + " bound_relax_factor " + S(relax) + (honor ? " honored" : ""));
   // multipliers and point handed to the initialisation
   t->z0l.resize(n); t->z0u.resize(n); t->lam0.resize(m);
   for( double& v : t->z0l ) { v = rpos(); }
   for( double& v : t->z0u ) { v = rpos(); }
   for( double& v : t->lam0 ) { v = rval(); }
   F.in("max_iter", 0);
   F.solve();
   if( IsNull(F.data->curr()) ) { fail("problem could not be set up: " + S((double) F.ret)); return; }
   t->evalhook = nullptr;
   // index maps
   std::vector<int> X, xL, xU, C, D, dL, dU;
   for( int i = 0; i < n; i++ )
   {
      if( t->xl[i] == t->xu[i] ) { continue; }
      if( t->xl[i] > -1e19 ) { xL.push_back(i); }
      if( t->xu[i] < 1e19 ) { xU.push_back(i); }
      X.push_back(i);
   }
   for( int k = 0; k < m; k++ )
   {
      if( t->gl[k] == t->gu[k] ) { C.push_back(k); continue; }
      if( t->gl[k] > -1e19 ) { dL.push_back(k); }
      if( t->gu[k] < 1e19 ) { dU.push_back(k); }
      D.push_back(k);
   }
   auto full = [&](const VD& r) { VD x = t->x0; for( int i = 0; i < n; i++ ) { if( t->xl[i] == t->xu[i] ) { x[i] = t->xl[i]; } } for( size_t i = 0; i < X.size(); i++ ) { x[X[i]] = r[i]; } return x; };
   VD x0 = full(pick(t->x0, X));
   if( meth == 2 )
   {
      double a = amax(pick(t->gradf(x0.data()), X));
      if( !failgrad )
      {
         if( tobj > 0. ) { OS = a == 0. ? 1. : tobj / a; }
         else if( a > gmax ) { OS = gmax / a; }
         OS = std::max(OS, smin);
      }
      auto J = t->jac(x0.data());
      for( int w = 0; w < 2; w++ )
      {
         auto& K = w ? D : C;
         double all = 0.;
         for( int k : K ) { all = std::max(all, amax(pick(J[k], X))); }
         all = std::max(all, std::numeric_limits<double>::min());
         // the first requested Jacobian belongs to c, or to d if there is no c
         bool failed = failjac && (w == 0 ? !C.empty() : C.empty());
         if( failed || K.empty() ) { continue; }
         for( int k : K )
         {
            double r = std::max(amax(pick(J[k], X)), std::numeric_limits<double>::min());
            if( tcon > 0. ) { if( all > std::numeric_limits<double>::min() ) { GS[k] = std::max(tcon / all, smin); } }
            else if( all > gmax ) { GS[k] = std::max(std::min(1., gmax / r), smin); }
         }
      }
   }
   double DF = OS * of;
   auto cmp = [&](const std::string& w, const VD& a, const VD& b) { eqv(w, a, b); };
   if( failjac && meth == 2 && !C.empty() && !D.empty() )
   {  // whether d is scaled after a failed evaluation of the Jacobian depends on how often the user is asked: take the factors in use
      SmartPtr<const Vector> o = F.nlp->d_space_->MakeNew();
      SmartPtr<Vector> ow = o->MakeNew(); ow->Set(1.);
      VD got = dv(*F.nlp->NLP_scaling()->apply_vector_scaling_d(ConstPtr(ow)));
      bool ones = true;
      for( double v : got ) { ones = ones && v == 1.; }
      if( ones ) { for( int k : D ) { GS[k] = 1.; } }
   }
   OrigIpoptNLP& P = *F.nlp;
   eq("objective scaling factor", P.NLP_scaling()->apply_obj_scaling(1.), DF);
   VD sx = pick(XS, X), sC = pick(GS, C), sD = pick(GS, D);
   for( int rep = 0; rep < 3; rep++ )
   {
      VD u = pick(t->x0, X);
      if( rep ) { for( double& v : u ) { v += 0.5 * rval(); } }
      VD fu = full(u);
      SmartPtr<Vector> vx = P.x_space_->MakeNew();
      setv(*vx, mul(u, sx));
      eq("objective", P.f(*vx), DF * t->f(fu.data()));
      cmp("gradient of the objective", dv(*P.grad_f(*vx)), sc(dvd(pick(t->gradf(fu.data()), X), sx), DF));
      VD g = t->g(fu.data());
      VD rhs(m, 0.);
      for( int k : C ) { rhs[k] = t->gl[k]; }
      VD gc;
      for( int k : C ) { gc.push_back((g[k] - rhs[k]) * GS[k]); }
      cmp("equality constraints", dv(*P.c(*vx)), gc);
      cmp("inequality constraints", dv(*P.d(*vx)), mul(pick(g, D), sD));
      auto J = t->jac(fu.data());
      MD jc, jd;
      for( int k : C ) { jc.push_back(sc(dvd(pick(J[k], X), sx), GS[k])); }
      for( int k : D ) { jd.push_back(sc(dvd(pick(J[k], X), sx), GS[k])); }
      eqm("Jacobian of the equality constraints", densify(*P.jac_c(*vx)), jc);
      eqm("Jacobian of the inequality constraints", densify(*P.jac_d(*vx)), jd);
      SmartPtr<Vector> yc = P.c_space_->MakeNew(), yd = P.d_space_->MakeNew();
      VD lc(C.size()), ld(D.size()), lam(m, 0.);
      for( size_t k = 0; k < C.size(); k++ ) { lc[k] = rval(); lam[C[k]] = lc[k] * GS[C[k]]; }
      for( size_t k = 0; k < D.size(); k++ ) { ld[k] = rval(); lam[D[k]] = ld[k] * GS[D[k]]; }
      setv(*yc, lc); setv(*yd, ld);
      double sf = ri(0, 1) ? 1. : rval();
      MD h(n, VD(n, 0.));
      auto add = [&](const Ent& e, double w) { h[e.i][e.j] += w * e.v; if( e.i != e.j ) { h[e.j][e.i] += w * e.v; } };
      for( auto& e : t->Q ) { add(e, sf * DF); }
      for( int k = 0; k < m; k++ ) { for( auto& e : t->B[k] ) { add(e, lam[k]); } }
      MD hx;
      for( int i : X ) { hx.push_back(pick(h[i], X)); for( size_t j = 0; j < X.size(); j++ ) { hx.back()[j] /= XS[i] * XS[X[j]]; } }
      eqm("Hessian of the Lagrangian", densify(*P.h(*vx, sf, *yc, *yd)), hx);
   }
   auto rel = [&](double b, double s) { return relax > 0. ? b + s * std::min(cvt, relax * std::max(std::fabs(b), 1.)) : b; };
   VD bl, bu, cl, cu;
   for( int i : xL ) { bl.push_back(rel(t->xl[i], -1.) * XS[i]); }
   for( int i : xU ) { bu.push_back(rel(t->xu[i], 1.) * XS[i]); }
   for( int k : dL ) { cl.push_back(rel(t->gl[k], -1.) * GS[k]); }
   for( int k : dU ) { cu.push_back(rel(t->gu[k], 1.) * GS[k]); }
   // first: what the scaled problem starts from when asked again
   SmartPtr<Vector> a[6], vl, vu;
   bool in[5];
   for( bool& b : in ) { b = ri(0, 3) > 0; }
   cmp("lower bounds on x", dv(*P.x_L()), bl); cmp("upper bounds on x", dv(*P.x_U()), bu); cmp("lower bounds on d", dv(*P.d_L()), cl); cmp("upper bounds on d", dv(*P.d_U()), cu);
   P.warm_start_same_structure_ = same;
   if( failgrad || failjac ) { P.warm_start_same_structure_ = true; }
   chk(P.InitializeStructures(a[0], in[0], a[1], in[1], a[2], in[2], a[3], in[3], a[4], in[4], vl, vu), "structures are initialized");
   cmp("lower bounds on x, again", dv(*P.x_L()), bl); cmp("upper bounds on x, again", dv(*P.x_U()), bu); cmp("lower bounds on d, again", dv(*P.d_L()), cl); cmp("upper bounds on d, again", dv(*P.d_U()), cu);
   if( in[0] ) { cmp("starting point", dv(*a[0]), mul(pick(t->x0, X), sx)); }
   if( in[1] ) { cmp("starting multipliers of c", dv(*a[1]), sc(dvd(pick(t->lam0, C), sC), DF)); }
   if( in[2] ) { cmp("starting multipliers of d", dv(*a[2]), sc(dvd(pick(t->lam0, D), sD), DF)); }
   if( in[3] ) { cmp("starting multipliers of lower bounds", dv(*a[3]), sc(dvd(pick(t->z0l, xL), pick(XS, xL)), DF)); }
   if( in[4] ) { cmp("starting multipliers of upper bounds", dv(*a[4]), sc(dvd(pick(t->z0u, xU), pick(XS, xU)), DF)); }
   // the final result
   VD u = pick(t->x0, X), zl(xL.size()), zu(xU.size()), yc(C.size()), yd(D.size());
   for( double& v : u ) { if( ri(0, 2) == 0 ) { v += 0.1 * rval(); } }
   if( relax > 0. ) { for( size_t i = 0; i < X.size(); i++ ) { int j = X[i]; if( ri(0, 1) && t->xl[j] > -1e19 ) { u[i] = t->xl[j] - 0.5 * relax; } else if( ri(0, 1) && t->xu[j] < 1e19 ) { u[i] = t->xu[j] + 0.5 * relax; } } }
   for( double& v : zl ) { v = rpos(); }
   for( double& v : zu ) { v = rpos(); }
   for( double& v : yc ) { v = rval(); }
   for( double& v : yd ) { v = rval(); }
   SmartPtr<Vector> vx = P.x_space_->MakeNew(), vzl = P.x_L()->MakeNew(), vzu = P.x_U()->MakeNew(), vyc = P.c_space_->MakeNew(), vyd = P.d_space_->MakeNew();
   setv(*vx, mul(u, sx)); setv(*vzl, zl); setv(*vzu, zu); setv(*vyc, yc); setv(*vyd, yd);
   SmartPtr<const Vector> vc = P.c(*vx), vd = P.d(*vx);
   double obj = P.f(*vx);
   t->finalized = 0;
   P.FinalizeSolution(SUCCESS, *vx, *vzl, *vzu, *vc, *vd, *vyc, *vyd, obj, NULL, NULL);
   chk(t->finalized == 1, "the user gets the solution once");
   VD w = full(u), fw = w;
   for( int i : X )
   {
      if( honor && relax > 0. )
      {
         if( t->xl[i] > -1e19 ) { fw[i] = std::max(fw[i], t->xl[i]); }
         if( t->xu[i] < 1e19 ) { fw[i] = std::min(fw[i], t->xu[i]); }
      }
   }
   cmp("final point", t->sx, fw);
   eq("final objective", t->sf, t->f(w.data()));
   VD el(n, 0.), eu(n, 0.), elam(m, 0.);
   for( size_t i = 0; i < xL.size(); i++ ) { el[xL[i]] = zl[i] * XS[xL[i]] / DF; }
   for( size_t i = 0; i < xU.size(); i++ ) { eu[xU[i]] = zu[i] * XS[xU[i]] / DF; }
   for( size_t k = 0; k < C.size(); k++ ) { elam[C[k]] = yc[k] * GS[C[k]] / DF; }
   for( size_t k = 0; k < D.size(); k++ ) { elam[D[k]] = yd[k] * GS[D[k]] / DF; }
   cmp("final constraint multipliers", t->slam, elam);
   VD gl2 = t->szl, gu2 = t->szu;
   for( int i = 0; i < n; i++ ) { if( t->xl[i] == t->xu[i] ) { gl2[i] = gu2[i] = el[i] = eu[i] = 0.; } }
   cmp("final lower bound multipliers", gl2, el);
   cmp("final upper bound multipliers", gu2, eu);
   cmp("final constraint values", t->sg, t->g(w.data()));
}

int main()
{
   h_init();
   int N = THOROUGH ? 40000 : 3000;
   for( int it = 0; it < N; it++ )
   {
      direct();
      problem();
   }
   return h_done();
}
