// run-time contracts of TNLPAdapter: user problem and internal problem correspond entry by entry
#include "fix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseVector.hpp"
typedef std::vector<int> VI;

// checks what the user sees
class CNLP: public PNLP
{
public:
   bool have = false, havel = false, active = false, pert = false;
   VD lastx, lastl, want, wantl;
   VI fixed;
   VD fixval;
   int failin = -1;              // number of evaluations until one fails
   int nonlin = -1;
   VI nlvars;
   std::string failedin;
   CNLP(const PNLP& p) : PNLP(p.n, p.m) { c0 = p.c0; c = p.c; xl = p.xl; xu = p.xu; gl = p.gl; gu = p.gu; x0 = p.x0; d = p.d; Q = p.Q; A = p.A; B = p.B; fortran = p.fortran; }
   Index get_number_of_nonlinear_variables() override { return nonlin; }
   bool get_list_of_nonlinear_variables(Index k, Index* p) override { for( int i = 0; i < k; i++ ) { p[i] = nlvars[i] + (fortran ? 1 : 0); } return true; }
   bool point(const char* w, const Number* x, bool nx)
   {
      VD v(x, x + n);
      if( !nx )
      {
         if( !have ) { fail(std::string(w) + ": the first point is not announced as new"); }
         if( v != lastx ) { fail(std::string(w) + ": new_x is false, but the point is " + S(v) + " and the last new one was " + S(lastx)); }
      }
      else { have = true; lastx = v; }
      if( active && !pert && v != want ) { fail(std::string(w) + " is evaluated at " + S(v) + " instead of " + S(want)); }
      if( active && pert )
      {
         int k = 0;
         for( int i = 0; i < n; i++ )
         {
            if( v[i] != want[i] )
            {
               k++;
               if( std::fabs(v[i] - want[i]) > 1e-6 * std::max(1., std::fabs(want[i])) ) { fail(std::string(w) + " is evaluated far from the point: " + S(v) + " instead of " + S(want)); }
               if( xu[i] > xl[i] && want[i] <= xu[i] && v[i] > xu[i] ) { fail(std::string(w) + " is evaluated beyond an upper bound: " + S(v)); }
            }
         }
         if( k > 1 ) { fail(std::string(w) + " is evaluated at " + S(v) + " instead of " + S(want)); }
      }
      if( failin >= 0 && failin-- == 0 ) { failedin = w; return false; }
      return true;
   }
   bool eval_f(Index a, const Number* x, bool nx, Number& v) override { if( !point("eval_f", x, nx) ) { v = -5e5; return false; } return PNLP::eval_f(a, x, nx, v); }
   bool eval_grad_f(Index a, const Number* x, bool nx, Number* v) override { if( !point("eval_grad_f", x, nx) ) { std::fill(v, v + n, -5e5); return false; } return PNLP::eval_grad_f(a, x, nx, v); }
   bool eval_g(Index a, const Number* x, bool nx, Index b, Number* v) override { if( !point("eval_g", x, nx) ) { std::fill(v, v + m, -5e5); return false; } return PNLP::eval_g(a, x, nx, b, v); }
   bool eval_jac_g(Index a, const Number* x, bool nx, Index b, Index c_, Index* ir, Index* jc, Number* v) override
   {
      if( v && !point("eval_jac_g", x, nx) ) { std::fill(v, v + c_, -5e5); return false; }
      return PNLP::eval_jac_g(a, x, nx, b, c_, ir, jc, v);
   }
   bool eval_h(Index a, const Number* x, bool nx, Number of, Index b, const Number* lam, bool nl, Index c_, Index* ir, Index* jc, Number* v) override
   {
      if( v )
      {
         VD l(lam, lam + m);
         if( !nl && (!havel || l != lastl) ) { fail("eval_h: new_lambda is false, but the multipliers are " + S(l) + " and the last new ones were " + S(lastl)); }
         if( nl ) { havel = true; lastl = l; }
         if( active && l != wantl ) { fail("eval_h gets multipliers " + S(l) + " instead of " + S(wantl)); }
         if( !point("eval_h", x, nx) ) { std::fill(v, v + c_, -5e5); return false; }
      }
      return PNLP::eval_h(a, x, nx, of, b, lam, nl, c_, ir, jc, v);
   }
   bool hasmd = false, gotmd = false;
   VD mdx, mdg;
   NumericMetaDataMapType rx, rg;
   bool get_var_con_metadata(Index, StringMetaDataMapType& vs, IntegerMetaDataMapType& vi, NumericMetaDataMapType& vn, Index, StringMetaDataMapType& cs, IntegerMetaDataMapType& ci, NumericMetaDataMapType& cn) override
   {
      if( !hasmd ) { vn["wrong"] = VD(n, 0.); return false; }
      vn["md"] = mdx; cn["md"] = mdg;
      for( double q : mdx ) { vs["s"].push_back(S(q)); vi["i"].push_back((int) (8 * q)); }
      for( double q : mdg ) { cs["s"].push_back(S(q)); ci["i"].push_back((int) (8 * q)); }
      return true;
   }
   void finalize_metadata(Index, const StringMetaDataMapType&, const IntegerMetaDataMapType&, const NumericMetaDataMapType& vn, Index, const StringMetaDataMapType&, const IntegerMetaDataMapType&, const NumericMetaDataMapType& cn) override { rx = vn; rg = cn; gotmd = true; }
};

static std::vector<VD> dense(int r, int c, int nz, const Index* ir, const Index* jc, const Number* v, bool sym)
{
   std::vector<VD> D(r, VD(c, 0.));
   for( int k = 0; k < nz; k++ )
   {
      if( ir[k] < 1 || ir[k] > r || jc[k] < 1 || jc[k] > c ) { fail("matrix entry out of range"); }
      D[ir[k] - 1][jc[k] - 1] += v[k];
      if( sym && ir[k] != jc[k] ) { D[jc[k] - 1][ir[k] - 1] += v[k]; }
   }
   return D;
}
static void eqm(const std::string& w, const std::vector<VD>& a, const std::vector<VD>& b, double tol) { chk(a.size() == b.size(), w + ": number of rows"); for( size_t i = 0; i < a.size(); i++ ) { eqv(w + " row " + std::to_string(i), a[i], b[i], tol); } }
static VD sub(const VD& v, const VI& p) { VD r; for( int i : p ) { r.push_back(v[i]); } return r; }
static VI pos(const Matrix& P) { const ExpansionMatrix* e = dynamic_cast<const ExpansionMatrix*>(&P); VI r(e->ExpandedPosIndices(), e->ExpandedPosIndices() + (e->NCols() ? e->NCols() : 0)); return r; }
static SmartPtr<Vector> rvec(const VectorSpace& s, bool half)
{
   SmartPtr<Vector> v = s.MakeNew();
   if( ri(0, 3) == 0 ) { v->Set(ri(0, 2) ? rval() : 0.); return v; }
   VD a(v->Dim());
   for( double& q : a ) { q = rval() * (half ? 0.5 : 1.); }
   v->Set(0.);
   setv(*v, a);
   return v;
}
template<class M> static void mdeq(const char* w, const M& sp, const VI& p, const CNLP& t, bool isx)
{
   const VD& src = isx ? t.mdx : t.mdg;
   if( !t.hasmd ) { chk(!sp->HasNumericMetaData("md") && !sp->HasNumericMetaData("wrong"), std::string(w) + ": metadata without being given"); return; }
   VD e = sub(src, p);
   eqv(std::string("numeric metadata of ") + w, sp->GetNumericMetaData("md"), e);
   std::vector<std::string> s = sp->GetStringMetaData("s");
   std::vector<Index> q = sp->GetIntegerMetaData("i");
   chk(s.size() == e.size() && q.size() == e.size(), std::string("length of metadata of ") + w);
   for( size_t i = 0; i < e.size(); i++ ) { chk(s[i] == S(e[i]) && q[i] == (int) (8 * e[i]), std::string("metadata of ") + w); }
}
#define DS(x) (static_cast<const DenseVectorSpace*>(GetRawPtr(x)))

int main()
{
   h_init();
   int N = THOROUGH ? 6000 : 900;
#ifdef DEMO
   N = DEMO;
#endif
   for( int it = 0; it < N; it++ )
   {
      int n = ri(1, 7), m = ri(0, 5);
      SmartPtr<CNLP> t = new CNLP(*randproblem(n, m, ri(0, 3) != 0));
      t->fortran = ri(0, 1);
      for( int k = 0; k < m; k++ ) { if( ri(0, 3) == 0 ) { t->gl[k] = t->gu[k] = rval(); } }
      bool dep = m > 1 && ri(0, 7) == 0;
      if( dep ) { t->B.assign(m, {}); t->A[m - 1] = t->A[0]; for( int i = 0; i < n; i++ ) { if( t->A[0][i] == 0. ) { t->A[0][i] = t->A[m - 1][i] = 1.; } } t->gl[0] = t->gu[0] = 1.; t->gl[m - 1] = t->gu[m - 1] = 1.; t->d[m - 1] = t->d[0]; }
      t->hasmd = ri(0, 2) == 0;
      for( int i = 0; i < n; i++ ) { t->mdx.push_back(i + 0.25 * ri(0, 3)); }
      for( int k = 0; k < m; k++ ) { t->mdg.push_back(100 + k); }
      if( ri(0, 2) == 0 ) { t->nonlin = 0; for( int i = 0; i < n; i++ ) { if( ri(0, 2) ) { t->nlvars.push_back(i); } } t->nonlin = t->nlvars.size(); }
      static const char* TR[] = {"make_parameter", "make_parameter_nodual", "make_constraint", "relax_bounds"};
      int tr = ri(0, 3);
      bool fdj = ri(0, 4) == 0, fdg = ri(0, 4) == 0, qn = ri(0, 3) == 0;
      double brf = ri(0, 1) ? 1e-8 : ri(0, 1) ? 0. : 1e-4;
      int nlin = ri(0, 3) ? 0 : ri(0, n);
      for( int i = 0; i < n; i++ ) { if( !fdj && !fdg && t->xl[i] == t->xu[i] && ri(0, 3) == 0 ) { t->xl[i] = t->xu[i] = rval() * 1000.; } }
      SmartPtr<IpoptApplication> app = new IpoptApplication(false);
      auto O = app->Options();
      O->SetIntegerValue("print_level", 0);
      O->SetStringValue("fixed_variable_treatment", TR[tr]);
      O->SetNumericValue("bound_relax_factor", brf);
      if( fdj ) { O->SetStringValue("jacobian_approximation", "finite-difference-values"); }
      if( fdg ) { O->SetStringValue("gradient_approximation", "finite-difference-values"); }
      if( qn ) { O->SetStringValue("hessian_approximation", "limited-memory"); O->SetIntegerValue("num_linear_variables", nlin); }
      if( dep ) { O->SetStringValue("dependency_detector", "mumps"); }
      O->SetStringValue("linear_solver", "mumps");
      app->Initialize("");
      std::string cs = "n=" + std::to_string(n) + " m=" + std::to_string(m) + " " + TR[tr] + (fdj ? " fd-jacobian" : "") + (fdg ? " fd-gradient" : "") + (qn ? " quasi-newton" : "") + (dep ? " dependent constraints" : "") + " xl=" + S(t->xl) + " xu=" + S(t->xu) + " gl=" + S(t->gl) + " gu=" + S(t->gu);
      setcase("spaces", cs);
      SmartPtr<TNLPAdapter> ad = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst()));
      ad->ProcessOptions(*O, "");
      SmartPtr<const VectorSpace> xs, c_s, ds, xls, xus, dls, dus;
      SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jcs, jds;
      SmartPtr<const SymMatrixSpace> hs;
      // ---- what is expected
      VI nf, fx, eq_, in_, xl_, xu_, dl_, du_;
      for( int k = 0; k < m; k++ )
      {
         if( t->gl[k] == t->gu[k] ) { eq_.push_back(k); }
         else { if( t->gl[k] > -1e19 ) { dl_.push_back(in_.size()); } if( t->gu[k] < 1e19 ) { du_.push_back(in_.size()); } in_.push_back(k); }
      }
      int nfix = 0;
      for( int i = 0; i < n; i++ ) { nfix += t->xl[i] == t->xu[i]; }
      int T = tr;
      if( T != 3 && nfix && ((T < 2 ? n - nfix : n) < (int) eq_.size()) && (T < 2 ? n - nfix : n) > 0 ) { T = 3; }
      for( int i = 0; i < n; i++ )
      {
         bool f = t->xl[i] == t->xu[i];
         if( f && T < 2 ) { fx.push_back(i); continue; }
         if( f && T == 2 ) { fx.push_back(i); }
         if( (f && T == 3) || (!f && t->xl[i] > -1e19) ) { xl_.push_back(nf.size()); }
         if( (f && T == 3) || (!f && t->xu[i] < 1e19) ) { xu_.push_back(nf.size()); }
         nf.push_back(i);
      }
      if( T < 2 ) { t->fixed = fx; }
      bool ok = ad->GetSpaces(xs, c_s, ds, xls, pxl, xus, pxu, dls, pdl, dus, pdu, jcs, jds, hs);
      chk(ok, "GetSpaces fails");
      if( dep )
      {
         VI q = pos(*ad->P_c_g_);
         size_t k = 0;
         for( int e : q ) { while( k < eq_.size() && eq_[k] != e ) { k++; } if( k >= eq_.size() ) { fail("remaining equality constraints are not a part of the equality constraints in their order"); } k++; }
         if( q.size() == eq_.size() && n > 0 ) { fail("no dependent constraint is removed although two are equal"); }
         eq_ = q;
      }
      int nc = eq_.size(), nx = nf.size(), nd = in_.size(), ncf = nc + (T == 2 ? fx.size() : 0);
      chk(xs->Dim() == nx && c_s->Dim() == ncf && ds->Dim() == nd && xls->Dim() == (int) xl_.size() && xus->Dim() == (int) xu_.size() && dls->Dim() == (int) dl_.size() && dus->Dim() == (int) du_.size(), "dimensions of the spaces");
      SmartPtr<Matrix> PXL = pxl->MakeNew(), PXU = pxu->MakeNew(), PDL = pdl->MakeNew(), PDU = pdu->MakeNew();
      chk(pos(*PXL) == xl_ && pos(*PXU) == xu_ && pos(*PDL) == dl_ && pos(*PDU) == du_, "positions of the bounds");
      chk(pos(*ad->P_c_g_) == eq_ && pos(*ad->P_d_g_) == in_, "positions of the constraints");
      auto map = [](const VI& a, const VI& b) { VI r; for( int i : a ) { r.push_back(b[i]); } return r; };
      mdeq("x", DS(xs), nf, *t, true);
      mdeq("lower bounds", DS(xls), map(xl_, nf), *t, true);
      mdeq("upper bounds", DS(xus), map(xu_, nf), *t, true);
      if( T != 2 || fx.empty() ) { mdeq("c", DS(c_s), eq_, *t, false); }
      mdeq("d", DS(ds), in_, *t, false);
      mdeq("lower bounds of d", DS(dls), map(dl_, in_), *t, false);
      mdeq("upper bounds of d", DS(dus), map(du_, in_), *t, false);
      // ---- bounds
      setcase("bounds", cs);
      SmartPtr<Vector> XL = xls->MakeNew(), XU = xus->MakeNew(), DL = dls->MakeNew(), DU = dus->MakeNew();
      chk(ad->GetBoundsInformation(*PXL, *XL, *PXU, *XU, *PDL, *DL, *PDU, *DU), "GetBoundsInformation fails");
      VD el = t->xl, eu = t->xu;
      double br = std::max(1e-8, brf);
      if( T == 3 ) { for( int i = 0; i < n; i++ ) { if( t->xl[i] == t->xu[i] ) { el[i] -= br * std::max(1., std::fabs(el[i])); eu[i] += br * std::max(1., std::fabs(eu[i])); } } }
      auto exact = [](const char* w, const VD& a, const VD& b) { if( a != b ) { fail(std::string(w) + ": got " + S(a) + ", expected " + S(b)); } };
      exact("lower bounds of x", dv(*XL), sub(el, map(xl_, nf)));
      exact("upper bounds of x", dv(*XU), sub(eu, map(xu_, nf)));
      exact("lower bounds of d", dv(*DL), sub(t->gl, map(dl_, in_)));
      exact("upper bounds of d", dv(*DU), sub(t->gu, map(du_, in_)));
      // ---- starting point
      setcase("starting point", cs);
      for( int i = 0; i < n; i++ ) { t->z0l.push_back(rval()); t->z0u.push_back(rval()); }
      for( int k = 0; k < m; k++ ) { t->lam0.push_back(rval()); }
      {
         bool need[5];
         for( bool& b : need ) { b = ri(0, 3) != 0; }
         SmartPtr<Vector> v[5] = {xs->MakeNew(), c_s->MakeNew(), ds->MakeNew(), xls->MakeNew(), xus->MakeNew()};
         for( auto& q : v ) { q->Set(77.); }
         chk(ad->GetStartingPoint(v[0], need[0], v[1], need[1], v[2], need[2], v[3], need[3], v[4], need[4]), "GetStartingPoint fails");
         VD e[5] = {sub(t->x0, nf), sub(t->lam0, eq_), sub(t->lam0, in_), sub(t->z0l, map(xl_, nf)), sub(t->z0u, map(xu_, nf))};
         if( T == 2 ) { for( int i : fx ) { e[1].push_back(t->z0u[i] - t->z0l[i]); } }
         static const char* W[] = {"starting x", "starting y_c", "starting y_d", "starting z_L", "starting z_U"};
         for( int k = 0; k < 5; k++ ) { exact(W[k], dv(*v[k]), need[k] ? e[k] : VD(e[k].size(), 77.)); }
      }
      // ---- scaling parameters
      t->user_scaling = true; t->use_xs = ri(0, 1); t->use_gs = ri(0, 1); t->obj_s = rpos();
      for( int i = 0; i < n; i++ ) { t->xs.push_back(rpos()); }
      for( int k = 0; k < m; k++ ) { t->gs.push_back(rpos()); }
      {
         setcase("scaling parameters", cs);
         Number os = -1.;
         SmartPtr<Vector> a, b, c;
         ad->GetScalingParameters(xs, c_s, ds, os, a, b, c);
         eq("objective scaling", os, t->obj_s);
         chk(IsValid(a) == t->use_xs && IsValid(b) == t->use_gs && IsValid(c) == t->use_gs, "presence of scaling vectors");
         if( t->use_xs ) { exact("variable scaling", dv(*a), sub(t->xs, nf)); }
         if( t->use_gs ) { VD e = sub(t->gs, eq_); e.resize(ncf, 1.); exact("scaling of c", dv(*b), e); exact("scaling of d", dv(*c), sub(t->gs, in_)); }
      }
      // ---- space of the quasi-Newton approximation
      {
         setcase("quasi-Newton space", cs);
         SmartPtr<VectorSpace> as;
         SmartPtr<Matrix> P;
         ad->GetQuasiNewtonApproximationSpaces(as, P);
         VI nl = t->nlvars;
         if( t->nonlin < 0 ) { nl.clear(); for( int i = qn ? nlin : 0; i < n; i++ ) { nl.push_back(i); } }
         VI e;
         for( int i : nl ) { for( int k = 0; k < nx; k++ ) { if( nf[k] == i ) { e.push_back(k); } } }
         if( (int) e.size() == nx ) { chk(IsNull(P), "no subspace is needed"); }
         else { chk(IsValid(P) && as->Dim() == (int) e.size() && P->NRows() == nx && pos(*P) == e, "space of nonlinear variables"); }
      }
      // ---- evaluations in any order, with any repetitions and failures
      SmartPtr<Vector> X[3], YC[2], YD[2];
      for( auto& q : X ) { q = rvec(*xs, true); }
      for( auto& q : YC ) { q = rvec(*c_s, false); }
      for( auto& q : YD ) { q = rvec(*ds, false); }
      SmartPtr<Matrix> JC = jcs->MakeNew(), JD = jds->MakeNew();
      auto fullx = [&](const Vector& x) { VD a = t->xl, b = dv(x); for( int k = 0; k < nx; k++ ) { a[nf[k]] = b[k]; } return a; };
      auto fulll = [&](const Vector& yc, const Vector& yd) { VD a(m, 0.), b = dv(yc), c = dv(yd); for( int k = 0; k < nc; k++ ) { a[eq_[k]] = b[k]; } for( int k = 0; k < nd; k++ ) { a[in_[k]] = c[k]; } return a; };
      int cnt = ri(4, 14);
      for( int e = 0; e <= cnt; e++ )
      {
         int k = ri(0, 2), w = e == cnt ? 6 : ri(0, 5);
         if( ri(0, 3) == 0 ) { X[k] = rvec(*xs, true); }
         if( ri(0, 4) == 0 ) { VD a = dv(*X[k]); if( nx ) { a[ri(0, nx - 1)] += 0.25; setv(*X[k], a); } }
         if( ri(0, 4) == 0 ) { YC[0] = rvec(*c_s, false); }
         if( ri(0, 4) == 0 ) { YD[1] = rvec(*ds, false); }
         const Vector& x = *X[k];
         VD fxv = fullx(x);
         const double* fp = fxv.data();
         SmartPtr<Vector> yc = YC[ri(0, 1)], yd = YD[ri(0, 1)];
         t->want = fxv; t->active = true; t->wantl = fulll(*yc, *yd);
         t->pert = (w == 1 && fdg) || ((w == 3 || w == 5 || w == 6) && fdj);
         t->failin = w < 6 && ri(0, 4) == 0 ? ri(0, t->pert ? 3 : 0) : -1;
         t->failedin = "";
         static const char* W[] = {"objective", "gradient", "equality constraints", "Jacobian of equality constraints", "inequality constraints", "Jacobian of inequality constraints", "final solution"};
         int hes = w < 6 && !qn && ri(0, 3) == 0;
         if( hes ) { t->pert = false; }
         setcase(hes ? "Hessian" : W[w], cs + " x=" + S(fxv) + " evaluation " + std::to_string(e));
         bool r;
         auto failed = [&](bool r) { if( r != t->failedin.empty() ) { fail(r ? t->failedin + " failed, but the evaluation is reported as successful" : "the evaluation fails without a failure of the user functions"); } t->failin = -1; return !r; };
         if( hes )
         {
            SmartPtr<SymMatrix> H = hs->MakeNewSymMatrix();
            SymTMatrix* h = dynamic_cast<SymTMatrix*>(GetRawPtr(H));
            double of = ri(0, 2) ? rval() : 0.;
            std::fill(h->Values(), h->Values() + h->Nonzeros(), 77.);
            r = ad->Eval_h(x, of, *yc, *yd, *h);
            if( failed(r) ) { continue; }
            std::vector<VD> E(nx, VD(nx, 0.));
            VI inv(n, -1);
            for( int q = 0; q < nx; q++ ) { inv[nf[q]] = q; }
            VD yl = t->wantl;
            auto add = [&](const Ent& q, double f) { int a = inv[q.i], b = inv[q.j]; if( a >= 0 && b >= 0 ) { E[a][b] += f * q.v; if( a != b ) { E[b][a] += f * q.v; } } };
            for( auto& q : t->Q ) { add(q, of); }
            for( int g = 0; g < m; g++ ) { for( auto& q : t->B[g] ) { add(q, yl[g]); } }
            eqm("Hessian", dense(nx, nx, h->Nonzeros(), h->Irows(), h->Jcols(), h->Values(), true), E, 1e-12);
         }
         else if( w == 0 )
         {
            Number f;
            r = ad->Eval_f(x, f);
            if( failed(r) ) { continue; }
            eq("objective", f, t->f(fp));
         }
         else if( w == 1 )
         {
            SmartPtr<Vector> g = xs->MakeNew();
            g->Set(77.);
            r = ad->Eval_grad_f(x, *g);
            if( failed(r) ) { continue; }
            eqv("gradient", dv(*g), sub(t->gradf(fp), nf), fdg ? 1e-4 : 1e-12);
         }
         else if( w == 2 || w == 4 )
         {
            SmartPtr<Vector> c = w == 2 ? c_s->MakeNew() : ds->MakeNew();
            c->Set(77.);
            r = w == 2 ? ad->Eval_c(x, *c) : ad->Eval_d(x, *c);
            if( failed(r) ) { continue; }
            VD g = t->g(fp), E;
            if( w == 2 ) { for( int q : eq_ ) { E.push_back(g[q] - t->gl[q]); } if( T == 2 ) { for( int i : fx ) { E.push_back(fxv[i] - t->xl[i]); } } }
            else { E = sub(g, in_); }
            eqv(W[w], dv(*c), E, 1e-12);
         }
         else if( w == 3 || w == 5 )
         {
            GenTMatrix* J = dynamic_cast<GenTMatrix*>(GetRawPtr(w == 3 ? JC : JD));
            std::fill(J->Values(), J->Values() + J->Nonzeros(), 77.);
            r = w == 3 ? ad->Eval_jac_c(x, *J) : ad->Eval_jac_d(x, *J);
            if( failed(r) ) { continue; }
            std::vector<VD> F = t->jac(fp), E;
            for( int q : w == 3 ? eq_ : in_ ) { E.push_back(sub(F[q], nf)); }
            if( w == 3 && T == 2 ) { for( int i : fx ) { VD row(nx, 0.); row[i] = 1.; E.push_back(row); } }
            eqm(W[w], dense(w == 3 ? ncf : nd, nx, J->Nonzeros(), J->Irows(), J->Jcols(), J->Values(), false), E, fdj ? 1e-4 : 1e-12);
         }
         else
         {
            SmartPtr<Vector> zl = rvec(*xls, false), zu = rvec(*xus, false), c = rvec(*c_s, false), d = rvec(*ds, false);
            SolverReturn st = ri(0, 3) ? (SolverReturn) ri(SUCCESS, FEASIBLE_POINT_FOUND) : INVALID_NUMBER_DETECTED;
            double obj = rval();
            bool sol = st == SUCCESS || st == MAXITER_EXCEEDED || st == STOP_AT_TINY_STEP || st == STOP_AT_ACCEPTABLE_POINT || st == LOCAL_INFEASIBILITY || st == USER_REQUESTED_STOP || st == FEASIBLE_POINT_FOUND || st == DIVERGING_ITERATES || st == RESTORATION_FAILURE || st == ERROR_IN_STEP_COMPUTATION;
            ad->FinalizeSolution(st, x, *zl, *zu, *c, *d, *yc, *yd, obj, NULL, NULL);
            chk(t->finalized == 1 && t->status == st && t->sf == obj, "status and objective of the final solution");
            exact("final x", t->sx, fxv);
            exact("final multipliers of the constraints", t->slam, t->wantl);
            VD g(m, 0.), cv = dv(*c), dd = dv(*d), a(n, 0.), b(n, 0.), zlv = dv(*zl), zuv = dv(*zu), ycv = dv(*yc);
            for( int q = 0; q < nc; q++ ) { g[eq_[q]] = cv[q] + t->gl[eq_[q]]; }
            for( int q = 0; q < nd; q++ ) { g[in_[q]] = dd[q]; }
            if( !(dep && T == 2) ) { eqv("final constraint values", t->sg, g, 1e-12); }
            for( size_t q = 0; q < xl_.size(); q++ ) { a[nf[xl_[q]]] = zlv[q]; }
            for( size_t q = 0; q < xu_.size(); q++ ) { b[nf[xu_[q]]] = zuv[q]; }
            if( sol && T == 2 ) { for( size_t q = 0; q < fx.size(); q++ ) { a[fx[q]] = std::max(0., -ycv[nc + q]); b[fx[q]] = std::max(0., ycv[nc + q]); } }
            if( sol && T == 0 )
            {
               VD gr = t->gradf(fp);
               auto F = t->jac(fp);
               for( int i : fx ) { double s = gr[i]; for( int q = 0; q < m; q++ ) { s += t->wantl[q] * F[q][i]; } a[i] = std::max(0., s); b[i] = std::max(0., -s); }
            }
            eqv("final multipliers of the lower bounds", t->szl, a, fdj ? 1e-4 : 1e-12);
            eqv("final multipliers of the upper bounds", t->szu, b, fdj ? 1e-4 : 1e-12);
            if( t->hasmd )
            {
               chk(t->gotmd && t->rx.count("md"), "metadata are returned");
               eqv("metadata of the variables", sub(t->rx["md"], nf), sub(t->mdx, nf));
               if( t->rg.count("md") ) { VI q = eq_; q.insert(q.end(), in_.begin(), in_.end()); eqv("metadata of the constraints", sub(t->rg["md"], q), sub(t->mdg, q)); }
            }
         }
      }
   }
   return h_done();
}
