// run-time contracts of the status mapping: every way a solve can end gives the documented return code and the documented status of the final solution
#include "fix.hpp"
#include "IpRestoPhase.hpp"
#include "IpAlgTypes.hpp"
#include "IpLibraryLoader.hpp"
#include "IpUtils.hpp"
#include "IpAugSystemSolver.hpp"
#include <new>
#include <stdexcept>
#include <thread>
#include <chrono>
struct St { ApplicationReturnStatus ret; int fin; };      // fin < 0: no final solution
static const St PAIRS[] = {{Solve_Succeeded, SUCCESS}, {Solved_To_Acceptable_Level, STOP_AT_ACCEPTABLE_POINT}, {Infeasible_Problem_Detected, LOCAL_INFEASIBILITY}, {Search_Direction_Becomes_Too_Small, STOP_AT_TINY_STEP},
   {Diverging_Iterates, DIVERGING_ITERATES}, {User_Requested_Stop, USER_REQUESTED_STOP}, {Feasible_Point_Found, FEASIBLE_POINT_FOUND}, {Maximum_Iterations_Exceeded, MAXITER_EXCEEDED}, {Restoration_Failed, RESTORATION_FAILURE},
   {Error_In_Step_Computation, ERROR_IN_STEP_COMPUTATION}, {Maximum_CpuTime_Exceeded, CPUTIME_EXCEEDED}, {Maximum_WallTime_Exceeded, WALLTIME_EXCEEDED}, {Not_Enough_Degrees_Of_Freedom, TOO_FEW_DEGREES_OF_FREEDOM},
   {Invalid_Problem_Definition, LOCAL_INFEASIBILITY}, {Invalid_Option, INVALID_OPTION}, {Invalid_Option, INTERNAL_ERROR}, {Invalid_Number_Detected, INVALID_NUMBER_DETECTED}, {Unrecoverable_Exception, INTERNAL_ERROR},
   {NonIpopt_Exception_Thrown, INTERNAL_ERROR}, {Insufficient_Memory, OUT_OF_MEMORY}, {Internal_Error, -1}};
struct Exc { const char* name; std::function<void()> thr; St reg, resto; bool square_differs; };
#define X(c) [] { throw c("injected", "monitor", 0); }
static const St FAIL = {Restoration_Failed, RESTORATION_FAILURE};
static std::vector<Exc> table()
{
   St tiny = {Search_Direction_Becomes_Too_Small, STOP_AT_TINY_STEP}, acc = {Solved_To_Acceptable_Level, STOP_AT_ACCEPTABLE_POINT}, inf = {Infeasible_Problem_Detected, LOCAL_INFEASIBILITY}, fea = {Feasible_Point_Found, FEASIBLE_POINT_FOUND};
   St mi = {Maximum_Iterations_Exceeded, MAXITER_EXCEEDED}, ct = {Maximum_CpuTime_Exceeded, CPUTIME_EXCEEDED}, wt = {Maximum_WallTime_Exceeded, WALLTIME_EXCEEDED}, us = {User_Requested_Stop, USER_REQUESTED_STOP};
   St oi = {Invalid_Option, INVALID_OPTION}, dl = {Invalid_Option, INTERNAL_ERROR}, ib = {Invalid_Problem_Definition, LOCAL_INFEASIBILITY}, un = {Unrecoverable_Exception, INTERNAL_ERROR}, me = {Insufficient_Memory, OUT_OF_MEMORY}, ni = {NonIpopt_Exception_Thrown, INTERNAL_ERROR};
   return {
      {"TINY_STEP_DETECTED", X(TINY_STEP_DETECTED), tiny, inf, true}, {"ACCEPTABLE_POINT_REACHED", X(ACCEPTABLE_POINT_REACHED), acc, inf, true},
      {"LOCALLY_INFEASIBLE", X(LOCALLY_INFEASIBLE), inf, inf, false},
      {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT", X(RESTORATION_CONVERGED_TO_FEASIBLE_POINT), FAIL, FAIL, true},
      {"RESTORATION_FAILED", X(RESTORATION_FAILED), FAIL, FAIL, false}, {"RESTORATION_MAXITER_EXCEEDED", X(RESTORATION_MAXITER_EXCEEDED), mi, mi, false},
      {"RESTORATION_CPUTIME_EXCEEDED", X(RESTORATION_CPUTIME_EXCEEDED), ct, ct, false}, {"RESTORATION_WALLTIME_EXCEEDED", X(RESTORATION_WALLTIME_EXCEEDED), wt, wt, false},
      {"RESTORATION_USER_STOP", X(RESTORATION_USER_STOP), us, us, false}, {"STEP_COMPUTATION_FAILED", X(STEP_COMPUTATION_FAILED), {Error_In_Step_Computation, ERROR_IN_STEP_COMPUTATION}, FAIL, false},
      {"Eval_Error", X(IpoptNLP::Eval_Error), {Invalid_Number_Detected, INVALID_NUMBER_DETECTED}, FAIL, false},
      {"FEASIBILITY_PROBLEM_SOLVED", X(FEASIBILITY_PROBLEM_SOLVED), fea, FAIL, false},
      {"TOO_FEW_DOF", X(TOO_FEW_DOF), {Not_Enough_Degrees_Of_Freedom, TOO_FEW_DEGREES_OF_FREEDOM}, FAIL, false}, {"INTERNAL_ABORT", X(INTERNAL_ABORT), {Internal_Error, -1}, FAIL, false},
      {"OPTION_INVALID", X(OPTION_INVALID), oi, oi, false}, {"DYNAMIC_LIBRARY_FAILURE", X(DYNAMIC_LIBRARY_FAILURE), dl, dl, false}, {"INCONSISTENT_BOUNDS", X(INCONSISTENT_BOUNDS), ib, ib, false},
      {"INVALID_WARMSTART", X(INVALID_WARMSTART), un, un, false}, {"FATAL_ERROR_IN_LINEAR_SOLVER", X(FATAL_ERROR_IN_LINEAR_SOLVER), un, un, false}, {"FAILED_INITIALIZATION", X(FAILED_INITIALIZATION), un, un, false},
      {"bad_alloc", [] { throw std::bad_alloc(); }, me, me, false}, {"overflow_error", [] { throw std::overflow_error("injected"); }, me, me, false}, {"runtime_error", [] { throw std::runtime_error("injected"); }, ni, ni, false}, {"int", [] { throw 1; }, ni, ni, false}};
}
static void expect(Fix& F, const St& s, const std::string& what)
{
   chk(F.ret == s.ret, what + ": return code " + S((double) F.ret) + " instead of " + S((double) s.ret));
   if( s.fin < 0 ) { chk(F.t->finalized == 0, what + ": there is no final solution"); return; }
   chk(F.t->finalized == 1, what + ": the final solution is passed once");
   chk((int) F.t->status == s.fin, what + ": status of the final solution " + S((double) F.t->status) + " instead of " + S((double) s.fin));
}
// the pair of codes is one of the documented ones
static bool consistent(Fix& F)
{
   for( const St& s : PAIRS ) { if( s.ret == F.ret && (F.t->finalized ? (int) F.t->status == s.fin : true) ) { return true; } }
   return false;
}
static SmartPtr<PNLP> square(int n)
{
   SmartPtr<PNLP> t = new PNLP(n, n);
   for( int i = 0; i < n; i++ ) { t->A[i][i] = 1.; t->B[i].push_back(Ent{i, i, 0.25}); t->x0[i] = 1. + ri(0, 3); t->gl[i] = t->gu[i] = 2.; t->Q.push_back(Ent{i, i, 1.}); }
   return t;
}
// infeasible start: restoration can be started
static SmartPtr<PNLP> infeasible_start(int n)
{
   SmartPtr<PNLP> t = new PNLP(n, 1);
   for( int i = 0; i < n; i++ ) { t->A[0][i] = 1.; t->B[0].push_back(Ent{i, i, 2.}); t->x0[i] = 3. + ri(0, 3); t->Q.push_back(Ent{i, i, 1.}); t->c[i] = rval(); }
   t->gl[0] = -1e20; t->gu[0] = -1. + 0.25 * ri(-1, 4);
   if( ri(0, 1) ) { t->gl[0] = t->gu[0]; }
   return t;
}

int main()
{
   h_init();
   auto T = table();
   int N = THOROUGH ? 30 : 5;
#ifdef DEMO
   N = DEMO;
#endif
   for( int rep = 0; rep < N; rep++ )
   {
      for( auto& e : T )
      {
         std::string nm = e.name;
         for( int kind = 0; kind < 5; kind++ )
         {
            if( kind == 3 && nm != "Eval_Error" && nm != "bad_alloc" && nm != "overflow_error" && nm != "runtime_error" && nm != "int" ) { continue; }     // what a user's functions may throw
            // 0: main loop, 1: first test, 2: restoration phase, 3: while the functions are evaluated, 4: main loop of a square problem
            SmartPtr<PNLP> t = kind == 4 ? square(ri(1, 3)) : kind == 2 ? infeasible_start(ri(2, 4)) : randproblem(ri(2, 4), ri(0, 2));
            Fix F(t);
            int at = kind == 1 ? 0 : ri(1, 3), seen = 0;
            bool thrown = false, skip = ri(0, 9) == 0;
            setcase("injected", std::string(e.name) + " in " + (kind == 2 ? "restoration" : kind == 3 ? "evaluation" : kind == 4 ? "square problem" : "main loop") + " at " + std::to_string(at));
            F.num("tol", 1e-9);
            F.in("mumps_permuting_scaling", 0); F.in("mumps_scaling", 0);
            if( kind == 2 ) { F.str("start_with_resto", "yes"); }
            if( skip ) { F.str("skip_finalize_solution_call", "yes"); }
            if( kind == 3 ) { t->evalhook = [&](const char* w, const double*) { if( std::string(w) == "grad_f" && ++seen == at + 1 ) { thrown = true; e.thr(); } return true; }; }
            else { t->cb = [&](PNLP&, AlgorithmMode md, int, const IpoptData*, IpoptCalculatedQuantities*) { if( thrown || (md == RestorationPhaseMode) != (kind == 2) ) { return true; } if( seen++ == at ) { thrown = true; e.thr(); } return true; }; }
            F.solve();
            if( !thrown ) { chk(consistent(F), "codes of an undisturbed solve fit together"); continue; }
            if( skip )
            {
               chk(t->finalized == 0, "no final solution if the user does not want it");
               continue;
            }
            St s = kind == 2 ? e.resto : e.reg;
            if( kind == 4 && e.square_differs && std::string(e.name)[0] == 'R' ) { s = {Feasible_Point_Found, FEASIBLE_POINT_FOUND}; }
            if( kind == 2 && e.square_differs && std::string(e.name)[0] != 'R' )
            {
               // depends on the violation of the constraints where the restoration phase stopped
               VD g = t->g(t->sx.data());
               double viol = std::max(0., std::max(t->gl[0] - g[0], g[0] - t->gu[0]));
               if( viol < 1e-7 ) { s = FAIL; } else if( viol < 1e-3 ) { chk(F.ret == s.ret || F.ret == FAIL.ret, "restoration stopped near a feasible point"); s = {F.ret, F.ret == s.ret ? s.fin : FAIL.fin}; }
            }
            if( kind == 3 && std::string(e.name) == "Eval_Error" ) { chk(consistent(F), "codes after an evaluation error fit together"); continue; }
            if( kind == 3 && F.ret != s.ret ) { chk(consistent(F) && F.ret != Solve_Succeeded, std::string(e.name) + " in an evaluation"); continue; }
            expect(F, s, e.name);
            if( s.fin == LOCAL_INFEASIBILITY || s.fin == MAXITER_EXCEEDED || s.fin == USER_REQUESTED_STOP || s.fin == STOP_AT_TINY_STEP || s.fin == RESTORATION_FAILURE || s.fin == ERROR_IN_STEP_COMPUTATION )
            {
               VD g = t->g(t->sx.data());
               chk(std::fabs(t->sf - t->f(t->sx.data())) <= 1e-8 * (1. + std::fabs(t->sf)), "objective of the final point");
               for( size_t k = 0; k < g.size(); k++ ) { chk(std::fabs(g[k] - t->sg[k]) <= 1e-8 * (1. + std::fabs(g[k])), "constraints of the final point"); }
            }
         }
      }
      // ---- natural endings
      for( int q = 0; q < 14; q++ )
      {
         SmartPtr<PNLP> t = q == 2 || q == 3 || q == 12 ? infeasible_start(ri(2, 4)) : randproblem(ri(2, 4), ri(0, 2), q == 9);
         Fix F(t);
         F.in("mumps_permuting_scaling", 0); F.in("mumps_scaling", 0);
         bool hit = false;
         int at = ri(0, 3), seen = 0;
         setcase("ending", std::to_string(q) + " at " + std::to_string(at));
         auto stop = [&](bool resto) { t->cb = [&, resto](PNLP&, AlgorithmMode md, int, const IpoptData*, IpoptCalculatedQuantities*) { if( (md == RestorationPhaseMode) == resto && seen++ >= at ) { hit = true; return false; } return true; }; };
         switch( q )
         {
            case 0: F.solve(); chk(F.ret == Solve_Succeeded || F.ret == Solved_To_Acceptable_Level || F.ret == Infeasible_Problem_Detected || F.ret == Restoration_Failed || F.ret == Search_Direction_Becomes_Too_Small || F.ret == Maximum_Iterations_Exceeded, "plain solve"); chk(consistent(F), "codes fit together");
               if( F.ret == Solve_Succeeded ) { VD g = t->g(t->sx.data()); for( int k = 0; k < t->m; k++ ) { chk(g[k] >= t->gl[k] - 1e-3 && g[k] <= t->gu[k] + 1e-3, "success without a feasible point"); } } break;
            case 1: stop(false); F.solve(); if( hit ) { expect(F, {User_Requested_Stop, USER_REQUESTED_STOP}, "stop by the user"); } break;
            case 2: stop(true); F.str("start_with_resto", "yes"); F.solve(); if( hit ) { expect(F, {User_Requested_Stop, USER_REQUESTED_STOP}, "stop by the user in the restoration phase"); } break;
            case 3:
            {
               F.str("start_with_resto", "yes"); F.in("max_iter", at + 1); int last = -1; bool lastresto = false;
               t->cb = [&](PNLP&, AlgorithmMode md, int it, const IpoptData*, IpoptCalculatedQuantities*) { last = it; lastresto = md == RestorationPhaseMode; return true; };
               F.solve(); if( last == at + 1 && lastresto ) { expect(F, {Maximum_Iterations_Exceeded, MAXITER_EXCEEDED}, "iteration limit in the restoration phase"); } chk(consistent(F), "codes fit together"); chk(last <= at + 1, "the iteration limit holds"); break;
            }
            case 4: F.in("max_iter", 0); F.num("tol", 1e-12); F.solve(); chk(F.ret == Maximum_Iterations_Exceeded || F.ret == Solve_Succeeded, "no iteration allowed"); chk(consistent(F), "codes fit together"); break;
            case 5: F.num("max_wall_time", 0.02); t->cb = [&](PNLP&, AlgorithmMode, int, const IpoptData*, IpoptCalculatedQuantities*) { if( seen++ == 0 ) { std::this_thread::sleep_for(std::chrono::milliseconds(30)); hit = true; } return true; };
               F.num("tol", 1e-12); F.num("acceptable_tol", 1e-12); F.solve(); if( hit && F.ret != Solve_Succeeded ) { expect(F, {Maximum_WallTime_Exceeded, WALLTIME_EXCEEDED}, "wall clock limit"); } chk(!hit || seen <= 2, "wall clock limit stops the solve"); chk(consistent(F), "codes fit together"); break;
            case 6: F.num("max_cpu_time", 0.02); t->cb = [&](PNLP&, AlgorithmMode, int, const IpoptData*, IpoptCalculatedQuantities*) { if( seen++ == 0 ) { double c = CpuTime(); volatile double x = 1.; while( CpuTime() - c < 0.04 ) { for( int i = 0; i < 100000; i++ ) { x = x * 1.0000001; } } hit = true; } return true; };
               F.num("tol", 1e-12); F.num("acceptable_tol", 1e-12); F.solve(); if( hit && F.ret != Solve_Succeeded ) { expect(F, {Maximum_CpuTime_Exceeded, CPUTIME_EXCEEDED}, "CPU time limit"); } chk(!hit || seen <= 2, "CPU time limit stops the solve"); chk(consistent(F), "codes fit together"); break;
            case 7: t->evalhook = [&](const char* w, const double*) { return std::string(w) != "f"; }; F.solve(); chk(F.ret == Invalid_Number_Detected && consistent(F), "objective cannot be evaluated: return code " + S((double) F.ret)); break;
            case 8: { SmartPtr<PNLP> u = new PNLP(2, 0); u->c = {1., 1.}; u->Q.clear(); Fix G(u); G.num("diverging_iterates_tol", 1e3); G.solve(); expect(G, {Diverging_Iterates, DIVERGING_ITERATES}, "unbounded problem"); break; }
            case 9: t->xl[0] = 1.; t->xu[0] = -1.; F.solve(); chk(F.ret == Invalid_Problem_Definition && t->finalized == 0, "inconsistent bounds"); break;
            case 10: { SmartPtr<PNLP> u = new PNLP(1, 2); u->A[0][0] = 1.; u->A[1][0] = 1.; u->gl = u->gu = {1., 2.}; u->Q.push_back(Ent{0, 0, 1.}); Fix G(u); G.solve(); expect(G, {Not_Enough_Degrees_Of_Freedom, -1}, "too few degrees of freedom"); break; }
            case 11: F.str("nlp_scaling_method", "user-scaling"); F.solve(); chk(F.ret == Invalid_Option && t->finalized == 0, "scaling that is not there"); break;
            case 12: t->gl[0] = -1e20; t->gu[0] = -5.; F.solve(); chk(F.ret == Infeasible_Problem_Detected || F.ret == Restoration_Failed, "infeasible problem: return code " + S((double) F.ret)); chk(consistent(F), "codes fit together"); break;
            case 13: { SmartPtr<PNLP> u = square(ri(1, 3)); Fix G(u); G.str("start_with_resto", "yes"); G.solve(); chk(G.ret == Solve_Succeeded || G.ret == Feasible_Point_Found || G.ret == Solved_To_Acceptable_Level, "square problem: return code " + S((double) G.ret)); chk(consistent(G), "codes fit together"); VD g = u->g(u->sx.data()); for( double x : g ) { chk(std::fabs(x - 2.) < 1e-3, "square problem is solved"); } break; }
         }
      }
   }
   return h_done();
}
