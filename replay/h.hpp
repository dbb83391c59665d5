// common parts of the run-time contract monitors
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <random>
#include <limits>
#include <csignal>
#include <unistd.h>

static std::mt19937_64 RNG;
static std::string CASE;
static long EVALS = 0;
static std::map<std::string, long> GROUPS;
static bool THOROUGH = false;

inline void on_signal(int s)
{
   const char* m = s == SIGALRM ? "FAIL no result within the time limit: " : "FAIL crash: ";
   (void) !write(1, m, strlen(m));
   (void) !write(1, CASE.c_str(), CASE.size());
   (void) !write(1, "\n", 1);
   _exit(1);
}
extern "C" inline void h_asan_report(const char* r)
{
   printf("FAIL memory error in case %s\n%.1500s\n", CASE.c_str(), r);
   fflush(stdout);
   _exit(1);
}
extern "C" void __asan_set_error_report_callback(void (*)(const char*));

inline void h_init()
{
   setvbuf(stdout, NULL, _IOLBF, 0);
   const char* s = getenv("VERIF_SEED");
   RNG.seed(s ? strtoull(s, 0, 10) * 7919 + 17 : 17);
   const char* t = getenv("VERIF_TIER");
   THOROUGH = t && !strcmp(t, "thorough");
   __asan_set_error_report_callback(h_asan_report);
   signal(SIGALRM, on_signal);
   signal(SIGABRT, on_signal);
   signal(SIGFPE, on_signal);
   alarm(THOROUGH ? 700 : 200);
}
inline int h_done()
{
   for( auto& g : GROUPS )
   {
      printf("COVER %s %ld\n", g.first.c_str(), g.second);
   }
   printf("EVALS %ld\n", EVALS);
   fflush(stdout);
   _exit(0);
}
[[noreturn]] inline void fail(const std::string& m)
{
   printf("FAIL %s\n  in case: %s\n", m.c_str(), CASE.c_str());
   fflush(stdout);
   _exit(1);
}
inline void setcase(const std::string& g, const std::string& c)
{
   CASE = g + ": " + c;
   EVALS++;
   GROUPS[g]++;
}
inline int ri(int lo, int hi)
{
   return lo + (int) (RNG() % (unsigned long) (hi - lo + 1));
}
inline double rd01()
{
   return (RNG() >> 11) * (1.0 / 9007199254740992.0);
}
// values that provoke special cases, small integers so that sums stay exact
inline double rval()
{
   static const double S[] = {0., 1., -1., 2., -2., 3., -3., 0.5, -0.5, 4., -0.25, 8., -7., 1.5};
   return S[RNG() % (sizeof(S) / sizeof(*S))];
}
inline double rpos()
{
   static const double S[] = {1., 2., 0.5, 4., 0.25, 8., 1.5, 3.};
   return S[RNG() % (sizeof(S) / sizeof(*S))];
}
inline bool close(double a, double b, double tol = 1e-9)
{
   if( a == b )
   {
      return true;
   }
   if( std::isnan(a) && std::isnan(b) )
   {
      return true;
   }
   return std::fabs(a - b) <= tol * std::max(1., std::max(std::fabs(a), std::fabs(b)));
}
inline std::string S(double x)
{
   char b[64];
   snprintf(b, sizeof b, "%.17g", x);
   return b;
}
inline std::string S(const std::vector<double>& v)
{
   std::string r = "[";
   for( size_t i = 0; i < v.size(); i++ )
   {
      r += (i ? " " : "") + S(v[i]);
   }
   return r + "]";
}
inline void eq(const std::string& what, double got, double want, double tol = 1e-9)
{
   if( !close(got, want, tol) )
   {
      fail(what + ": got " + S(got) + ", expected " + S(want));
   }
}
inline void eqv(const std::string& what, const std::vector<double>& got, const std::vector<double>& want, double tol = 1e-9)
{
   bool ok = got.size() == want.size();
   for( size_t i = 0; ok && i < got.size(); i++ )
   {
      ok = close(got[i], want[i], tol);
   }
   if( !ok )
   {
      fail(what + ": got " + S(got) + ", expected " + S(want));
   }
}
inline void chk(bool c, const std::string& what)
{
   if( !c )
   {
      fail(what);
   }
}
