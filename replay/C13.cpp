// run-time contracts of the options: exactly the registered values are accepted, and they read back as set
#include "fix.hpp"
#include <cstdarg>
#include <climits>
#include <cfloat>
#include <fstream>

static std::string low(std::string s) { for( char& c : s ) { c = (char) tolower(c); } return s; }
static std::string mixcase(std::string s) { for( char& c : s ) { if( ri(0, 1) ) { c = (char) toupper(c); } } return s; }
static std::string word(int n) { std::string r; for( int i = 0; i < n; i++ ) { r += (char) ('a' + ri(0, 25)); } return r; }

struct O
{
   std::string name; int type; bool hl, hu, ls, us; double lo, up, def; std::string sdef; std::vector<std::string> set;
};
struct E { std::string text; int type; double num; bool clobber; };

static double rnum()
{
   switch( ri(0, 9) )
   {
      case 0: return rval();
      case 1: return rd01() * 2 - 1;
      case 2: return (rd01() - .5) * std::pow(10., ri(-20, 20));
      case 3: return 1. - std::pow(2., -ri(1, 53));
      case 4: return 0.1 * ri(-30, 30);
      case 5: return std::nextafter((double) ri(-3, 3), ri(0, 1) ? 10. : -10.);
      case 6: return ri(0, 1) ? 1e300 : -1e300;
      case 7: return 123456789. * ri(1, 9) + rd01();
      case 8: return ri(-3, 3);
      default: return std::pow(10., -ri(0, 12)) * ri(1, 99);
   }
}
static int rint()
{
   switch( ri(0, 4) ) { case 0: return INT_MAX - ri(0, 1); case 1: return INT_MIN + ri(0, 1); case 2: return ri(-1000000, 1000000); default: return ri(-5, 5); }
}
static const char* YES[] = {"yes", "true", "on"}, *NO[] = {"no", "false", "off"};

static O mk(const std::string& nm, RegisteredOptions& R)
{
   O o; o.name = nm; o.type = ri(0, 2); o.hl = ri(0, 1); o.hu = ri(0, 1); o.ls = ri(0, 1); o.us = ri(0, 1);
   if( o.type == 0 )
   {
      o.lo = rnum(); o.up = ri(0, 4) ? o.lo + std::fabs(rnum()) + 1e-3 : o.lo; o.def = rnum();
      if( o.hl && o.hu ) { R.AddBoundedNumberOption(nm, "s", o.lo, o.ls, o.up, o.us, o.def); }
      else if( o.hl ) { R.AddLowerBoundedNumberOption(nm, "s", o.lo, o.ls, o.def); }
      else if( o.hu ) { R.AddUpperBoundedNumberOption(nm, "s", o.up, o.us, o.def); }
      else { R.AddNumberOption(nm, "s", o.def); }
   }
   else if( o.type == 1 )
   {
      o.lo = ri(-5, 3); o.up = ri(-2, 6); o.def = ri(-9, 9); o.ls = o.us = false;
      if( o.hl && o.hu ) { R.AddBoundedIntegerOption(nm, "s", (int) o.lo, (int) o.up, (int) o.def); }
      else if( o.hl ) { R.AddLowerBoundedIntegerOption(nm, "s", (int) o.lo, (int) o.def); }
      else if( o.hu ) { R.AddUpperBoundedIntegerOption(nm, "s", (int) o.up, (int) o.def); }
      else { R.AddIntegerOption(nm, "s", (int) o.def); }
   }
   else
   {
      int n = ri(0, 11);
      std::set<std::string> used;
      if( n == 0 )
      {
         bool d = ri(0, 1);
         R.AddBoolOption(nm, "s", d); o.set = {"yes", "no"}; o.sdef = d ? "yes" : "no";
         return o;
      }
      if( n == 11 ) { o.set = {"*"}; o.sdef = word(3); R.AddStringOption1(nm, "s", o.sdef, "*", "any"); return o; }
      for( int i = 0; i < n; i++ )
      {
         std::string w; do { w = mixcase(word(ri(1, 3))); } while( used.count(low(w)) );
         used.insert(low(w)); o.set.push_back(w);
      }
      o.sdef = o.set[ri(0, n - 1)];
      const std::vector<std::string>& s = o.set;
      switch( n )
      {
         case 1: R.AddStringOption1(nm, "s", o.sdef, s[0], ""); break;
         case 2: R.AddStringOption2(nm, "s", o.sdef, s[0], "", s[1], ""); break;
         case 3: R.AddStringOption3(nm, "s", o.sdef, s[0], "", s[1], "", s[2], ""); break;
         case 4: R.AddStringOption4(nm, "s", o.sdef, s[0], "", s[1], "", s[2], "", s[3], ""); break;
         case 5: R.AddStringOption5(nm, "s", o.sdef, s[0], "", s[1], "", s[2], "", s[3], "", s[4], ""); break;
         case 6: R.AddStringOption6(nm, "s", o.sdef, s[0], "", s[1], "", s[2], "", s[3], "", s[4], "", s[5], ""); break;
         case 7: R.AddStringOption7(nm, "s", o.sdef, s[0], "", s[1], "", s[2], "", s[3], "", s[4], "", s[5], "", s[6], ""); break;
         case 8: R.AddStringOption8(nm, "s", o.sdef, s[0], "", s[1], "", s[2], "", s[3], "", s[4], "", s[5], "", s[6], "", s[7], ""); break;
         case 9: R.AddStringOption9(nm, "s", o.sdef, s[0], "", s[1], "", s[2], "", s[3], "", s[4], "", s[5], "", s[6], "", s[7], "", s[8], ""); break;
         default: { std::vector<std::string> d(n, ""); R.AddStringOption(nm, "s", o.sdef, s, d); }
      }
   }
   return o;
}
static bool okstr(const O& o, const std::string& v, std::string* m, int* e)
{
   for( size_t i = 0; i < o.set.size(); i++ )
   {
      if( o.set[i] == "*" ) { *m = v; *e = -1; return true; }
      if( low(o.set[i]) == low(v) ) { *m = o.set[i]; *e = (int) i; return true; }
   }
   return false;
}
static bool okrange(const O& o, double v)
{
   if( (o.hl || o.hu) && std::isnan(v) ) { return false; }
   if( o.hl && (o.ls ? !(v > o.lo) : !(v >= o.lo)) ) { return false; }
   if( o.hu && (o.us ? !(v < o.up) : !(v <= o.up)) ) { return false; }
   return true;
}
static std::string num(double x) { char b[64]; snprintf(b, 64, "%.17g", x); return b; }

struct Model
{
   bool reg; std::vector<O> opts; std::map<std::string, E> m;
   const O* opt(const std::string& tag) const
   {
      size_t p = tag.rfind('.');
      std::string t = p == std::string::npos ? tag : tag.substr(p + 1);
      for( const O& o : opts ) { if( o.name == t ) { return &o; } }
      return NULL;
   }
   const E* find(const std::string& tag, const std::string& pfx) const
   {
      std::map<std::string, E>::const_iterator i;
      if( pfx != "" && (i = m.find(low(pfx + tag))) != m.end() ) { return &i->second; }
      i = m.find(low(tag));
      return i == m.end() ? NULL : &i->second;
   }
   bool locked(const std::string& tag) const { std::map<std::string, E>::const_iterator i = m.find(low(tag)); return i != m.end() && !i->second.clobber; }
};
enum { THROWN = -1 };
template <class F> static int guarded(F f) { try { return f(); } catch( IpoptException& ) { return THROWN; } }
static bool numeq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void readall(OptionsList& L, const Model& M, const std::vector<std::string>& tags)
{
   std::string pf[] = {"", "resto.", "a.b."};
   for( const std::string& t : tags )
   {
      for( const std::string& p : pf )
      {
         if( M.reg && t.find('.') != std::string::npos && p != "" ) { continue; }
         const E* e = M.find(t, p);
         const O* o = M.reg ? M.opt(t) : NULL;
         int ty = M.reg ? (o ? o->type : -1) : (e ? e->type : 3);
         CASE += "; read " + p + "|" + t;
         double d = 77.25; int i = 4711; std::string s = "keep"; bool b = false; int en = -7;
         int r = guarded([&] { return L.GetNumericValue(t, d, p) ? 1 : 0; });
         if( M.reg ? ty != 0 : false ) { chk(r == THROWN, "reading an option as a number that is none must be refused"); }
         else if( e && e->type == 0 ) { chk(r == 1, "a number that was set must be found"); chk(numeq(d, e->num), "the number read (" + num(d) + ") is not the one that was set (" + num(e->num) + ")"); }
         else if( !e ) { chk(r == 0, "an option that was not set must not be reported as set"); chk(numeq(d, M.reg ? o->def : 77.25), "the default must be read if an option is not set"); }
         r = guarded([&] { return L.GetIntegerValue(t, i, p) ? 1 : 0; });
         if( M.reg ? ty != 1 : false ) { chk(r == THROWN, "reading an option as an integer that is none must be refused"); }
         else if( e && e->type == 1 ) { chk(r == 1 && i == (int) e->num, "the integer read is not the one that was set"); }
         else if( !e ) { chk(r == 0 && i == (M.reg ? (int) o->def : 4711), "the default must be read if an integer option is not set"); }
         r = guarded([&] { return L.GetStringValue(t, s, p) ? 1 : 0; });
         std::string want; int we = -1;
         if( M.reg && ty != 2 ) { chk(r == THROWN, "reading an option as a string that is none must be refused"); }
         else if( M.reg ) { bool k = okstr(*o, e ? e->text : o->sdef, &want, &we); chk(r == (e ? 1 : 0) && k, "string option set or not"); chk(s == want, "the string read ('" + s + "') is not the one that was set ('" + want + "') or the default"); }
         else if( e && e->type == 2 ) { want = e->text; chk(r == 1 && s == e->text, "the string read is not the one that was set"); }
         else if( !e ) { chk(r == 0 && s == "keep", "a value must stay untouched if the option is not set and there is no default"); }
         if( M.reg && ty == 2 && we >= 0 )
         {
            r = guarded([&] { return L.GetEnumValue(t, en, p) ? 1 : 0; });
            chk(r == (e ? 1 : 0) && en == we, "the index of the string setting is wrong");
         }
         if( (M.reg && ty == 2) || (!M.reg && e && e->type == 2) )
         {
            int y = -1;
            for( const char* w : YES ) { if( want == w ) { y = 1; } }
            for( const char* w : NO ) { if( want == w ) { y = 0; } }
            r = guarded([&] { return L.GetBoolValue(t, b, p) ? 1 : 0; });
            if( y < 0 ) { chk(r == THROWN, "a text that is no truth value must be refused as boolean"); }
            else { chk(r == (e ? 1 : 0) && b == (y == 1), "the boolean read is wrong"); }
         }
      }
   }
}

static void trial(int n)
{
   Model M; M.reg = ri(0, 3) > 0;
   SmartPtr<RegisteredOptions> R = new RegisteredOptions();
   setcase(M.reg ? "list with registered options" : "list without registered options", "");
   std::vector<std::string> names;
   int no = ri(1, 6);
   for( int i = 0; i < no; i++ )
   {
      std::string nm = word(ri(2, 4)) + std::to_string(i);
      M.opts.push_back(mk(nm, *R)); names.push_back(nm);
      int thr = guarded([&] { R->AddNumberOption(nm, "again", 1.); return 0; });
      chk(thr == THROWN, "registering a name twice must be refused");
   }
   SmartPtr<Journalist> J = new Journalist();
   SmartPtr<OptionsList> L;
   if( M.reg ) { L = new OptionsList(R, ri(0, 1) ? J : SmartPtr<Journalist>()); } else { L = new OptionsList(); }
   std::vector<std::string> tags = names;
   for( int i = 0; i < 2; i++ ) { tags.push_back("resto." + names[ri(0, no - 1)]); tags.push_back("a.b." + names[ri(0, no - 1)]); }
   tags.push_back("unknown");
   for( int op = 0; op < n; op++ )
   {
      std::string t = tags[ri(0, (int) tags.size() - 1)];
      std::string tt = M.reg ? t : mixcase(t);
      const O* o = M.reg ? M.opt(t) : NULL;
      bool cl = ri(0, 4) > 0, dp = ri(0, 1), unset = ri(0, 3) == 0;
      int k = ri(0, 5);
      E e; e.clobber = cl;
      bool good = false; int r;
      double x = o && o->type == 0 && ri(0, 2) ? (ri(0, 1) ? o->lo : o->up) : rnum();
      if( o && o->type == 0 && ri(0, 3) == 0 ) { x = std::nextafter(x, ri(0, 1) ? 1e300 : -1e300); }
      if( ri(0, 30) == 0 ) { x = std::numeric_limits<double>::quiet_NaN(); }
      if( ri(0, 30) == 0 ) { x = ri(0, 1) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); }
      int iv = o && o->type == 1 && ri(0, 1) ? (int) (ri(0, 1) ? o->lo : o->up) + ri(-1, 1) : rint();
      std::string sv = o && o->type == 2 && ri(0, 2) ? mixcase(o->set[ri(0, (int) o->set.size() - 1)]) : ri(0, 3) ? word(ri(0, 3)) : (ri(0, 1) ? YES : NO)[ri(0, 2)];
      std::string dummy; int di;
      if( k == 5 && M.m.size() )
      {
         CASE += "; unset " + tt;
         bool was = M.m.count(low(t)), lk = M.locked(t);
         r = guarded([&] { return L->UnsetValue(tt) ? 1 : 0; });
         chk(r == (was && !lk ? 1 : 0), "unsetting an option must succeed exactly if it is set and not protected");
         if( was && !lk ) { M.m.erase(low(t)); }
      }
      else
      {
         int ty = ri(0, 3) && o ? o->type : ri(0, 2);
         e.type = ty;
         if( ty == 0 ) { CASE += "; set " + tt + "=" + num(x); good = !M.reg || (o && o->type == 0 && okrange(*o, x)); e.num = x; }
         else if( ty == 1 ) { CASE += "; set " + tt + "=" + std::to_string(iv); good = !M.reg || (o && o->type == 1 && okrange(*o, iv)); e.num = iv; }
         else { bool bo = ri(0, 4) == 0; if( bo ) { sv = ri(0, 1) ? "yes" : "no"; } CASE += "; set " + tt + "='" + sv + "'"; good = !M.reg || (o && o->type == 2 && okstr(*o, sv, &dummy, &di)); e.text = sv; }
         if( !cl ) { CASE += " protected"; }
         const E* have = M.find(t, "");
         bool refuse = M.reg && (!o || o->type != ty);
         if( unset )
         {
            CASE += " if unset";
            if( !M.reg && have && have->type != ty ) { continue; }
            r = guarded([&] { return (ty == 0 ? L->SetNumericValueIfUnset(tt, x, cl, dp) : ty == 1 ? L->SetIntegerValueIfUnset(tt, iv, cl, dp) : L->SetStringValueIfUnset(tt, sv, cl, dp)) ? 1 : 0; });
            if( refuse ) { chk(r != 1, "setting an option that does not exist or with the wrong type must be refused"); good = false; }
            else if( have ) { chk(r == 1, "setting an option if unset has nothing to do"); good = false; }
            else { chk(r == (good ? 1 : 0), "setting an option must succeed exactly if the value is valid"); }
         }
         else
         {
            r = guarded([&] { return (ty == 0 ? L->SetNumericValue(tt, x, cl, dp) : ty == 1 ? L->SetIntegerValue(tt, iv, cl, dp) : (sv == "yes" || sv == "no") && ri(0, 1) ? L->SetBoolValue(tt, sv == "yes", cl, dp) : L->SetStringValue(tt, sv, cl, dp)) ? 1 : 0; });
            chk(r == (good ? 1 : 0), "setting an option must succeed exactly if it exists, has this type and the value is valid");
         }
         if( good && !M.locked(t) ) { M.m[low(t)] = e; }
      }
      if( ri(0, 2) == 0 || op == n - 1 ) { std::string c = CASE; readall(*L, M, tags); CASE = c; }
   }
   // a copy has the same options, and a printed list names each of them
   OptionsList L2(*L);
   readall(L2, M, tags);
   std::string pl; L->PrintList(pl);
   size_t cnt = 0, lines = 0;
   for( char c : pl ) { lines += c == '\n'; }
   for( auto& q : M.m ) { cnt += pl.find(" " + q.first + " = ") != std::string::npos; }
   chk(cnt == M.m.size(), "an option that is set is missing in the printed list");
   chk(lines == M.m.size() + 1, "the printed list has an option that is not set");
   L->clear(); M.m.clear();
   readall(*L, M, tags);
}

// ---- option files
static void files(int n)
{
   Model M; M.reg = ri(0, 5) > 0;
   SmartPtr<RegisteredOptions> R = new RegisteredOptions();
   setcase(M.reg ? "options file" : "options file without registered options", "");
   int no = ri(1, 5);
   for( int i = 0; i < no; i++ ) { M.opts.push_back(mk(word(ri(2, 4)) + std::to_string(i), *R)); }
   SmartPtr<OptionsList> L = M.reg ? new OptionsList(R, SmartPtr<Journalist>()) : new OptionsList();
   Journalist J;
   std::string text;
   bool clob = ri(0, 1), bad = false, eof = false;
   for( int k = 0; k < n && !bad && !eof; k++ )
   {
      const O& o = M.opts[ri(0, no - 1)];
      std::string nm = (ri(0, 4) ? "" : "resto.") + o.name, v;
      if( ri(0, 25) == 0 ) { nm = "nosuch"; }
      E e; e.clobber = clob; e.type = M.reg ? o.type : 2;
      bool good = true;
      std::string dummy; int di;
      if( !M.reg ) { v = word(ri(1, 4)); }
      else if( o.type == 0 )
      {
         double x = ri(0, 2) ? (ri(0, 1) ? o.lo : o.up) + (ri(0, 1) ? 0 : rd01()) : rnum();
         v = num(x);
         if( ri(0, 2) == 0 ) { for( char& c : v ) { if( c == 'e' ) { c = ri(0, 1) ? 'd' : 'D'; } } }
         e.num = x;
         good = okrange(o, x);
         if( ri(0, 15) == 0 ) { const char* B[] = {"abc", "1.5x", "--3", "1,5", "0x", "+-1"}; v = B[ri(0, 5)]; good = false; }
         if( ri(0, 15) == 0 ) { v = ""; good = false; }
      }
      else if( o.type == 1 )
      {
         int x = ri(0, 1) ? (int) (ri(0, 1) ? o.lo : o.up) : rint();
         v = std::to_string(x); e.num = x; good = okrange(o, x);
         if( ri(0, 10) == 0 ) { const char* B[] = {"4294967296", "5000000000", "-4294967295", "99999999999999999999", "2147483648", "-2147483649", "1e3", "2.0", "x", "7up"}; v = B[ri(0, 9)]; good = false; }
         if( ri(0, 15) == 0 ) { v = ""; good = false; }
      }
      else
      {
         v = ri(0, 3) ? mixcase(o.set[ri(0, (int) o.set.size() - 1)]) : word(ri(1, 3));
         if( ri(0, 8) == 0 ) { v = word(2) + " " + word(1); }
         if( ri(0, 12) == 0 ) { v = ""; }
         good = okstr(o, v, &dummy, &di);
      }
      e.text = v;
      if( M.reg && nm == "nosuch" ) { good = false; }
      bool quote = v.empty() || v.find(' ') != std::string::npos || ri(0, 5) == 0;
      static const char* WS[] = {" ", "\t", "\n", "  \n\t ", "\r\n", " # a comment with \"quotes\" and # signs\n", "\n#\n"};
      if( ri(0, 3) == 0 ) { text += WS[ri(0, 6)]; }
      text += (ri(0, 6) ? nm : "\"" + nm + "\"") + WS[ri(0, 6)];
      if( ri(0, 40) == 0 ) { eof = true; break; }
      text += quote ? "\"" + v + "\"" : v;
      if( !good ) { bad = true; }
      else if( !M.locked(nm) ) { M.m[low(nm)] = e; }
      if( k < n - 1 && !bad ) { text += WS[ri(0, 6)]; }
   }
   if( ri(0, 1) ) { text += "\n"; }
   if( ri(0, 5) == 0 ) { text += " # the end"; }
   CASE += (clob ? "" : "protected, ") + std::string("file {") + text + "}";
   std::istringstream is(text);
   int r = guarded([&] { return L->ReadFromStream(J, is, clob) ? 1 : 0; });
   if( eof ) { chk(r == 0, "a name without value at the end of the file must be reported"); }
   else if( bad ) { chk(r == THROWN, "a file with an unknown option or a value that is not valid must be refused"); }
   else { chk(r == 1, "a file with valid options must be accepted"); }
   std::vector<std::string> tags;
   for( const O& o : M.opts ) { tags.push_back(o.name); tags.push_back("resto." + o.name); }
   readall(*L, M, tags);
}

static void defaults()
{
   // every registered default is itself a valid setting
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   RegisteredOptions::RegOptionsList m = app->RegOptions()->RegisteredOptionsList();
   for( auto& q : m )
   {
      const RegisteredOption& o = *q.second;
      setcase("registered options of Ipopt", q.first);
      chk(o.Name() == q.first, "an option is registered under another name");
      if( o.Type() == OT_Number )
      {
         double d = o.DefaultNumber();
         chk(o.IsValidNumberSetting(d), "the default value is not valid");
         for( double x : {o.HasLower() ? o.LowerNumber() : 0., o.HasUpper() ? o.UpperNumber() : 1., d} )
         {
            for( double y : {x, std::nextafter(x, -1e300), std::nextafter(x, 1e300)} )
            {
               bool w = (!o.HasLower() || (o.LowerStrict() ? y > o.LowerNumber() : y >= o.LowerNumber())) && (!o.HasUpper() || (o.UpperStrict() ? y < o.UpperNumber() : y <= o.UpperNumber()));
               CASE = q.first + " = " + num(y);
               chk(app->Options()->SetNumericValue(q.first, y) == w, "a number must be accepted exactly if it is within the bounds");
               double z = 0; bool f = app->Options()->GetNumericValue(q.first, z, "");
               if( w ) { chk(f && z == y, "the number read (" + num(z) + ") is not the one that was set"); }
            }
         }
      }
      else if( o.Type() == OT_Integer )
      {
         chk(o.IsValidIntegerSetting(o.DefaultInteger()), "the default value is not valid");
         for( int y : {o.DefaultInteger(), o.HasLower() ? o.LowerInteger() - 1 : -7, o.HasUpper() && o.UpperInteger() < INT_MAX ? o.UpperInteger() + 1 : 7, 1, 0} )
         {
            bool w = (!o.HasLower() || y >= o.LowerInteger()) && (!o.HasUpper() || y <= o.UpperInteger());
            CASE = q.first + " = " + std::to_string(y);
            chk(app->Options()->SetIntegerValue(q.first, y) == w, "an integer must be accepted exactly if it is within the bounds");
            int z = 0; bool f = app->Options()->GetIntegerValue(q.first, z, "");
            if( w ) { chk(f && z == y, "the integer read is not the one that was set"); }
         }
      }
      else if( o.Type() == OT_String ) { chk(o.IsValidStringSetting(o.DefaultString()), "the default value is not valid"); }
      else { fail("an option has no type"); }
      app->Options()->UnsetValue(q.first);
   }
}

int main()
{
   h_init();
   defaults();
   int N = THOROUGH ? 60000 : 4000;
   for( int i = 0; i < N; i++ ) { trial(ri(1, 12)); files(ri(1, 8)); }
   return h_done();
}
