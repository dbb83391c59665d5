// run-time contracts of reference counting: random histories of smart pointer operations against a model of who refers to what
#include "fix.hpp"
static std::set<int> ALIVE;
static int NEXT = 0;
struct Obj : public ReferencedObject
{
   int id;
   SmartPtr<Obj> next;
   Obj() : id(NEXT++) { ALIVE.insert(id); }
   virtual ~Obj()
   {
      if( !ALIVE.count(id) ) { fail("object " + std::to_string(id) + " destroyed twice"); }
      ALIVE.erase(id);
   }
};
struct Der : public Obj { double pad[3]; };

typedef SmartPtr<Obj> SP;
typedef SmartPtr<const Obj> CP;
typedef SmartPtr<Der> DP;
static std::string H;

static SP back(const SP& p) { SP q = p; return q; }
static SP maker(bool der) { if( der ) { DP d = new Der(); return GetRawPtr(d); } return new Obj(); }

static void histories(int n)
{
   const int NS = 5, NC = 3, ND = 3;
   ALIVE.clear();
   {
   SP s[NS]; CP c[NC]; DP d[ND];
   std::vector<SP> vec;
   // the model: which object each pointer refers to, -1 for none; and the object behind next of each object
   std::vector<int> ms(NS, -1), mc(NC, -1), md(ND, -1), mv;
   std::map<int, int> mn;
   std::map<int, Obj*> raw;
   H = "";
   auto fin = [&]()
   {
      // objects live exactly as long as something that is alive refers to them
      std::map<int, int> cnt;
      for( bool again = true; again; )
      {
         again = false;
         cnt.clear();
         for( int x : ms ) { if( x >= 0 ) { cnt[x]++; } }
         for( int x : mc ) { if( x >= 0 ) { cnt[x]++; } }
         for( int x : md ) { if( x >= 0 ) { cnt[x]++; } }
         for( int x : mv ) { if( x >= 0 ) { cnt[x]++; } }
         for( auto& p : mn ) { if( p.second >= 0 ) { cnt[p.second]++; } }
         for( auto it = mn.begin(); it != mn.end(); ++it ) { if( !cnt[it->first] ) { mn.erase(it); again = true; break; } }
      }
      std::set<int> want;
      for( auto& p : mn ) { want.insert(p.first); }
      auto str = [](const std::set<int>& z) { std::string r; for( int i : z ) { r += std::to_string(i) + " "; } return r; };
      if( want != ALIVE ) { fail("the objects alive are those referred to: alive " + str(ALIVE) + " referred to " + str(want)); }
      for( int id : want ) { if( raw[id]->ReferenceCount() != cnt[id] ) { fail("count of object " + std::to_string(id) + " is " + std::to_string(raw[id]->ReferenceCount()) + " with " + std::to_string(cnt[id]) + " pointers"); } }
      auto idof = [](const Obj* p) { return p ? p->id : -1; };
      for( int i = 0; i < NS; i++ ) { chk(idof(GetRawPtr(s[i])) == ms[i], "pointer refers to its object"); chk(IsValid(s[i]) == (ms[i] >= 0) && IsNull(s[i]) == (ms[i] < 0), "IsValid and IsNull"); }
      for( int i = 0; i < NC; i++ ) { chk(idof(GetRawPtr(c[i])) == mc[i], "pointer to const refers to its object"); }
      for( int i = 0; i < ND; i++ ) { chk(idof(GetRawPtr(d[i])) == md[i], "pointer to derived class refers to its object"); }
      for( size_t i = 0; i < mv.size(); i++ ) { chk(idof(GetRawPtr(vec[i])) == mv[i], "pointer in a vector refers to its object"); }
      // comparison
      int a = ri(0, NS - 1), b = ri(0, NS - 1), k = ri(0, ND - 1), z = ri(0, NC - 1);
      chk((s[a] == s[b]) == (ms[a] == ms[b]) && (s[a] != s[b]) == (ms[a] != ms[b]), "comparison of pointers");
      chk((s[a] == d[k]) == (ms[a] == md[k]) && (d[k] != s[a]) == (ms[a] != md[k]), "comparison with a pointer to a derived class");
      chk((s[a] == GetRawPtr(s[b])) == (ms[a] == ms[b]) && (GetRawPtr(d[k]) == s[a]) == (ms[a] == md[k]) && (s[a] != GetRawPtr(c[z])) == (ms[a] != mc[z]), "comparison with a raw pointer");
      chk((s[a] < s[b]) == (GetRawPtr(s[a]) < GetRawPtr(s[b])) && (s[a] >= s[b]) == !(s[a] < s[b]) && (s[a] > s[b]) == (s[b] < s[a]) && (s[a] <= s[b]) == !(s[b] < s[a]), "order of pointers");
   };
   auto fresh = [&](Obj* o) { mn[o->id] = -1; raw[o->id] = o; return o->id; };
   for( int k = 0; k < n; k++ )
   {
      int w = ri(0, 25), i = ri(0, NS - 1), j = ri(0, NS - 1), e = ri(0, ND - 1), z = ri(0, NC - 1);
      H += std::to_string(w) + ":" + std::to_string(i) + "," + std::to_string(j) + " ";
      if( H.size() > 1500 ) { H = H.substr(H.size() - 1000); }
      setcase("histories of smart pointers", H);
      switch( w )
      {
         case 0: s[i] = new Obj(); ms[i] = fresh(GetRawPtr(s[i])); break;
         case 1: d[e] = new Der(); md[e] = fresh(GetRawPtr(d[e])); break;
         case 2: s[i] = s[j]; ms[i] = ms[j]; break;
         case 3: s[i] = GetRawPtr(s[j]); ms[i] = ms[j]; break;
         case 4: s[i] = NULL; ms[i] = -1; break;
         case 5: s[i] = d[e]; ms[i] = md[e]; break;
         case 6: c[z] = s[i]; mc[z] = ms[i]; break;
         case 7: c[z] = ConstPtr(s[i]); mc[z] = ms[i]; break;
         case 8: c[z] = d[e]; mc[z] = md[e]; break;
         case 9: c[z] = NULL; mc[z] = -1; break;
         case 10: d[e] = dynamic_cast<Der*>(GetRawPtr(s[i])); md[e] = IsValid(d[e]) ? ms[i] : -1; break;
         case 11: { SP t(s[i]); SP u(t); s[j] = u; ms[j] = ms[i]; break; }
         case 12: { SP t(d[e]); s[j] = t; ms[j] = md[e]; break; }
         case 13: s[i] = back(s[j]); ms[i] = ms[j]; break;
         case 14: swap(s[i], s[j]); std::swap(ms[i], ms[j]); break;
         case 15: if( ms[i] >= 0 ) { s[i]->next = s[j]; mn[ms[i]] = ms[j]; } break;
         case 16: if( ms[i] >= 0 ) { int t = mn[ms[i]]; s[i] = s[i]->next; ms[i] = t; } break;
         case 17: if( ms[i] >= 0 ) { int t = mn[ms[i]]; s[i] = GetRawPtr(s[i]->next); ms[i] = t; } break;
         case 18: vec.push_back(s[i]); mv.push_back(ms[i]); break;
         case 19: if( vec.size() ) { int q = ri(0, vec.size() - 1); vec.erase(vec.begin() + q); mv.erase(mv.begin() + q); } break;
         case 20: if( vec.size() ) { int q = ri(0, vec.size() - 1); vec[q] = s[i]; mv[q] = ms[i]; } break;
         case 21: if( ri(0, 4) == 0 ) { vec.clear(); mv.clear(); } break;
         case 22: { CP t(s[i]), u(t); t = u; c[z] = t; mc[z] = ms[i]; break; }
         case 23: s[i] = maker(ri(0, 1)); ms[i] = fresh(GetRawPtr(s[i])); break;
         case 24: { SP* t = new SP(s[i]); SP* u = new SP(GetRawPtr(s[i])); *t = *u; delete u; s[j] = *t; delete t; ms[j] = ms[i]; break; }
         default: s[i] = s[i]; s[i] = GetRawPtr(s[i]); c[z] = c[z]; break;
      }
      // rings of objects never go away: break them
      for( auto& p : mn )
      {
         std::set<int> seen;
         for( int q = p.first; q >= 0; q = mn[q] ) { if( !seen.insert(q).second ) { raw[q]->next = NULL; mn[q] = -1; break; } }
      }
      fin();
   }
   setcase("end of the last pointers", H);
   }
   chk(ALIVE.empty(), "no object outlives its last pointer");
}

// objects handed to a solve have, once the application is gone, only the references the user has
static void solves(int n)
{
   for( int k = 0; k < n; k++ )
   {
      SmartPtr<PNLP> t = randproblem(ri(1, 4), ri(0, 3), false);
      SmartPtr<OptionsList> ol;
      SmartPtr<Journalist> jn;
      setcase("objects of a solve", std::to_string(k));
      {
         SmartPtr<IpoptApplication> app = new IpoptApplication(false);
         app->Options()->SetStringValue("hessian_approximation", ri(0, 3) ? "exact" : "limited-memory");
         app->Options()->SetIntegerValue("max_iter", ri(0, 30));
         app->Options()->SetStringValue("start_with_resto", ri(0, 4) ? "no" : "yes");
         if( ri(0, 3) == 0 ) { app->Options()->SetStringValue("mu_strategy", "adaptive"); }
         app->Initialize();
         SmartPtr<TNLP> tn = GetRawPtr(t);
         app->OptimizeTNLP(tn);
         if( ri(0, 1) ) { app->ReOptimizeTNLP(tn); }
         ol = app->Options(); jn = app->Jnlst();
         chk(app->ReferenceCount() == 1, "the application is referred to once");
      }
      chk(t->ReferenceCount() == 1, "after the application is gone the problem is referred to by the user only, not " + std::to_string(t->ReferenceCount()) + " times");
      ol = NULL;
      chk(jn->ReferenceCount() == 1, "after the application is gone the journalist is referred to by the user only, not " + std::to_string(jn->ReferenceCount()) + " times");
   }
}

// one object seen through two interfaces
struct If1 : public virtual ReferencedObject { int a; virtual ~If1() { } };
struct If2 : public virtual ReferencedObject { int b; virtual ~If2() { } };
static int BOTH = 0;
struct Both : public If1, public If2 { Both() { BOTH++; } virtual ~Both() { BOTH--; } };
static void interfaces(int n)
{
   for( int k = 0; k < n; k++ )
   {
      setcase("two interfaces of one object", std::to_string(k));
      {
         SmartPtr<Both> x = new Both(), y = new Both();
         SmartPtr<If1> p = x; SmartPtr<If2> q = x, r = y; SmartPtr<const If2> cq = ConstPtr(q);
         chk(x->ReferenceCount() == 4 && y->ReferenceCount() == 2, "every interface counts");
         chk(p == q && q == p && !(p != q) && q == x && p == x && cq == p && p == GetRawPtr(q) && GetRawPtr(p) == q, "pointers to the same object are equal");
         chk(p != r && r != p && !(p == r) && r != cq && p != GetRawPtr(r) && GetRawPtr(r) != p, "pointers to different objects differ");
         x = NULL; p = NULL; cq = NULL; y = NULL;
         chk(BOTH == 2, "the last interface keeps the object");
         if( k % 2 ) { q = r; chk(BOTH == 1, "released through the second interface"); } else { r = q; chk(BOTH == 1, "released through the second interface"); }
      }
      chk(BOTH == 0, "no object is left");
   }
}

// many pointers to one object
static void many(int n)
{
   ALIVE.clear();
   setcase("many pointers to one object", std::to_string(n));
   {
      std::vector<SP> v(n);
      SP p = new Obj();
      for( int i = 0; i < n; i++ ) { v[i] = p; }
      chk(p->ReferenceCount() == n + 1, "all pointers are counted");
      for( int i = 0; i + 1 < n; i++ ) { v[i] = NULL; chk(p->ReferenceCount() == n - i, "count after a release"); }
      p = NULL;
      chk(ALIVE.size() == 1, "the last pointer keeps the object");
   }
   chk(ALIVE.empty(), "the object is destroyed with its last pointer");
}

int main()
{
   h_init();
   for( int k = 0; k < (THOROUGH ? 4000 : 400); k++ ) { histories(ri(20, 200)); }
   interfaces(20);
   many(10); many(300); many(70000); many(THOROUGH ? 5000000 : 300000);
   solves(THOROUGH ? 300 : 30);
   return h_done();
}
