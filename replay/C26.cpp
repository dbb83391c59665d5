// run-time contracts of the journalist: every message reaches exactly the journals that accept it, unchanged
#include "fix.hpp"
#include <cstdarg>
#include <fstream>

struct MemJournal : public Journal
{
   std::string text; int flushes = 0;
   MemJournal(const std::string& n, EJournalLevel l) : Journal(n, l) { }
   virtual void PrintImpl(EJournalCategory, EJournalLevel, const char* s) { text += s; }
   virtual void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap)
   {
      va_list c; va_copy(c, ap);
      int n = vsnprintf(NULL, 0, f, c);
      va_end(c);
      std::vector<char> b(n + 1);
      vsnprintf(&b[0], n + 1, f, ap);
      text += &b[0];
   }
   virtual void FlushBufferImpl() { flushes++; }
};

static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string DIR;
static std::string word(int n) { std::string r; for( int i = 0; i < n; i++ ) { r += (char) ('a' + ri(0, 25)); } return r; }

static std::string noblank(const std::string& s) { std::string r; for( char c : s ) { if( c != ' ' && c != '\n' ) { r += c; } } return r; }

struct Side { SmartPtr<Journal> j; int kind; std::string want, name, file; std::ostringstream* os; std::vector<int> lev; };

static void journals(int n)
{
   Journalist* J = new Journalist();
   SmartPtr<Journalist> hold = J;
   std::vector<Side> sd;
   int nj = ri(0, 4);
   for( int i = 0; i < nj; i++ )
   {
      Side s;
      s.kind = ri(0, 2); s.name = "journal" + std::to_string(i); s.os = NULL;
      int l = ri(0, 12);
      s.lev.assign(J_LAST_CATEGORY, l);
      setcase("setup of journals", s.name);
      if( s.kind == 0 ) { s.j = new MemJournal(s.name, (EJournalLevel) l); chk(J->AddJournal(s.j), "a journal with a new name is added"); }
      else if( s.kind == 1 )
      {
         SmartPtr<StreamJournal> t = new StreamJournal(s.name, (EJournalLevel) l);
         s.os = new std::ostringstream(); t->SetOutputStream(s.os); s.j = GetRawPtr(t);
         chk(J->AddJournal(s.j), "a journal with a new name is added");
      }
      else
      {
         s.file = DIR + "/" + s.name;
         bool app = ri(0, 1);
         { std::ofstream o(s.file); o << "old\n"; }
         s.j = J->AddFileJournal(s.name, s.file, (EJournalLevel) l, app);
         chk(IsValid(s.j), "a file journal is added");
         s.want = app ? "old\n" : "";
      }
      sd.push_back(s);
   }
   auto verify = [&]()
   {
      J->FlushBuffer();
      for( auto& s : sd )
      {
         std::string got = s.kind == 0 ? static_cast<MemJournal*>(GetRawPtr(s.j))->text : s.kind == 1 ? s.os->str() : slurp(s.file);
         if( got != s.want ) { fail("contents of " + s.name + " are '" + got.substr(std::max(0, (int) got.size() - 200)) + "' (" + std::to_string(got.size()) + " characters), expected '" + s.want.substr(std::max(0, (int) s.want.size() - 200)) + "' (" + std::to_string(s.want.size()) + ")"); }
      }
   };
   for( int k = 0; k < n; k++ )
   {
      EJournalLevel l = (EJournalLevel) ri(-1, 12);
      EJournalCategory c = (EJournalCategory) ri(0, J_LAST_CATEGORY - 1);
      auto send = [&](const std::string& m) { for( auto& s : sd ) { if( s.lev[c] >= (int) l ) { s.want += m; } } };
      int w = ri(0, 10);
      setcase("journal histories", "operation " + std::to_string(w) + " level " + std::to_string(l) + " category " + std::to_string(c));
      if( w <= 2 )
      {
         int len = ri(0, 60) ? ri(0, 50) : ri(0, 1) ? ri(32760, 32770) : ri(1000, 70000);
         std::string t = word(len); double x = rval(); int i = ri(-5, 5);
         J->Printf(l, c, "%s|%d%%|%g\n", t.c_str(), i, x);
         char b[100]; snprintf(b, sizeof b, "|%d%%|%g\n", i, x);
         send(t + b);
      }
      else if( w == 3 )
      {
         int ind = ri(0, 5); std::string t = word(ri(0, 30));
         J->PrintfIndented(l, c, ind, "%s %d %s\n", t.c_str(), ind, "e");
         send(std::string(2 * ind, ' ') + t + " " + std::to_string(ind) + " e\n");
      }
      else if( w == 4 && sd.size() )
      {
         Side& s = sd[ri(0, sd.size() - 1)];
         s.j->SetPrintLevel(c, l);
         s.lev[c] = l;
      }
      else if( w == 5 && sd.size() && ri(0, 2) == 0 )
      {
         Side& s = sd[ri(0, sd.size() - 1)];
         s.j->SetAllPrintLevels(l);
         for( int q = 0; q < J_USER_APPLICATION; q++ ) { s.lev[q] = l; }
      }
      else if( w == 6 )
      {
         bool e = false;
         for( auto& s : sd ) { e |= s.lev[c] >= (int) l; chk(s.j->IsAccepted(c, l) == (s.lev[c] >= (int) l), "a journal accepts a message exactly if the level set for its category admits it"); }
         chk(J->ProduceOutput(l, c) == e, "output is produced exactly if some journal accepts the message");
      }
      else if( w == 7 )
      {
         int ml = ri(12, 70), ind = ri(0, 10), nw = ri(0, 20);
         std::string t;
         for( int q = 0; q < nw; q++ ) { t += (q ? " " : "") + word(ri(1, 11)); }
         std::vector<std::string> bef; for( auto& s : sd ) { bef.push_back(s.want); }
         J->PrintStringOverLines(l, c, ind, ml, t);
         J->FlushBuffer();
         for( size_t q = 0; q < sd.size(); q++ )
         {
            Side& s = sd[q];
            std::string got = s.kind == 0 ? static_cast<MemJournal*>(GetRawPtr(s.j))->text : s.kind == 1 ? s.os->str() : slurp(s.file);
            chk(got.compare(0, s.want.size(), s.want) == 0, "text is appended");
            std::string ad = got.substr(s.want.size());
            if( s.lev[c] < (int) l ) { chk(ad.empty(), "no text reaches a journal that does not accept it"); continue; }
            chk(noblank(ad) == noblank(t), "the words of the text are printed in order: '" + ad + "' for '" + t + "'");
            std::stringstream ss(ad); std::string ln; bool first = true;
            while( std::getline(ss, ln) )
            {
               chk((int) ln.size() <= ml + (first ? 0 : ind), "a line has at most the given length");
               if( !first ) { chk(ln.compare(0, ind, std::string(ind, ' ')) == 0, "further lines are indented"); }
               first = false;
            }
            std::stringstream a1(ad), a2(t); std::string x, y;
            while( a2 >> y ) { chk((bool) (a1 >> x) && x == y, "words are not split"); }
            s.want = got;
         }
      }
      else if( w == 8 )
      {
         std::string nm = "journal" + std::to_string(ri(0, 5));
         SmartPtr<Journal> f = J->GetJournal(nm), e;
         for( auto& s : sd ) { if( s.name == nm ) { e = s.j; } }
         chk(GetRawPtr(f) == GetRawPtr(e), "GetJournal finds the journal by its name");
         if( IsValid(e) ) { chk(!J->AddJournal(new MemJournal(nm, J_ALL)), "a journal with a name in use is not added"); }
      }
      else if( w == 9 ) { int fl = 0; (void) fl; std::vector<int> b; for( auto& s : sd ) { b.push_back(s.kind == 0 ? static_cast<MemJournal*>(GetRawPtr(s.j))->flushes : 0); } J->FlushBuffer(); for( size_t q = 0; q < sd.size(); q++ ) { if( sd[q].kind == 0 ) { chk(static_cast<MemJournal*>(GetRawPtr(sd[q].j))->flushes == b[q] + 1, "every journal is flushed once"); } } }
      else if( w == 10 && ri(0, 20) == 0 )
      {
         verify();
         J->DeleteAllJournals();
         for( auto& s : sd ) { chk(s.j->ReferenceCount() == 1, "deleted journals are released"); delete s.os; if( s.file.size() ) { unlink(s.file.c_str()); } }
         sd.clear();
      }
      if( ri(0, 5) == 0 ) { verify(); }
   }
   verify();
   for( auto& s : sd ) { delete s.os; if( s.file.size() ) { unlink(s.file.c_str()); } }
}

// the level of output makes no difference to the run
static void solves(int n)
{
   for( int k = 0; k < n; k++ )
   {
      std::vector<std::vector<double> > res;
      unsigned long seed = RNG();
      for( int lv = 0; lv < 4; lv++ )
      {
         std::mt19937_64 keep = RNG;
         RNG.seed(seed);
         SmartPtr<PNLP> t = randproblem(ri(1, 4), ri(0, 3), k % 2);
         RNG = keep;
         static const int pl[] = {0, 3, 7, 12};
         setcase("runs at different levels of output", std::to_string(k) + " file_print_level " + std::to_string(pl[lv]));
         std::string f = DIR + "/out";
         {
            SmartPtr<IpoptApplication> app = new IpoptApplication(false);
            app->Options()->SetStringValue("sb", "yes");
            app->Options()->SetIntegerValue("max_iter", 12);
            app->Options()->SetStringValue("output_file", f);
            app->Options()->SetIntegerValue("file_print_level", pl[lv]);
            if( k % 3 == 0 ) { app->Options()->SetStringValue("mu_strategy", "adaptive"); }
            if( k % 5 == 0 ) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
            app->Initialize();
            std::vector<double> r(1, (double) app->OptimizeTNLP(GetRawPtr(t)));
            r.push_back(IsValid(app->Statistics()) ? (double) app->Statistics()->IterationCount() : -1.);
            if( IsValid(app->IpoptDataObject()) && IsValid(app->IpoptDataObject()->curr()) )
            {
               SmartPtr<const IteratesVector> it = app->IpoptDataObject()->curr();
               for( int q = 0; q < 8; q++ ) { std::vector<double> w = dv(*it->GetComp(q)); r.insert(r.end(), w.begin(), w.end()); }
            }
            res.push_back(r);
            // the file journal gets user messages by its level
            app->Jnlst()->Printf((EJournalLevel) 5, J_MAIN, "MARK5\n"); app->Jnlst()->Printf((EJournalLevel) 12, J_MAIN, "MARK12\n"); app->Jnlst()->FlushBuffer();
            std::string s = slurp(f);
            chk((s.find("MARK5") != std::string::npos) == (pl[lv] >= 5) && (s.find("MARK12") != std::string::npos) == (pl[lv] >= 12), "the output file gets the messages its level admits");
         }
         unlink(f.c_str());
         eqv("results do not depend on the level of output", res.back(), res[0], 0.);
      }
   }
}

int main()
{
   h_init();
   char tmp[] = "/tmp/ipvC26XXXXXX";
   if( !mkdtemp(tmp) ) { return 2; }
   DIR = tmp;
   for( int k = 0; k < (THOROUGH ? 1500 : 150); k++ ) { journals(ri(5, 120)); }
   solves(THOROUGH ? 60 : 10);
   rmdir(tmp);
   return h_done();
}
