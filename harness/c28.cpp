#include "futh.h"
#include <stdexcept>
enum { PASS, FAILS, THROWS, WRITES };
static std::vector<int> ran;
struct Probe : TestCase { int id = 0; unsigned what = PASS, line = 0, inits = 0, ends = 0; bool early = true; void init() override { ++inits; early &= ran.empty(); TestCase::init(); } void destroy() override { ++ends; TestCase::destroy(); } void test() override { ran.push_back(id); switch (what) { case FAILS: std::cout << "output"; line = __LINE__ + 1; 
   EXPECT_EQ(1, 2); break; case THROWS: throw std::runtime_error("thrown"); case WRITES: std::cerr << "complaint"; } } };
static std::string lineWith(const std::string& s, const std::string& a) { size_t i = s.find(a); if (i == std::string::npos) return ""; size_t e = s.find('\n', i); return s.substr(i, e - i); }
// suites of any size
static void many() {
   static const unsigned sizes[] = {2, 5, 9, 10, 11, 16, 33, 64, 65, 99, 100, 101, 130, 256, 257}; unsigned n = sizes[fsx_choose("size", 15)], per = fsx_choose("per", 3), bad = fsx_choose("bad", 5), sel = fsx_choose("sel", 4); fsx_assume(bad != 4 || (per == 1 && sel < 2)); if (per == 0) per = 1; else if (per == 1) per = 7; else per = n;
   Watch w; UnitTest* u = new UnitTest; std::vector<Probe> t(n); std::vector<std::string> comp(n), name(n), full(n), args{"suite"}; std::vector<char*> argv; bool all = true; unsigned fails = 0, sels = 0; auto picked = [&](unsigned i) { return sel == 0 || (sel == 1 ? i + 1 == n : sel == 2 ? i % 2 == 0 : i != 0); };
   for (unsigned i = 0; i < n; ++i) { t[i].id = (int)i; comp[i] = "C" + std::to_string(1000 + i / per); name[i] = "case" + std::to_string(i); full[i] = comp[i] + "::" + name[i]; bool b = bad == 1 ? i == 0 : bad == 2 ? i + 1 == n : bad == 3 ? i % 3 == 1 : bad == 4; t[i].what = b ? FAILS : PASS; u->addTestCase(comp[i].c_str(), name[i].c_str(), &t[i]); if (picked(i)) { ++sels; if (sel) { args.push_back("-t"); args.push_back(full[i]); } if (b) { all = false; ++fails; } } }
   for (auto& a : args) argv.push_back(&a[0]); argv.push_back(nullptr); int res = u->main((int)args.size(), argv.data()); std::vector<unsigned> count(n); for (int id : ran) ++count[id]; for (unsigned i = 0; i < n; ++i) fsx_check(count[i] == (picked(i) ? 1u : 0u), "exactly the selected cases run, once each, however many");
   fsx_check(((res & 255) == 0) == all, "the exit status is zero exactly when all executed cases pass"); std::string out = w.o.str(), fl = lineWith(out, "Failed cases: "); fsx_check(fl.empty() == all, "failed cases are listed when there are any"); if (!all) { unsigned got = 1; for (char c : fl) got += c == ','; fsx_check(got == fails, "all of them"); for (unsigned i = 0; i < n; ++i) if (picked(i) && t[i].what != PASS) fsx_check((fl + ",").find(full[i] + ",") != std::string::npos, "each failed case is listed"); }
   std::string ul = lineWith(out, "Unit Test "); fsx_check(has(ul, "Passed") == all && has(ul, "FAILED") == !all, "the total agrees with the cases"); fsx_observe("n", n); fsx_reach("many");
}
// names and failures that say nothing
struct Terse : TestCase { unsigned what = PASS, runs = 0; void test() override { ++runs; switch (what) { case FAILS: this->checkFail("", 0, "", ""); break; case THROWS: throw std::runtime_error(""); case WRITES: std::cerr << " "; } } };
static void terse() {
   Watch w; UnitTest* u = new UnitTest; Terse t[2]; static const char* const comps[] = {"", "Comp"}; static const char* const names[] = {"", "case"}; unsigned c[2], k[2]; bool all = true; std::string full[2];
   for (int i = 0; i < 2; ++i) { c[i] = fsx_choose("comp", 2); k[i] = fsx_choose("name", 2); t[i].what = fsx_choose("what", 4); full[i] = std::string(comps[c[i]]) + "::" + names[k[i]]; u->addTestCase(comps[c[i]], names[k[i]], &t[i]); } fsx_assume(c[0] != c[1] || k[0] != k[1]);
   unsigned sel = fsx_choose("sel", 3); std::string p = "suite", o = "-t"; std::vector<char*> argv{&p[0]}; if (sel) { argv.push_back(&o[0]); argv.push_back(&full[sel - 1][0]); } int n = (int)argv.size(); argv.push_back(nullptr); int res = u->main(n, argv.data());
   for (int i = 0; i < 2; ++i) { bool mine = !sel || (int)sel - 1 == i; fsx_check(t[i].runs == (mine ? 1u : 0u), "exactly the selected cases run, whatever their names"); if (mine && t[i].what != PASS) all = false; }
   fsx_check((res == 0) == all, "the exit status is zero exactly when all executed cases pass"); std::string ul = lineWith(w.o.str(), "Unit Test "); fsx_check(has(ul, "Passed") == all && has(ul, "FAILED") == !all, "and the total agrees");
   fsx_check(has(w.o.str(), "Failed cases: ") == !all, "failed cases are listed when there are any"); fsx_observe("sel", sel); fsx_reach("terse");
}
extern "C" void fsx_main() {
   long base = fsx_live(); ran.clear();
#if P_many
   many();
#else
   if (fsx_choose("terse", 2)) terse(); else {
      ran.clear();
      Watch w; UnitTest* u = new UnitTest; Probe t[P_cases + 1]; static const char* const comps[] = {"Beta", "Alpha", "Gamma"}; static const char* const names[] = {"one", "two", "three", "four", "five"};
      unsigned n = 1 + fsx_choose("cases", P_cases), comp[P_cases + 1], maxc = 0; std::string full[P_cases + 1];
      auto add = [&](unsigned i) { comp[i] = fsx_choose("comp", maxc + 1 < P_comps ? maxc + 1 : P_comps); if (comp[i] == maxc) ++maxc; t[i].id = (int)i; t[i].what = fsx_choose("what", 4); full[i] = std::string(comps[comp[i]]) + "::" + names[i]; u->addTestCase(comps[comp[i]], names[i], &t[i]); }; for (unsigned i = 0; i < n; ++i) add(i);
      std::vector<std::string> args; args.push_back("/some/dir/suite.fut.exe"); bool sel[P_cases + 1] = {false}; bool any = false;
      unsigned k = fsx_choose("selections", P_sel + 1); for (unsigned i = 0; i < k; ++i) { unsigned c = fsx_choose("select", n); args.push_back("-t"); args.push_back(full[c]); sel[c] = any = true; }
      if (!any) for (unsigned i = 0; i < n; ++i) sel[i] = true;
      std::vector<char*> argv; for (auto& a : args) argv.push_back(&a[0]); argv.push_back(nullptr);
      bool again = fsx_choose("again", 2), grown = false; int res; auto fmt = std::cout.flags(); auto prec = std::cout.precision(); char fill = std::cout.fill();
      if (!again) res = u->main((int)args.size(), argv.data());
      else { u->detectTestName(argv[0]); fsx_check(u->parseParams((int)args.size() - 1, argv.data() + 1) == 0, "selections are accepted"); res = u->performUnitTests(); unsigned way = fsx_choose("between", 3); if (!way) for (unsigned i = 0; i < n; ++i) if (fsx_choose("repaired", 2)) t[i].what = PASS;
         if (way == 1) { fsx_assume(n < P_cases); sel[n] = !any; add(n); ++n; grown = true; fsx_reach("added"); }
         if (way == 2) { fsx_assume(!any); unsigned c = fsx_choose("select", n); std::string o = "-t"; char* v[] = {&o[0], &full[c][0], nullptr}; fsx_check(u->parseParams(2, v) == 0, "a selection is accepted"); for (unsigned i = 0; i < n; ++i) sel[i] = i == c; any = true; fsx_reach("late"); }
         fsx_check(std::cout.flags() == fmt && std::cout.precision() == prec && std::cout.fill() == fill && std::cout.width() == 0, "the cases of a later run find the stream as those of the first did"); ran.clear(); w.o.str(""); w.e.str(""); res = u->performUnitTests(); delete u; fsx_reach("again"); }
      // told
      for (unsigned i = 0; i < n; ++i) { unsigned want = again && !(i + 1 == n && grown) ? 2 : 1; fsx_check(t[i].inits == want && t[i].early, "every registered case is initialised once, before any case of the run executes"); fsx_check(t[i].ends == (again ? 0u : 1u), "and told once that the suite is over"); }
      // executed
      unsigned count[P_cases + 1] = {0}; for (int id : ran) ++count[id]; bool all = true;
      for (unsigned i = 0; i < n; ++i) { fsx_check(count[i] == (sel[i] ? 1u : 0u), "exactly the selected cases run, once each"); if (sel[i] && t[i].what != PASS) all = false; }
      for (size_t i = 0; i + 1 < ran.size(); ++i) if (comp[ran[i]] != comp[ran[i + 1]]) for (size_t j = i + 2; j < ran.size(); ++j) fsx_check(comp[ran[j]] != comp[ran[i]], "cases are grouped by component");
      for (size_t i = 0; i + 1 < ran.size(); ++i) fsx_check(strcmp(comps[comp[ran[i]]], comps[comp[ran[i + 1]]]) <= 0, "components in the order of their names");
      fsx_check((res == 0) == all, "the exit status is zero exactly when all executed cases pass");
      // printed
      std::string out = w.o.str(); fsx_check(w.e.str().empty(), "nothing is printed on the error stream");
      std::string fl = lineWith(out, "Failed cases: "); fsx_check(fl.empty() == all, "failed cases are listed when there are any");
      std::vector<std::string> listed; if (!fl.empty()) { size_t i = strlen("Failed cases: "); while (i <= fl.size()) { size_t e = fl.find(", ", i); if (e == std::string::npos) e = fl.size(); listed.push_back(fl.substr(i, e - i)); i = e + 2; } }
      size_t bad = 0; for (unsigned i = 0; i < n; ++i) { bool f = sel[i] && t[i].what != PASS; bad += f; unsigned c = 0; for (auto& l : listed) c += l == full[i]; fsx_check(c == (f ? 1u : 0u), "the failed cases listed are the executed ones that failed"); }
      fsx_check(listed.size() == bad, "and no other");
      for (unsigned i = 0; i < n; ++i) { bool f = sel[i] && t[i].what == FAILS, e = sel[i] && t[i].what == THROWS; std::string blk = "Failure in case ", eb = "Uncaught error in Case "; int nf = 0; size_t pos = 0; while ((pos = out.find(": " + full[i] + " at ", pos)) != std::string::npos) { ++nf; std::string l = out.substr(pos); l = l.substr(0, l.find('\n')); char ln[16]; snprintf(ln, sizeof ln, ": %d", (int)t[i].line); fsx_check(has(l, "c28.cpp") && l.size() > strlen(ln) && l.substr(l.size() - strlen(ln)) == ln, "failures are printed with their position"); ++pos; } fsx_check(nf == (f ? 1 : 0), "each failure is printed once"); int ne = occurrences(out, full[i] + "\nthrown"); fsx_check(ne == (e ? 1 : 0), "each uncaught error is printed once"); if (e) fsx_check(has(out, eb), "as such"); if (f) fsx_check(has(out, blk), "as such"); }
      unsigned nc = 0; for (unsigned c = 0; c < maxc; ++c) { bool used = false, cf = false; for (unsigned i = 0; i < n; ++i) if (comp[i] == c && sel[i]) { used = true; cf |= t[i].what != PASS; } nc += used; std::string l = lineWith(out, std::string("Component ") + comps[c] + " "); if (!used) fsx_check(l.empty(), "components that were not executed have no total"); else if (!l.empty()) { fsx_check(has(l, "Passed") == !cf && has(l, "FAILED") == cf, "component totals agree with their cases"); fsx_reach("component"); } else fsx_check(ran.size() > 0, "some case ran"); }
      if (nc > 1) fsx_check(occurrences(out, "  Component ") == (int)nc, "each component has its total");
      std::string ul = lineWith(out, "Unit Test "); fsx_check(occurrences(out, "Unit Test ") == 1 && ul.substr(0, 16) == "Unit Test suite ", "one overall total"); fsx_check(has(ul, "Passed") == all && has(ul, "FAILED") == !all, "which agrees with the cases");
      fsx_reach(all ? "passed" : "failed");
   }
#endif
   { std::vector<int>().swap(ran); }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
