#include "futh.h"
#include <stdexcept>
enum { PASS, FAILS, THROWS };
static Watch* W; static bool announced[2];
struct Probe : TestCase { int id = 0; unsigned what = PASS; bool terse = false; std::string o, e, late, key; void test() override { announced[id] = has(W->o.str(), key); std::cout << o; std::cerr << e; if (what == FAILS) this->checkFail("dir/file.cpp", 77, terse ? "" : "failure text", ""); if (what == THROWS) throw std::runtime_error(terse ? "" : "error text"); } void TearDown() override { std::cerr << late; } };
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); r.push_back(s.substr(i, e - i)); i = e + 1; } return r; }
extern "C" void fsx_main() {
   long base = fsx_live();
   {
      Watch w; W = &w; announced[0] = announced[1] = false; UnitTest* u = new UnitTest; Probe t[2]; unsigned n = 1 + fsx_choose("cases", P_cases); unsigned level = fsx_choose("level", 6), via = fsx_choose("via", 3); bool large = via == 0 && fsx_choose("large", 2); std::string names[2] = {"Comp::one", "Comp::two"}, key[2] = {names[0], names[1]}; if (large) for (auto& x : names) x += std::string(300, 'x');
      for (unsigned i = 0; i < n; ++i) { t[i].id = (int)i; t[i].key = key[i]; t[i].what = large && i ? PASS : fsx_choose("what", 3); if (large) { if (!i && fsx_choose("out", 2)) t[i].o = "<" + fsx_text("o", 1500) + ">"; } else if (fsx_choose("out", 2)) { unsigned char c = fsx_u8("o"); fsx_assume(c > 32 && c < 127 && c != '[' && c != '='); t[i].o = std::string(i ? "<2" : "<1") + (char)c + ">"; } switch (large && i ? 0 : fsx_choose("err", 3)) { case 1: t[i].e = i ? "{err2}" : "{err1}"; break; case 2: t[i].late = i ? "{late2}" : "{late1}"; fsx_reach("late"); break; } u->addTestCase("Comp", names[i].c_str() + 6, &t[i]); }
      if (via == 0 && !large && n == 1 && t[0].what != PASS && fsx_choose("terse", 2)) { t[0].terse = true; fsx_reach("terse"); }
      bool capture = via != 2; std::string lv(1, (char)('0' + level)); std::vector<std::string> a{"suite", "-v", lv}; if (!capture) a.push_back("-c"); std::vector<char*> argv; for (auto& x : a) argv.push_back(&x[0]); argv.push_back(nullptr);
      if (via == 1) { u->setVerbosity((UnitTest::t_verbosity)level); u->performTest(names[0].c_str()); n = 1; delete u; } else u->main((int)a.size(), argv.data());
      std::string out = w.o.str(); std::vector<std::string> ls = lines(out); 
      if (capture) { if (level == 0) fsx_check(out.empty(), "level 0 prints nothing"); fsx_check(w.e.str().empty(), "nothing is printed on the error stream"); }
      bool allok = true;
      for (unsigned i = 0; i < n; ++i) {
         bool stream = capture && !t[i].e.empty(), bad = t[i].what != PASS || stream; if (bad) allok = false; int go = 0, ok = 0, fail = 0, blkF = 0, blkE = 0, so = 0, se = 0; char num[16]; snprintf(num, sizeof num, "%u", i + 1); bool numbered = true, pos = true, dsc = true, soText = true, seText = true;
         for (size_t k = 0; k < ls.size(); ++k) { const std::string& l = ls[k]; if (!has(l, key[i]) || has(l, "Failed cases")) continue;
            if (l.find("[") != std::string::npos && l[l.size() - 1] == ']') { (has(l, "GO") ? go : has(l, "OK") ? ok : fail)++; if (!has(l, "GO") && !has(l, "OK")) fsx_check(has(l, "FAIL"), "a result is OK or FAIL"); numbered &= has(l, std::string(num) + ":"); }
            else if (!has(l, names[i])) fsx_check(0, "cases are called by their names"); else if (has(l, "Failure in case")) { ++blkF; numbered &= has(l, std::string(num) + ":"); pos &= has(l, "file.cpp") && has(l, "77"); dsc &= k + 1 < ls.size() && (t[i].terse ? ls[k + 1].empty() : has(ls[k + 1], "failure text")); }
            else if (has(l, "Uncaught error")) { ++blkE; numbered &= has(l, std::string(num) + ":"); dsc &= k + 1 < ls.size() && (t[i].terse ? ls[k + 1].empty() : has(ls[k + 1], "error text")); }
            else if (has(l, "STDOUT")) { ++so; soText &= k + 2 < ls.size() && ls[k + 2] == t[i].o; } else if (has(l, "STDERR")) { ++se; seText &= k + 2 < ls.size() && ls[k + 2] == t[i].e + t[i].late; } }
         bool failed = t[i].what == FAILS, error = t[i].what == THROWS;
         fsx_check(go == (level >= 3) , "cases are announced from level 3"); if (level >= 3 && capture) fsx_check(announced[i], "before they run");
         fsx_check(blkF == (failed && level >= 1) && blkE == (error && level >= 1), "failures are printed from level 1"); fsx_check(pos && dsc, "with their position and description"); fsx_check(numbered, "under the number of the case");
         fsx_check(ok == (!bad && level >= 2), "successes have a result line from level 2"); fsx_check(fail == (stream && t[i].what == PASS && level >= 2), "so have cases that only wrote on the error stream");
         fsx_check(so == (capture && !t[i].o.empty() && (level >= 5 || (level >= 1 && bad))), "captured output is shown at level 5, and above 0 for failed cases"); fsx_check(se == (capture && (!t[i].late.empty() ? level >= (bad ? 1 : 4) : !t[i].e.empty() && level >= 1)), "captured errors are shown at level 4, and above 0 for failed cases"); fsx_check(soText && seText, "as they were written");
         fsx_reach(bad ? "bad" : "good");
      }
      int sums = 0; for (auto& l : ls) if (has(l, "Unit Test suite")) { ++sums; fsx_check(has(l, "Passed") == allok && has(l, "FAILED") == !allok, "the summary is right"); } if (via != 1) { fsx_check(sums == (level >= 1), "the summary is printed from level 1"); fsx_check(occurrences(out, "Failed cases") == (level >= 1 && !allok), "with the failed cases"); }
      fsx_reach(via == 1 ? "single" : capture ? "captured" : "through");
   }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
