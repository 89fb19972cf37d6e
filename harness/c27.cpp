#include "futh.h"
#include <locale>
#include <stdexcept>
enum { OK_, CHECK, THROW_STD, THROW_INT, CHECK_THROW, EXPLICIT, KINDS };
struct Plan { unsigned what; std::string out, err, text; unsigned fmt; };
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
// everything that can be set on a stream
struct Settings { std::ios::fmtflags f; std::streamsize p, w; char c; std::locale l; std::ios::iostate s, x; std::ostream* t; std::streambuf* b; Settings(std::ostream& o) : f(o.flags()), p(o.precision()), w(o.width()), c(o.fill()), l(o.getloc()), s(o.rdstate()), x(o.exceptions()), t(o.tie()), b(o.rdbuf()) {} bool operator==(const Settings& o) const { return f == o.f && p == o.p && w == o.w && c == o.c && l == o.l && s == o.s && x == o.x && t == o.t && b == o.b; } void put(std::ostream& o) { o.rdbuf(b); o.clear(s); o.exceptions(x); o.flags(f); o.precision(p); o.width(w); o.fill(c); o.imbue(l); o.tie(t); } };
struct Probe : TestCase {
   Plan p[3]; std::string order, name[3] = {"setup failed", "body failed", "teardown failed"}; int line[3] = {0, 0, 0}; std::ostream* so = nullptr;
   void helper(int n) { this->checkFail("/some/dir/file.cpp", 100 + n, name[n].c_str(), ""); }
   // the last one who writes may also spoil the streams
   void set(unsigned f) { switch (f) {
      case 1: std::cout << std::hex << std::left; std::cout.fill('*'); std::cerr.precision(1); break;
      case 2: for (std::ostream* o : {&std::cout, &std::cerr}) { o->imbue(std::locale(o->getloc(), new Punct)); o->tie(o == &std::cerr ? nullptr : so); } break;
      case 3: std::cout.exceptions(std::ios::badbit); std::cerr.setstate(std::ios::failbit); std::cerr.width(4); break;
      case 4: std::cout.setstate(std::ios::badbit); std::cerr.exceptions(std::ios::badbit | std::ios::eofbit); std::cout.width(7); break;
   } }
   void act(int n) {
      order += "SBT"[n]; std::cout << p[n].out; std::cerr << p[n].err; set(p[n].fmt);
      switch (p[n].what) {
      case CHECK: helper(n); return; case EXPLICIT: this->fail("file.cpp", 100 + n, name[n].c_str()); return;
      case THROW_STD: throw std::runtime_error(p[n].text + name[n]); case THROW_INT: throw 5; case CHECK_THROW: helper(n); throw std::logic_error("later");
      }
   }
   void SetUp() override { act(0); } void test() override { act(1); } void TearDown() override { act(2); }
};
static std::string word(const char* n, unsigned kinds) { switch (fsx_choose(n, kinds)) { case 0: return ""; case 1: { unsigned char c = fsx_u8("byte"); fsx_assume(c != 0); return std::string(1, (char)c); } default: return "a longer text that doesn't fit small strings\n"; } }
// texts of any length are captured and described whole
struct Big : TestCase { std::string out, err, desc; unsigned what = 0; void test() override { for (size_t i = 0; i < out.size(); i += 1000) std::cout << out.substr(i, 1000); std::cerr << err; if (what == 1) this->checkFail("dir/file.cpp", 12, desc.c_str(), ""); if (what == 2) throw std::runtime_error(desc); } };
static void big() {
   static const unsigned sizes[] = {0, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8193, 65536}; unsigned n = sizes[fsx_choose("size", 15)]; Watch w; Big t; t.what = fsx_choose("how", 3); t.desc = "d" + fsx_text("d", n); t.out = fsx_text("o", n); if (fsx_choose("err", 2)) t.err = fsx_text("e", n);
   UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("Comp", "Case", &t); u.performTest("Comp::Case");
   fsx_check(t.status() == (t.what == 1 ? TestCase::FAIL : t.what == 2 ? TestCase::ERROR : t.err.empty() ? TestCase::SUCCESS : TestCase::OUT_ON_ERROR_STREAM), "the outcome is the one of the body"); if (t.what) fsx_check(eqs(t.failDesc(), t.desc), "descriptions of any length are kept"); if (t.what == 1) fsx_check(t.failLine() == 12 && eqs(t.failFile(), "file.cpp"), "with their position");
   fsx_check(eqs(t.capturedOut(), t.out), "output of any length is captured"); fsx_check(eqs(t.capturedErr(), t.err), "so are errors"); fsx_check(w.o.str().empty() && w.e.str().empty() && w.restored(), "and nothing else reaches the standard streams");
   fsx_observe("n", n); fsx_reach("big");
}
// a failure is one whatever it says about itself
struct Terse : TestCase { unsigned at = 0, how = 0; int line = 0; std::string desc, file, actual;
   void act(unsigned n) { if (n != at) return; if (how == 0) this->checkFail(file.c_str(), line, desc.c_str(), actual.c_str()); else if (how == 1) this->fail(file.c_str(), line, desc.c_str()); else throw std::runtime_error(desc); }
   void SetUp() override { act(0); } void test() override { act(1); } void TearDown() override { act(2); } };
static void terse() {
   Watch w; Terse t; t.at = fsx_choose("at", 3); t.how = fsx_choose("how", 3); t.line = (int)fsx_sym("line", 32); t.desc = word("desc", 2); if (t.how < 2) t.file = fsx_choose("file", 2) ? "f.cpp" : ""; if (t.how == 0) t.actual = word("actual", 2);
   UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("Comp", "Case", &t); int r = u.performTest("Comp::Case");
   fsx_check(t.status() == (t.how == 2 ? TestCase::ERROR : TestCase::FAIL), "a failure needs no description, nor a place"); fsx_check(r != 0, "and the runner says it failed");
   fsx_check(eqs(t.failDesc(), t.actual.empty() ? t.desc : t.desc + " (Actually \"" + t.actual + "\")"), "it is described by what was given"); if (t.how < 2) fsx_check(eqs(t.failFile(), t.file) && t.failLine() == t.line, "with its position");
   fsx_check(w.o.str().empty() && w.e.str().empty() && w.restored(), "and nothing else reaches the standard streams"); fsx_observe("how", t.how); fsx_reach("terse");
}
extern "C" void fsx_main() {
   long base = fsx_live(); unsigned part = fsx_choose("part", 3);
   if (part == 1) big(); else if (part == 2) terse(); else
   for (unsigned once = 0; once < 1; ++once) {
      Watch w; Probe t; UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("Comp", "Case", &t); unsigned runs = 1 + fsx_choose("runs", P_runs);
      for (unsigned r = 0; r < runs; ++r) {
         bool last = r + 1 == runs; unsigned what[3] = {0, 0, 0}; t.order.clear();
         for (int n = 0; n < 3; ++n) { t.p[n] = Plan(); t.p[n].what = OK_; t.p[n].fmt = 0; }
         if (!last) { t.p[1].what = fsx_choose("before", 4); t.p[0].out = "old"; t.p[1].err = fsx_choose("olderr", 2) ? "oldE" : ""; t.p[1].text = "old "; }
         else { for (int n = 0; n < 3; ++n) t.p[n].what = fsx_choose("what", n == 1 ? KINDS : 4); unsigned fm = fsx_choose("fmt", 5); t.p[fm < 3 ? 1 : 2].fmt = fm; if (fm == 0) { t.p[1].out = word("out", 3); t.p[1].err = word("err", P_words); { unsigned m = fsx_choose("around", 6); t.p[0].out = m & 1 && m < 4 ? "in setup;" : ""; t.p[2].out = m & 2 ? "in teardown" : ""; t.p[0].err = m == 4 ? "s" : ""; t.p[2].err = m == 5 ? "t" : ""; } } else { t.p[1].out = "o"; t.p[1].err = fsx_choose("errB", 2) ? "e" : ""; t.p[2].out = fsx_choose("outT", 2) ? "in teardown" : ""; } t.p[1].text = "what "; }
         bool viaRunner = last && runs == 1 ? false : fsx_choose("runner", 2), capture = viaRunner || fsx_choose("capture", 2); w.o.str(""); w.e.str(""); Settings so(std::cout), se(std::cerr); std::ostringstream own; t.so = &own; int res = 0;
         if (viaRunner) res = u.performTest("Comp::Case"); else { t.beginTest(capture); fsx_check(capture == !w.restored(), "output is captured when so requested"); t.run(); t.endTest(capture); }
         for (int n = 0; n < 3; ++n) what[n] = t.p[n].what;
         bool thrown = what[0] == THROW_STD || what[0] == THROW_INT, bodyBad = what[1] != OK_, err = !t.p[0].err.empty() || !t.p[1].err.empty();
         // order
         if (thrown) fsx_check(t.order[0] == 'S' && t.order.find('B') == std::string::npos, "the body doesn't run after a set-up that throws"); else if (what[0] == OK_) fsx_check(t.order == "SBT", "set-up, body and tear-down run once each, in order"); else fsx_check(t.order[0] == 'S' && t.order[t.order.size() - 1] == 'T', "set-up comes first and tear-down last");
         bool ran = t.order.find('B') != std::string::npos, tore = t.order.find('T') != std::string::npos;
         // outcome
         int bad = what[0] != OK_ ? 0 : bodyBad ? 1 : what[2] != OK_ ? 2 : -1;
         if (bad < 0) { fsx_check(t.status() == (err && capture ? TestCase::OUT_ON_ERROR_STREAM : TestCase::SUCCESS), "a case whose body completes is successful, unless it writes on the captured error stream"); fsx_check(t.status() != TestCase::SUCCESS || !*t.failDesc(), "a success carries no failure"); fsx_reach(err && capture ? "stream" : "success"); }
         else {
            unsigned k = what[bad]; bool chk = k == CHECK || k == CHECK_THROW || k == EXPLICIT; fsx_check(t.status() == (chk ? TestCase::FAIL : TestCase::ERROR), bad == 1 ? "a failing body is a failure, a throwing one an error, whatever tear-down does" : "failures of set-up and tear-down are recorded");
            if (chk) { fsx_check(eqs(t.failDesc(), t.name[bad]), "the first failure is the one described"); fsx_check(t.failLine() == 100 + bad && eqs(t.failFile(), "file.cpp"), "with its position"); }
            else { if (k == THROW_STD) fsx_check(eqs(t.failDesc(), t.p[bad].text + t.name[bad]), "the exception is the one described"); else fsx_check(*t.failDesc() != 0, "an unknown exception is described"); fsx_check(!*t.failFile(), "an exception carries no position of other failures"); }
            fsx_reach(bad == 0 ? "setup" : bad == 1 ? "body" : "teardown");
         }
         if (viaRunner) fsx_check((res == 0) == (t.status() == TestCase::SUCCESS), "the runner passes successful cases only");
         // output
         std::string o = t.p[0].out + (ran ? t.p[1].out : "") + (tore ? t.p[2].out : ""), e = t.p[0].err + (ran ? t.p[1].err : "") + (tore ? t.p[2].err : "");
         fsx_check(eqs(t.capturedOut(), capture ? o : ""), "captured output is what this run wrote"); fsx_check(eqs(t.capturedErr(), capture ? e : ""), "captured errors are what this run wrote");
         fsx_check(w.o.str() == (capture ? "" : o) && w.e.str() == (capture ? "" : e), "and nothing else reaches the standard streams"); fsx_check(w.restored(), "the standard streams are restored"); fsx_check(Settings(std::cout) == so && Settings(std::cerr) == se, "with their settings");
         so.put(std::cout); se.put(std::cerr);
         if (!last) fsx_reach("again");
      }
   }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
