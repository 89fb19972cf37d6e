#include "futh.h"
static int ran[2];
struct Probe : TestCase { int id = 0; void test() override { ++ran[id]; std::cout << "outtext"; } };
static std::string sym(const char* n, unsigned maxlen) { std::string r; unsigned l = fsx_choose("len", maxlen + 1); for (unsigned q = 0; q < l; ++q) { unsigned char ch = fsx_u8(n); fsx_assume(ch != 0); r.push_back((char)ch); } return r; }
static int level(const std::string& s) {          // 0..5 the level, -1 refused, -2 either (blanks around the number)
   size_t i = 0; bool blank = false, neg = false; auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
   while (i < s.size() && sp(s[i])) { blank = true; ++i; }
   size_t e = s.size(); while (e > i && sp(s[e - 1])) { blank = true; --e; }
   if (i < e && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
   if (i == e) return -1; int v = 0; for (; i < e; ++i) { if (s[i] < '0' || s[i] > '9') return -1; v = v * 10 + (s[i] - '0'); if (v > 5) v = 6; }
   if (v > 5 || (neg && v)) return -1; return blank || neg ? -2 : v;
}
static bool startsAt(const std::string& s, const char* t) { return s.compare(0, strlen(t), t) == 0; }
static bool fileHas(const char* name, std::string& out) { char buf[4096]; long n = fsx_file_read(name, buf, sizeof buf); if (n < 0) return false; out.assign(buf, (size_t)(n < (long)sizeof buf ? n : (long)sizeof buf)); return true; }
extern "C" void fsx_main() {
   long base = fsx_live(); ran[0] = ran[1] = 0;
   {
      Watch w; UnitTest* u = new UnitTest; Probe t[2]; t[1].id = 1; u->addTestCase("Comp", "one", &t[0]); u->addTestCase("Comp", "two", &t[1]);
      static const char* const words[] = {"-q", "-c", "-e", "-v", "-t", "-x", "-n", "-i", "-h", "Comp::one", "Comp::two", "4", "name", "-", "Comp::", ""};
      std::vector<std::string> a; std::string prog = "suite", name = "suite"; unsigned part = fsx_choose("part", 5);
      if (part == 0) { unsigned n = fsx_choose("words", P_words + 1); for (unsigned i = 0; i < n; ++i) a.push_back(words[fsx_choose("word", 16)]); }
      else if (part == 1) { if (fsx_choose("first", 2)) a.push_back("-q"); a.push_back(sym("opt", 3)); unsigned arg = fsx_choose("argument", 3); if (arg) a.push_back(arg == 1 ? "Comp::two" : "2"); }
      else if (part == 2) { a.push_back("-v"); a.push_back(sym("verb", P_len)); if (fsx_choose("more", 2)) { a.push_back("-t"); a.push_back("Comp::two"); } }
      else if (part == 4) { static const unsigned sizes[] = {15, 16, 63, 64, 127, 128, 255, 256, 1023, 1024, 4097}; std::string l = fsx_text("name", sizes[fsx_choose("size", 11)]); for (char& c : l) if (c == '.') fsx_assume(0); if (fsx_choose("given", 2)) { a.push_back("-n"); a.push_back(l); if (fsx_choose("id", 2)) { a.push_back("-i"); a.push_back(l); } } else { prog = "some/dir/" + l + ".fut"; name = l; } fsx_reach("long"); }
      else { prog = sym("prog", P_plen); size_t s = 0, i; for (i = 0; i < prog.size(); ++i) if (prog[i] == '/') s = i + 1; for (i = s; i < prog.size() && prog[i] != '.'; ++i) {} name = prog.substr(s, i - s); if (fsx_choose("xml", 2)) { for (char c : name) fsx_assume(c > 32 && c != '&' && c != '<' && c != '>' && c != '"' && c != '\''); a.push_back("-x"); a.push_back("report.xml"); } }
      // what the documentation says of these words
      bool refused = false, help = false, either = false, capture = true; int verb = 2; bool sel[2] = {false, false}; std::string id = name, xml;
      for (size_t i = 0; i < a.size() && !refused && !help; ++i) {
         const std::string& o = a[i]; bool more = i + 1 < a.size();
         if (o == "-q") verb = 0; else if (o == "-c") capture = false; else if (o == "-e") {} else if (o == "-h") help = true;
         else if (o == "-v" && more) { int l = level(a[++i]); if (l == -1) refused = true; else if (l == -2) either = true; else verb = l; }
         else if (o == "-t" && more) { const std::string& x = a[++i]; if (x == "Comp::one") sel[0] = true; else if (x == "Comp::two") sel[1] = true; else refused = true; }
         else if (o == "-x" && more) xml = a[++i]; else if (o == "-n" && more) name = a[++i]; else if (o == "-i" && more) id = a[++i];
         else refused = true;
      }
      if (!sel[0] && !sel[1]) sel[0] = sel[1] = true;
      std::vector<char*> argv; argv.push_back(&prog[0]); for (auto& x : a) argv.push_back(&x[0]); argv.push_back(nullptr);
      int res = u->main((int)a.size() + 1, argv.data()); std::string out = w.o.str(), err = w.e.str();
      if (refused || help) { fsx_check(!ran[0] && !ran[1], refused ? "refused options run no test" : "help runs no test"); if (refused) fsx_check(res != 0, "refused options give a non-zero status"); fsx_check(!has(out, "Unit Test suite"), "and no report"); if (help) { fsx_check(has(out, "-v"), "help lists the options"); fsx_check(err.empty(), "asking for help is no error"); } fsx_reach(refused ? "refused" : "help"); }
      else if (either) { if (res == 0) fsx_check(ran[0] == sel[0] && ran[1] == sel[1], "accepted options run the selected tests"); else fsx_check(!ran[0] && !ran[1], "refused options run no test"); }
      else {
         fsx_check(res == 0, "documented options are accepted wherever they are"); fsx_check(ran[0] == (sel[0] ? 1 : 0) && ran[1] == (sel[1] ? 1 : 0), "the selected tests run"); fsx_check(err.empty(), "nothing is printed on the error stream");
         int n = sel[0] + sel[1]; std::string sum = "Unit Test " + name + " (elapsed"; size_t sp = out.find("Unit Test ");
         if (verb == 0) fsx_check(out == (capture ? "" : n == 2 ? "outtextouttext" : "outtext"), "a silent run prints nothing of its own");
         else { fsx_check(sp != std::string::npos && (sp == 0 || out[sp - 1] == '\n') && out.size() - sp > sum.size(), "the summary names the suite"); bool eq = true; for (size_t i = 0; i < sum.size(); ++i) eq &= out[sp + i] == sum[i]; fsx_check(eq, "with its name, the program's without directory and extension unless given"); }
         std::string pre = out.substr(0, sp == std::string::npos ? out.size() : sp); fsx_check(occurrences(pre, "OK") == (verb >= 2 ? n : 0), "results are printed from level 2"); fsx_check(occurrences(pre, "GO") == (verb >= 3 ? n : 0), "cases are announced from level 3"); fsx_check(occurrences(pre, "outtext") == (capture ? (verb >= 5 ? n : 0) : n), "captured output is shown at level 5, and goes through when not captured"); fsx_check(occurrences(pre, "STDOUT") == (capture && verb >= 5 ? n : 0), "as such");
         if (xml.size()) { std::string f; fsx_check(fileHas(xml.c_str(), f), "the report is saved"); size_t p = f.find("<testsuites id=\""); fsx_check(p != std::string::npos, "with its root"); std::string want = id + "\" name=\"" + name + "\""; p += 16; bool eq = f.size() - p > want.size(); for (size_t i = 0; eq && i < want.size(); ++i) eq &= f[p + i] == want[i]; fsx_check(eq, "with the id and the name of the suite"); fsx_reach("xml"); }
         fsx_reach(part == 3 ? "program" : "accepted");
      }
   }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
