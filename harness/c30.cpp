#include "futh.h"
#include <locale>
#include <stdexcept>
enum { PASS, FAILS, THROWS, WRITES };
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\1"; } };
struct Global { std::locale old; bool set; Global(bool s) : set(s) { if (s) old = std::locale::global(std::locale(std::locale(), new Punct)); } ~Global() { if (set) std::locale::global(old); } };
struct Probe : TestCase { unsigned what = PASS; const char* desc = ""; const char* file = ""; int line = 0; bool ran = false; long ms = 0; void test() override { ran = true; clk_usec += ms % 1000 * 1000; clk_sec += ms / 1000; if (clk_usec >= 1000000) { clk_usec -= 1000000; ++clk_sec; } switch (what) { case FAILS: checkFail(file, line, desc, ""); break; case THROWS: throw std::runtime_error(desc); case WRITES: std::cerr << desc; } } };
// a small strict XML reader
struct Node { std::string tag, text; std::vector<std::pair<std::string, std::string>> at; std::vector<Node> kids; const std::string* get(const char* n) const { for (auto& p : at) if (p.first == n) return &p.second; return nullptr; } };
struct Xml {
   std::string s; size_t i = 0; bool ok = true;
   char c() { return i < s.size() ? s[i] : '\0'; }
   bool is(const char* t) { return s.compare(i, strlen(t), t) == 0; }
   void ws() { while (c() == ' ' || c() == '\n' || c() == '\t' || c() == '\r') ++i; }
   static bool legal(unsigned char x) { return x >= 0x20 || x == 9 || x == 10 || x == 13; }
   std::string nm() { std::string r; while (i < s.size() && ((c() >= 'a' && c() <= 'z') || (c() >= 'A' && c() <= 'Z') || (r.size() && ((c() >= '0' && c() <= '9') || c() == '-' || c() == '.')) || c() == '_')) r.push_back(s[i++]); if (r.empty()) ok = false; return r; }
   void ref(std::string& out) {                    // at '&'
      static const char* const n[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"}; static const char v[] = "&<>\"'";
      for (int k = 0; k < 5; ++k) if (is(n[k])) { out.push_back(v[k]); i += strlen(n[k]); return; }
      if (is("&#")) { i += 2; bool hex = c() == 'x'; if (hex) ++i; unsigned x = 0; int d = 0; while (d < 6) { char q = c(); unsigned y; if (q >= '0' && q <= '9') y = q - '0'; else if (hex && q >= 'a' && q <= 'f') y = q - 'a' + 10; else if (hex && q >= 'A' && q <= 'F') y = q - 'A' + 10; else break; x = x * (hex ? 16 : 10) + y; ++d; ++i; } if (!d || c() != ';' || x > 255 || !legal((unsigned char)x)) { ok = false; return; } ++i; out.push_back((char)x); return; }
      ok = false;
   }
   Node element() {                                // at '<'
      Node n; ++i; n.tag = nm(); bool sp;
      while (ok) {
         size_t b = i; ws(); sp = i > b; if (c() == '>') { ++i; break; } if (is("/>")) { i += 2; return n; } if (!sp) { ok = false; break; }
         std::string an = nm(); ws(); if (!ok || c() != '=') { ok = false; break; } ++i; ws(); char q = c(); if (q != '"' && q != '\'') { ok = false; break; } ++i; std::string v;
         while (ok) { if (i >= s.size()) { ok = false; break; } char ch = s[i]; if (ch == q) { ++i; break; } if (ch == '<' || !legal((unsigned char)ch)) { ok = false; break; } if (ch == '&') ref(v); else { v.push_back(ch == '\n' || ch == '\t' || ch == '\r' ? ' ' : ch); ++i; } }
         if (n.get(an.c_str())) ok = false; n.at.push_back({an, v});
      }
      while (ok) {
         if (i >= s.size()) { ok = false; break; } char ch = s[i];
         if (ch == '<') { if (is("</")) { i += 2; if (nm() != n.tag) ok = false; ws(); if (c() != '>') ok = false; ++i; return n; } if (is("<![CDATA[")) { size_t e = s.find("]]>", i); if (e == std::string::npos) { ok = false; break; } for (size_t k = i + 9; k < e; ++k) { if (!legal((unsigned char)s[k])) ok = false; n.text.push_back(s[k]); } i = e + 3; continue; } n.kids.push_back(element()); continue; }
         if (ch == '&') { ref(n.text); continue; } if (!legal((unsigned char)ch) || is("]]>")) { ok = false; break; } n.text.push_back(ch == '\r' ? '\n' : ch); ++i;
      }
      return n;
   }
   Node document() { Node n; if (is("<?xml ")) { size_t e = s.find("?>"); if (e == std::string::npos) ok = false; i = e + 2; } ws(); if (c() != '<') { ok = false; return n; } n = element(); ws(); if (i != s.size()) ok = false; return n; }
};
static std::string sym(const char* n, unsigned len) { std::string r; unsigned l = fsx_choose("len", len + 2); if (l == len + 1) { fsx_reach("nothing"); return r; } if (l == 0) { unsigned char x = fsx_u8(n), y = fsx_u8(n); fsx_assume(x >= 0xC2 && x <= 0xDF && y >= 0x80 && y <= 0xBF); r.push_back((char)x); r.push_back((char)y); fsx_reach("utf8"); } for (unsigned q = 0; q < l; ++q) { unsigned char ch = fsx_u8(n); fsx_assume(ch != 0 && ch < 128); r.push_back((char)ch); } return r; }
static bool plain(const std::string& s) { for (char c : s) if (!Xml::legal((unsigned char)c)) return false; return true; }
static bool same(const std::string* a, const std::string& b) { return a && a->size() == b.size() && eqs(a->c_str(), b); }
static long num(const std::string* a) { if (!a || a->empty() || a->size() > 6) return -1; long v = 0; for (char c : *a) { if (c < '0' || c > '9') return -1; v = v * 10 + c - '0'; } return v; }
static bool took(const std::string* a, long ms) { if (!a || a->empty()) return false; char* e = nullptr; double v = strtod(a->c_str(), &e), d = v - ms / 1000.0; return *e == 0 && d < 0.0006 && d > -0.0006; }   // seconds, to the millisecond
// long texts, and many cases
static void large() {
   static const unsigned sizes[] = {63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4097}, counts[] = {2, 9, 10, 11, 33, 65, 100, 129}; unsigned part = fsx_choose("part", 7); Watch w; UnitTest* u = new UnitTest; std::string comp = "Comp", name = "case", sname = "suite", id = "id", desc = "desc", file = "file.cpp", p0 = "prog", x = "-x", xf = "report.xml", nn = "-n", ii = "-i", q = "-q"; unsigned n = 1;
   if (part < 6) { std::string* s[] = {&comp, &name, &sname, &id, &desc, &file}; *s[part] = fsx_text("long", sizes[fsx_choose("size", 11)]); } else n = counts[fsx_choose("count", 8)];
   std::vector<Probe> t(n); std::vector<std::string> names(n); for (unsigned i = 0; i < n; ++i) { t[i].what = i % 3 ? PASS : FAILS; t[i].desc = desc.c_str(); t[i].file = file.c_str(); t[i].line = 10 + (int)i; names[i] = i ? "case" + std::to_string(i) : name; u->addTestCase(comp.c_str(), names[i].c_str(), &t[i]); }
   char* argv[] = {&p0[0], &q[0], &x[0], &xf[0], &nn[0], &sname[0], &ii[0], &id[0], nullptr}; u->main(8, argv); static char buf[200000]; long len = fsx_file_read("report.xml", buf, sizeof buf); fsx_check(len > 0 && len < (long)sizeof buf, "the report is written");
   Xml r; r.s.assign(buf, (size_t)len); Node root = r.document(); fsx_check(r.ok, "the report is well-formed XML"); unsigned bad = (n + 2) / 3; fsx_check(root.tag == "testsuites" && num(root.get("tests")) == (long)n && num(root.get("failures")) == (long)bad, "overall counts are those of the run"); fsx_check(same(root.get("name"), sname) && same(root.get("id"), id), "the suite has its name and id");
   fsx_check(root.kids.size() == 1, "one component"); const Node& s = root.kids[0]; fsx_check(same(s.get("name"), comp) && num(s.get("tests")) == (long)n && num(s.get("failures")) == (long)bad && s.kids.size() == n, "each executed case is listed once, however many");
   for (unsigned i = 0; i < n; ++i) { const Node& tc = s.kids[i]; fsx_check(same(tc.get("name"), names[i]) && same(tc.get("id"), id + "." + comp + "." + names[i]), "under their names and ids"); fsx_check(tc.kids.size() == (i % 3 == 0), "failures are those of the run"); if (i % 3 == 0) { fsx_check(same(tc.kids[0].get("message"), desc), "with their description"); fsx_check(has(tc.kids[0].text, desc) && has(tc.kids[0].text, "File: " + file + "\nLine: " + std::to_string(10 + i) + "\n"), "and position"); } }
   fsx_observe("len", (uint64_t)n); fsx_reach("large");
}
extern "C" void fsx_main() {
   long base = fsx_live();
   if (P_large) large(); else
   {
      Watch w; UnitTest* u = new UnitTest; Probe t[P_cases]; unsigned n = 1 + fsx_choose("cases", P_cases), comp[P_cases] = {0}, maxc = 0; unsigned where = fsx_choose("where", 8); bool longer = where == 0 && fsx_choose("longer", 2); if (longer) fsx_reach("longer");
      std::string comps[] = {"Beta", "Alpha"}, names[] = {"one", "two", "three"}, sname = "A <suite> & \"more\"", id = "id", descs[P_cases], files[P_cases];
      switch (where) { case 1: comps[0] = sym("component", P_len); fsx_assume(!eqs("Alpha", comps[0])); break; case 2: names[0] = sym("case", P_len); break; case 3: sname = sym("suite", P_len); break; case 4: id = sym("id", P_len); break; }
      for (unsigned i = 0; i < n; ++i) { comp[i] = fsx_choose("comp", maxc + 1 < 2 ? maxc + 1 : 2); if (comp[i] == maxc) ++maxc; t[i].what = where == 5 && i == 0 ? FAILS : where == 6 && i == 0 ? THROWS : fsx_choose("what", 4); descs[i] = "EXPECT a < b && \"c\" failed\n"; files[i] = "file.cpp"; t[i].line = 10 + (int)i * 37; static const long ms[] = {1300, 7, 61004}, lng[] = {1000001, 9999999, 1234567890}; t[i].ms = longer ? lng[i] : ms[i]; }
      switch (where) { case 5: case 6: descs[0] = sym("text", P_dlen); break; case 7: files[0] = sym("file", P_len); for (char c : files[0]) fsx_assume(c != '/'); break; }
      for (unsigned i = 0; i < n; ++i) { t[i].desc = descs[i].c_str(); t[i].file = files[i].c_str(); u->addTestCase(comps[comp[i]].c_str(), names[i].c_str(), &t[i]); }
      std::string p0 = "prog", x = "-x", xf = "report.xml", nn = "-n", ii = "-i", q = "-q", tt = "-t", full; std::vector<char*> argv{&p0[0], &q[0], &x[0], &xf[0], &nn[0], &sname[0], &ii[0], &id[0]}; int only = where == 0 && fsx_choose("select", 2) ? (int)fsx_choose("only", n) : -1;
      if (only >= 0) { full = comps[comp[only]] + "::" + names[only]; argv.push_back(&tt[0]); argv.push_back(&full[0]); }
      int argc = (int)argv.size(); argv.push_back(nullptr); Global g(where == 0 && fsx_choose("locale", 2)); if (g.set) fsx_reach("locale");
      if (where == 0 && !longer && !g.set && fsx_choose("again", 2)) { u->detectTestName(argv[0]); fsx_check(u->parseParams(argc - 1, argv.data() + 1) == 0, "the options are accepted"); u->performUnitTests(); for (unsigned i = 0; i < n; ++i) if (t[i].what != PASS && fsx_choose("repaired", 2)) t[i].what = PASS; u->performUnitTests(); delete u; fsx_reach("again"); }
      else u->main(argc, argv.data());
      static char buf[200000]; long len = fsx_file_read("report.xml", buf, sizeof buf); fsx_check(len > 0 && len < (long)sizeof buf, "the report is written");
      Xml r; r.s.assign(buf, (size_t)len); Node root = r.document(); fsx_check(r.ok, "the report is well-formed XML");
      long all = 0; unsigned ex = 0, bad = 0; for (unsigned i = 0; i < n; ++i) if (only < 0 || only == (int)i) { ++ex; all += t[i].ms; bad += t[i].what != PASS; }
      fsx_check(root.tag == "testsuites" && num(root.get("tests")) == (long)ex && num(root.get("failures")) == (long)bad, "overall counts are those of the run"); fsx_check(took(root.get("time"), all), "and so is the time taken"); if (plain(sname) && plain(id)) fsx_check(same(root.get("name"), sname) && same(root.get("id"), id), "the suite has its name and id");
      unsigned suites = 0; for (unsigned c = 0; c < maxc; ++c) {
         long cms = 0; unsigned cx = 0, cb = 0, seen = 0; for (unsigned i = 0; i < n; ++i) if (comp[i] == c && (only < 0 || only == (int)i)) { ++cx; cms += t[i].ms; cb += t[i].what != PASS; }
         for (auto& s : root.kids) { const std::string* nm = s.get("name"); fsx_check(s.tag == "testsuite" && nm, "components are test suites"); bool mine = plain(comps[c]) ? same(nm, comps[c]) : c == 0 ? !same(nm, "Alpha") : same(nm, comps[c]); if (!mine) continue; ++seen;
            fsx_check(num(s.get("tests")) == (long)cx && num(s.get("failures")) == (long)cb, "component counts are those of the run"); fsx_check(took(s.get("time"), cms), "a component's time is that of its cases"); fsx_check(s.kids.size() == cx, "each executed case is listed once"); if (plain(id) && plain(comps[c])) fsx_check(same(s.get("id"), id + "." + comps[c]), "with its id");
            size_t k = 0; for (unsigned i = 0; i < n; ++i) if (comp[i] == c && (only < 0 || only == (int)i)) { const Node& tc = s.kids[k++]; fsx_check(tc.tag == "testcase" && took(tc.get("time"), t[i].ms), "cases are test cases with the time they took"); if (plain(names[i])) { fsx_check(same(tc.get("name"), names[i]), "under their names"); if (plain(id) && plain(comps[c])) fsx_check(same(tc.get("id"), id + "." + comps[c] + "." + names[i]), "and ids"); }
               fsx_check(tc.kids.size() == (t[i].what != PASS), "failures are those of the run"); if (t[i].what != PASS) { const Node& f = tc.kids[0]; const std::string* m = f.get("message"); fsx_check(f.tag == "failure" && m && f.get("type") && f.get("type")->size(), "failures say what happened"); if (t[i].what != WRITES && plain(descs[i])) { fsx_check(same(m, descs[i]), "with their description"); size_t fp = f.text.rfind("File: "); bool in = false; for (size_t b = 0; fp != std::string::npos && !in && b + descs[i].size() <= fp; ++b) in = eqs(descs[i].c_str(), f.text.substr(b, descs[i].size())); fsx_check(in, "in the text too"); }
                  if (t[i].what == FAILS && plain(files[i])) { char ln[40]; snprintf(ln, sizeof ln, "\nLine: %d\n", t[i].line); std::string want = "File: " + files[i] + ln; fsx_check(f.text.size() >= want.size() && eqs(want.c_str(), f.text.substr(f.text.size() - want.size())), "and their position"); } fsx_reach("failure"); } }
         }
         fsx_check(seen == (cx ? 1u : 0u), "each executed component is listed once"); suites += cx != 0;
      }
      fsx_check(root.kids.size() == suites, "and nothing else is listed");
   }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
