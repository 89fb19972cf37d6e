#include "log.h"
#include <thread>
static const char alpha[] = {'a', 'b', '.', '*', '(', ')', '[', ']', '|', '\\', ':', '+', '?', '^', '$', '{', '}', '1'};
static std::string pat() { std::string s; unsigned n = fsx_choose("plen", P_plen + 1); for (unsigned i = 0; i < n; ++i) s.push_back(alpha[fsx_choose("p", P_alpha)]); return s; }
static std::string cat(unsigned max) { std::string s; unsigned n = fsx_choose("clen", max + 1); for (unsigned i = 0; i < n; ++i) { unsigned char c = fsx_u8("c"); s.push_back((char)c); } return s; }
extern "C" void fsx_main() {
   Quiet q;
   if (P_mode == 0) {                                    // filter expressions: validity and matching, against the standard's regular expressions
      Rec l; fsx_check(l.category() == "" && l.isEnabled() && l.level() == LEVEL::TRACE && !l.isDetached(), "a new listener accepts everything");
      unsigned first = fsx_choose("first", 3); const char* cur = first == 0 ? "" : first == 1 ? "a" : "b.*"; if (first) l.category(cur);
      std::string p = pat(), want = cur; bool valid = true; std::regex r(cur);
      try { std::regex t(p); r = t; want = p; } catch (const std::regex_error&) { valid = false; }
      bool threw = false;
      try { l.category(p); } catch (const LogSystem::InvalidCategory& e) { threw = true; fsx_reach("invalid"); } catch (...) { fsx_check(0, "invalid filters are refused with the dedicated exception"); }
      fsx_check(threw == !valid, valid ? "a valid filter is accepted" : "an invalid filter is refused"); fsx_check(l.category() == want, valid ? "the filter is the one set" : "the previous filter stays in force");
      std::string c = cat(P_clen); bool m = c.empty() || want.empty() || std::regex_match(c, r);
      fsx_check(l.checkCategory(c) == m, m ? "a category that matches as a whole is accepted" : "a category that doesn't match as a whole is refused");
      fsx_observe("match", m); fsx_reach(m ? "match" : "nomatch");
   } else if (P_mode == 2) {                             // filters changed while messages are delivered
      LogSystem s; auto r = std::make_shared<Rec>(); auto gate = std::make_shared<Rec>(); gate->category("gate"); s.addListener(r); s.addListener(gate); static const char* const flt[] = {"a", "b", "", "["}; unsigned from = fsx_choose("from", 3), to = fsx_choose("to", 4), what = fsx_choose("what", 3);
      r->category(flt[from]); auto end = [&](int n) { s.log("e", 0, LEVEL::CRITICAL, "gate", "#END"); gate->wait(n); };
      auto pass = [](unsigned f, unsigned c) { return f == 2 || f == c; };          /* categories: a, b */
      s.log("f", 0, LEVEL::INFO, "a", "m"); s.log("f", 1, LEVEL::INFO, "b", "m");
      bool refused = false; if (what == 0) { try { r->category(flt[to]); } catch (const LogSystem::InvalidCategory&) { refused = true; } fsx_check(refused == (to == 3), "only an invalid filter is refused"); } else if (what == 1) r->level(LEVEL::ERROR); else r->enable(false);
      unsigned now = what || to == 3 ? from : to; fsx_check(r->category() == flt[now], "the filter in force");
      s.log("f", 2, LEVEL::INFO, "a", "m"); s.log("f", 3, LEVEL::INFO, "b", "m"); end(1); s.stop();
      int n[4] = {0}; for (auto& m : r->got) { fsx_check(m.m_line >= 0 && m.m_line < 4 && m.m_message == "m", "intact"); ++n[m.m_line]; }
      for (unsigned i = 0; i < 2; ++i) { bool a = pass(from, i), b = !what && pass(now, i); if (a && b) fsx_check(n[i] == 1, "passes both filters"); else if (!a && !b) fsx_check(n[i] == 0, "passes neither"); else fsx_check(n[i] <= 1, "once at most"); fsx_check(n[i + 2] == b, "what is logged after a change follows it"); }
      fsx_observe("pending", n[0] + 2 * n[1]); fsx_reach("changed");
   } else if (P_mode == 3) {                             // settings read while another thread changes them
      Rec l; static const char* const flt[] = {"", "a", "[", "a longer filter|another one"}; unsigned from = fsx_choose("from", 2), to = fsx_choose("to", 4); bool twice = fsx_choose("twice", 2); l.category(flt[from]); if (from == 1) l.level(LEVEL::INFO); bool seen = false;
      std::thread t([&] { try { l.category(flt[to]); } catch (const LogSystem::InvalidCategory&) {} l.level(LEVEL::ERROR); l.enable(false); l.detach(); });
      for (int i = 0; i < 1 + twice; ++i) { std::string c = l.category(); bool fresh = to != 2 && c == flt[to]; fsx_check(fresh || (c == flt[from] && !seen), "the filter read is the one before or the one after"); if (to != from) seen |= fresh; bool det = l.isDetached(), en = l.isEnabled(); LEVEL lv = l.level(); fsx_check((lv == LEVEL::ERROR && !(det && en)) || (!det && lv == (from ? LEVEL::INFO : LEVEL::TRACE)) || lv == LEVEL::ERROR, "settings"); (void)l.checkCategory("a"); fsx_observe("fresh", fresh); }
      t.join(); fsx_check(l.category() == flt[to == 2 ? from : to] && l.level() == LEVEL::ERROR && !l.isEnabled() && l.isDetached(), "the last settings stay"); fsx_reach("reading");
   } else if (P_mode == 4) {                             // settings and uses in turns
      Rec l; static const char* const flt[] = {"a", "", "[", "b.*", "a|ab"}; static const char* const cats[] = {"a", "ab", "b1"}; static const bool ok[5][3] = {{1, 0, 0}, {1, 1, 1}, {0, 0, 0}, {0, 0, 1}, {1, 1, 0}}; unsigned cur = 1;
      for (int k = 0; k < P_plen; ++k) {
         unsigned f = fsx_choose("filter", 6), c = fsx_choose("cat", 3); if (f < 5) { bool refused = false; try { l.category(flt[f]); } catch (const LogSystem::InvalidCategory&) { refused = true; } fsx_check(refused == (f == 2), "only an invalid filter is refused"); if (!refused) cur = f; }
         fsx_check(l.category() == flt[cur], "the filter in force"); fsx_check(l.checkCategory(cats[c]) == ok[cur][c], "the filter in force decides"); fsx_check(l.checkCategory(""), "a message without category passes");
      }
      fsx_reach("turns");
   } else if (P_mode == 5) {                             // long filters and categories
      static const unsigned ls[] = {15, 16, 31, 32, 33, 63, 64, 65, 100}; unsigned n = ls[fsx_choose("long", P_plen)]; std::string f(n, 'x'), c = f; for (unsigned i = 0; i < n; i += 7) c[i] = f[i] = (char)('a' + i % 26); Rec l; l.category(f); fsx_check(l.category() == f, "the filter is the one set"); fsx_check(l.checkCategory(c), "a category that matches as a whole is accepted");
      switch (fsx_choose("differs", 4)) { case 0: c[n - 1] = '-'; break; case 1: c.pop_back(); break; case 2: c.push_back('x'); break; default: c[0] = '-'; } fsx_check(!l.checkCategory(c), "a category that doesn't match as a whole is refused"); l.category(f + ".*"); fsx_check(l.checkCategory(f + "q") && !l.checkCategory(c.substr(1)), "the new filter decides"); fsx_reach("longer");
   } else {                                              // delivery through the system
      static const char* const cats[] = {"", "a", "ab", "b:a"}; static const char* const flt[] = {"", "a", "a.*", ".*:a"}; static const bool ok[4][4] = {{1, 1, 1, 1}, {1, 1, 0, 0}, {1, 1, 1, 0}, {1, 0, 0, 1}};
      unsigned sys = fsx_below("sys", 6), lv[2], en[2], fi[2], ml = fsx_below("level", 6), ci = fsx_choose("cat", 4); for (int i = 0; i < 2; ++i) lv[i] = fsx_below("lv", 6), en[i] = fsx_choose("en", 2), fi[i] = fsx_choose("filter", 4);
      bool bad = fsx_choose("bad", 2), late = fsx_choose("late", 2);
      unsigned sys2 = late ? fsx_below("sys2", 6) : sys;
      LogSystem s(false); std::shared_ptr<Rec> r[2] = {std::make_shared<Rec>(), std::make_shared<Rec>()}; auto gate = std::make_shared<Rec>();
      for (int i = 0; i < 2; ++i) { r[i]->level((LEVEL)lv[i]); r[i]->enable(en[i]); r[i]->category(flt[fi[i]]); if (bad) try { r[i]->category("["); } catch (LogSystem::InvalidCategory&) {} s.addListener(r[i]); }
      s.addListener(gate); s.level((LEVEL)sys); int line = fsx_int("line"); const char* text = ci == 2 ? "" : "text";
      s.log("f", line, (LEVEL)ml, cats[ci], text); s.level((LEVEL)sys2); endMark(s); s.start(); gate->wait(); s.stop();
      for (int i = 0; i < 2; ++i) {
         bool want = ml <= sys && ml <= lv[i] && en[i] && ok[fi[i]][ci];
         fsx_check(r[i]->got.size() == (want ? 1 : 0), want ? "a message passing every filter is delivered" : "a message above a level, to a disabled listener or of another category is not delivered");
         if (want) fsx_check(same(r[i]->got[0], "f", line, (LEVEL)ml, cats[ci], text), "delivered unchanged");
         fsx_reach(want ? "delivered" : "filtered"); fsx_check(r[i]->level() == (LEVEL)lv[i] && r[i]->isEnabled() == (bool)en[i] && r[i]->category() == flt[fi[i]], "settings stay as they were");
      }
      fsx_check(gate->got.size() == (ml <= sys ? 1 : 0), "the system level at logging time decides");
      fsx_check(s.level() == (LEVEL)sys2, "the system level is the one set");
   }
   fsx_check(q.ok(), "filtering writes nothing");
   fsx_reach("end");
}
