#include "log.h"
#include <falcon/logproxy.h>
struct Plain : LogSystem::Listener { std::vector<LogSystem::Message>& got; int& gone; Plain(std::vector<LogSystem::Message>& g, int& d) : got(g), gone(d) {} ~Plain() { ++gone; } void onMessage(const LogSystem::Message& m) override { if (m.m_message != "#END") got.push_back(m); } };
static const char* const cats[] = {"", "a", "ab"}; static const char* const flt[] = {"", "a", "a.*"}; static const bool ok[3][3] = {{1, 1, 1}, {1, 1, 0}, {1, 1, 1}};
// two proxies of one listener, which may be in the system itself, through every sequence of messages and changes
static void turns() {
   long base = fsx_live(); int gone = 0;
   {
      struct Set { bool on, en, det; unsigned lev, f; bool pass(unsigned l, unsigned c) const { return on && en && !det && l <= lev && ok[f][c]; } };
      std::vector<LogSystem::Message> got; auto w = std::make_shared<Plain>(got, gone); std::shared_ptr<LogSystem::Listener> l[3] = {w, std::make_shared<falcon::LogProxyListener>(w), std::make_shared<falcon::LogProxyListener>(w)}; Set st[3]; bool own = fsx_choose("own", 2), chain = fsx_choose("chain", 2);
      if (chain) l[2] = std::make_shared<falcon::LogProxyListener>(l[1]);      /* a proxy of the other proxy */
      for (auto& x : st) x = {true, true, false, 5, 0};
      st[0].on = own; LogSystem s; auto gate = std::make_shared<Rec>(); gate->category("gate"); int ends = 0, lines = 0; if (own) s.addListener(l[0]); s.addListener(l[1]); s.addListener(l[2]); s.addListener(gate); unsigned n = 1 + fsx_choose("n", P_ops);
      for (unsigned i = 0; i <= n; ++i) {
         unsigned op = i == n ? 0 : fsx_choose("op", 5);
         if (!op) {
            unsigned ci = fsx_choose("cat", 3), ml = fsx_below("level", 6); char t = (char)fsx_u8("t"); std::string text = "text"; text.push_back(t); if (ci == 2) text.clear(); size_t before = got.size(), want = 0; s.log("file", ++lines, (LEVEL)ml, cats[ci], text); s.log("e", 0, LEVEL::CRITICAL, "gate", "#END"); gate->wait(++ends);
            for (auto& x : st) want += x.pass(ml, ci);
            fsx_check(got.size() - before == want, "each message is handed over once by every proxy whose own filter it passes, and by no other"); for (size_t k = before; k < got.size(); ++k) fsx_check(same(got[k], "file", lines, (LEVEL)ml, cats[ci], text), "unchanged"); fsx_reach("handed");
         } else {
            unsigned who = fsx_choose("who", 2); Set& x = st[who]; switch (op) { case 1: x.f = (x.f + 1) % 3; l[who]->category(flt[x.f]); break; case 2: x.lev = x.lev == 5 ? 2 : 5; l[who]->level((LEVEL)x.lev); break; case 3: x.en = !x.en; l[who]->enable(x.en); break; case 4: l[who]->detach(); x.det = true; break; }
            for (unsigned k = 0; k < 3; ++k) fsx_check(l[k]->level() == (LEVEL)st[k].lev && l[k]->isEnabled() == st[k].en && l[k]->isDetached() == st[k].det && l[k]->category() == flt[st[k].f], "the settings of a proxy and of the wrapped listener are their own");
         }
      }
      s.stop(); fsx_observe("got", got.size()); got.clear(); got.shrink_to_fit(); w.reset(); for (auto& x : l) x.reset();
   }
   fsx_check(gone == 1, "released with the proxies"); fsx_check(fsx_live() == base, "nothing is left"); fsx_reach("turns");
}
extern "C" void fsx_main() {
   if (P_mode) { turns(); return; }
   long base = fsx_live(); int gone = 0;
   {
      std::vector<LogSystem::Message> got; auto w = std::make_shared<Plain>(got, gone); std::weak_ptr<Plain> alive = w;
      unsigned wl = fsx_choose("wlevel", 2) ? 5 : 0; bool we = fsx_choose("wenabled", 2), wd = fsx_choose("wdetached", 2), wc = fsx_choose("wcat", 2); w->level((LEVEL)wl); w->enable(we); if (wd) w->detach(); if (wc) w->category("never");
      unsigned pl = fsx_below("plevel", 6), pf = fsx_choose("pfilter", 3), pe = fsx_choose("penabled", 2), depth = 1 + fsx_choose("chain", 2), ci = fsx_choose("cat", 3), ml = fsx_below("level", 6); int line = fsx_int("line");
      std::shared_ptr<LogSystem::Listener> p = std::make_shared<falcon::LogProxyListener>(w); if (depth == 2) { p->level(LEVEL::CRITICAL); p->enable(false); p->category("none"); p = std::make_shared<falcon::LogProxyListener>(p); }
      p->level((LEVEL)pl); p->enable(pe); p->category(flt[pf]); w.reset(); fsx_check(!alive.expired(), "the wrapped listener stays alive with the proxy");
      std::string file = "file"; file.push_back((char)fsx_u8("f")); std::string text = "text"; text.push_back((char)fsx_u8("t")); if (ci == 1) text.clear(); if (ci == 2) file.clear();
      bool direct = fsx_choose("direct", 2);
      if (direct) { LogSystem::Message m(file, line, (LEVEL)ml, cats[ci], text); p->onMessage(m); fsx_check(got.size() == 1, "handed over once"); fsx_check(same(got[0], file, line, (LEVEL)ml, cats[ci], text), "unchanged"); fsx_check(same(m, file, line, (LEVEL)ml, cats[ci], text), "the message itself too"); fsx_reach("direct"); }
      else {
         LogSystem s(false); auto gate = std::make_shared<Rec>(); s.addListener(p); s.addListener(gate); s.log(file, line, (LEVEL)ml, cats[ci], text); endMark(s); s.start(); gate->wait(); s.stop();
         bool want = ml <= pl && pe && ok[pf][ci]; fsx_check(got.size() == (want ? 1 : 0), want ? "what passes the proxy's own filter is handed over once, whatever the wrapped listener's filters" : "what doesn't is not"); if (want) fsx_check(same(got[0], file, line, (LEVEL)ml, cats[ci], text), "unchanged"); fsx_reach(want ? "passed" : "filtered");
         p->detach(); s.start(); endMark(s); gate->wait(2); s.stop();
      }
      fsx_check(!alive.expired(), "alive until the proxy goes"); got.clear(); p.reset(); fsx_check(alive.expired() && gone == 1, "released with the proxy"); got.shrink_to_fit();
   }
   fsx_check(fsx_live() == base, "nothing is left"); fsx_reach("end");
}
