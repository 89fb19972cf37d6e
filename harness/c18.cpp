#include "log.h"
#include <thread>
struct In { std::string file, cat, text; int line; unsigned lev; };
static In input(unsigned who, unsigned k) { In i; i.file = "f" + std::to_string(who); i.line = (int)(who * 16 + k); i.lev = fsx_below("level", 6); i.cat = fsx_choose("cat", 2) ? "cat" : ""; i.text.push_back((char)fsx_u8("t")); switch (fsx_choose("long", who == 1 ? 3 : 2)) { case 1: i.text += "-a text that does not fit a small string"; break; case 2: i.text += std::string(9000, 'x'); i.file += fsx_text("f", 300); if (i.cat.size()) i.cat += fsx_text("c", 1025); } return i; }
static void send(LogSystem& s, const In& i) { s.log(i.file, i.line, (LEVEL)i.lev, i.cat, i.text); }
static bool isIt(const LogSystem::Message& m, const In& i) { return same(m, i.file, i.line, (LEVEL)i.lev, i.cat, i.text); }
struct Plain : LogSystem::Listener { std::vector<LogSystem::Message> got; void onMessage(const LogSystem::Message& m) override { if (m.m_message != "#END") got.push_back(m); } };
extern "C" void fsx_main() {
   long base = fsx_live();
   if (P_mode == 0) {                                    // producers race with the delivery thread
      std::vector<In> in[2]; for (unsigned w = 0; w < 2; ++w) for (unsigned k = 0; k < (w ? P_msgsB : P_msgsA); ++k) { In i; i.file = w ? "file B" : "file A"; i.line = (int)(100 * w + k); i.lev = k % 2 ? 5 : 0; i.cat = w ? "cat" : ""; i.text.push_back((char)fsx_u8("t")); i.text += k % 2 ? " a text that does not fit a small string" : ""; in[w].push_back(i); }
      {
         LogSystem s(P_start); auto p = std::make_shared<Plain>(), p2 = std::make_shared<Plain>(); auto gate = std::make_shared<Rec>();
         s.addListener(p); p2->level(LEVEL::CRITICAL); s.addListener(p2); gate->category("none"); s.addListener(gate);
         std::thread b([&] { for (auto& i : in[1]) send(s, i); });
         for (auto& i : in[0]) send(s, i);
         if (!P_start) s.start();
         b.join(); endMark(s); gate->wait(); s.stop();
         size_t at[2] = {0, 0}; unsigned crit = 0;
         for (auto& m : p->got) { unsigned w = m.m_line >= 100; fsx_check(at[w] < in[w].size(), "no message is delivered twice"); fsx_check(isIt(m, in[w][at[w]]), "messages of a thread arrive in order, exactly as logged"); ++at[w]; if (m.m_level == LEVEL::CRITICAL) { fsx_check(crit < p2->got.size() && p2->got[crit].m_line == m.m_line, "every qualifying listener receives it, in the same order"); ++crit; } }
         fsx_check(at[0] == in[0].size() && at[1] == in[1].size(), "no accepted message is lost"); fsx_check(crit == p2->got.size(), "and none of the others");
      }
      fsx_reach("threads");
   } else {                                              // volume: bursts around the pool's size, records recycled
      static const unsigned bursts[] = {2, 0, 66, 64, 1, 63, 65, 70}; std::vector<In> in; unsigned own = 0;
      {
         LogSystem s(false); auto p = std::make_shared<Plain>(); auto gate = std::make_shared<Rec>(); s.addListener(p); s.addListener(gate); int ends = 0;
         unsigned symAt = P_mode == 2 ? 2 : fsx_choose("symAt", 3); static const unsigned floods[] = {100, 127, 128, 129, 255, 256, 257, 600, 1001, 1025, 2500};
         for (int b = 0; b < P_bursts; ++b) {
            unsigned n = P_mode == 2 ? floods[fsx_choose("flood", P_nb)] : bursts[fsx_choose("burst", P_nb)];
            for (unsigned k = 0; k < n; ++k) { In i; if (symAt == 2 ? k + 1 == n : symAt == k) i = input(1 + b, k); else { i.file = "file with a long enough name " + std::to_string(k); i.line = (int)k; i.lev = k % 6; i.cat = k % 3 ? "" : "category" + std::to_string(b); i.text = std::string(k % 40, (char)('a' + b)) + std::to_string(k); if (k % 9 == 3) i.text.clear(); if (k % 7 == 5) i.file.clear(); if (k % 5 == 4) i.line = -i.line; } in.push_back(i); if (k == 1 && fsx_choose("own", 2)) { s.log(new LogSystem::Message(i.file, i.line, (LEVEL)i.lev, i.cat, i.text)); ++own; fsx_reach("own"); } else send(s, i); }
            endMark(s); s.start(); gate->wait(++ends); if (fsx_choose("stop", 2)) s.stop();
         }
         s.stop();
         fsx_check(p->got.size() == in.size(), "every message is delivered once"); for (size_t k = 0; k < in.size(); ++k) fsx_check(isIt(p->got[k], in[k]), "in order, exactly as logged");
         fsx_observe("n", in.size());
      }
      in.clear(); in.shrink_to_fit(); fsx_reach("volume");
      fsx_check(fsx_live() == base, "all messages are released");
   }
   fsx_reach("end");
}
