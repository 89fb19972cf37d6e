#include "log.h"
#include <falcon/logger.h>
#include <iomanip>
#include <string_view>
#include <system_error>
#include <thread>
struct Want { int line; unsigned lev; std::string cat, text; };
struct Plain : LogSystem::Listener { std::vector<LogSystem::Message> got; void onMessage(const LogSystem::Message& m) override { if (m.m_message != "#END") got.push_back(m); } };
static std::string inner(std::vector<Want>& w, const std::string& cat, bool logged) { LOG_WARN << "inner"; if (logged) w.push_back({__LINE__, 2, cat, "inner"}); return "called"; }
struct Leave {};
// a message composed while another one is: a statement or a block, with a category of its own or not
static std::string within(std::vector<Want>& w, const std::string& cat, unsigned kind, bool logged) {
   if (kind == 0) { LOG_WARN << LOG_CAT("inner category") << "in"; if (logged) w.push_back({__LINE__, 2, "inner category", "in"}); }
   else if (kind == 1) { LOG_BLOCK_WARN { LOGGER << "bl"; LOGGER << "ock"; } int line = __LINE__; if (logged) w.push_back({line, 2, cat, "block"}); }
   else { int line = __LINE__; LOG_BLOCK_WARN { LOGGER.setTempCategory("inner category"); LOGGER << std::hex << 17; if (kind == 2) continue; LOGGER << "+"; if (kind == 3) break; if (logged) w.push_back({line, 2, "inner category", "11+"}); return "returned"; } if (logged) w.push_back({line, 2, "inner category", kind == 2 ? "11" : "11+"}); }
   return "within";
}
// one thread's statements, and what they should log
static void play(std::vector<Want>& w, std::string& cat, unsigned& gen, unsigned op, unsigned lev, int num, unsigned char ch) {
   const std::string own = "own category, a long one"; auto on = [&](unsigned l) { return (int)l <= (int)gen && (int)l <= (int)(P_minlog); }; LEVEL L = (LEVEL)lev; std::string t; t.push_back((char)ch);
   switch (op) {
      case 0: LOG(L) << "n=" << num << t; if (on(lev)) w.push_back({__LINE__, lev, cat, "n=" + std::to_string(num) + t}); fsx_reach("log"); break;
      case 1: LOG(L) << LOG_CAT(own) << t << ' ' << true; if (on(lev)) w.push_back({__LINE__, lev, own, t + " 1"}); fsx_reach("temp"); break;
      case 2: { LOG_BLOCK(L) { LOGGER << "Hello"; for (int i = 0; i < 2; ++i) LOGGER << i << t; } int line = __LINE__; if (on(lev)) w.push_back({line, lev, cat, "Hello0" + t + "1" + t}); fsx_reach("block"); break; }
      case 3: cat = cat == "" ? "thread category" : cat == "x" ? "" : "x"; if (P_minlog < 0) LOGGER.setCategory(cat); else { LOG_CATEGORY(cat); } fsx_check(LOGGER.getCategory() == cat, "the thread's category is the one set"); break;
      case 4: LOG(L) << "outer " << inner(w, cat, on(2)) << t; if (on(lev)) w.push_back({__LINE__, lev, cat, "outer called" + t}); fsx_reach("nested"); break;
      case 5: { int line = __LINE__ + 1;
         LOG_BLOCK(L) { LOGGER.setTempCategory(own); LOGGER << "left" << t; break; }
         if (on(lev)) w.push_back({line, lev, own, "left" + t}); fsx_reach("left"); break; }
      case 6: LOG(L) << std::hex << 255 << std::boolalpha; if (on(lev)) w.push_back({__LINE__, lev, cat, "ff"}); fsx_reach("format"); break;
      case 7: LOGGER.setFile(__FILE__); LOGGER.setLine(num); LOGGER.setLevel(L); LOGGER << "low" << t; if (num & 1) LOGGER.setTempCategory("tmp"); LOGGER.commit(); if (lev <= gen) w.push_back({num, lev, (num & 1) ? "tmp" : cat, "low" + t}); fsx_reach("direct"); break;
      case 8: { int line = __LINE__; try { LOG_BLOCK(L) { LOGGER << "thrown" << t; throw Leave(); } } catch (Leave&) {} if (on(lev)) w.push_back({line, lev, cat, "thrown" + t}); break; }
      case 10: { unsigned k = fsx_choose("inner", 5); LOG(L) << LOG_CAT(own) << "a" << within(w, cat, k, on(2)) << 18; if (on(lev)) w.push_back({__LINE__, lev, own, std::string("a") + (k == 4 && (int)P_minlog >= 2 && gen >= 2 ? "returned" : "within") + "18"}); fsx_reach("instatement"); break; }
      case 11: { unsigned k = fsx_choose("inner", 5); bool early = fsx_choose("early", 2), rest = fsx_choose("rest", 2); LOG_BLOCK(L) { LOGGER << "a"; if (early) LOGGER.setTempCategory(own); within(w, cat, k, on(2)); if (rest) LOGGER << 18; if (!early) LOGGER.setTempCategory(own); } int line = __LINE__; if (on(lev)) w.push_back({line, lev, own, rest ? "a18" : "a"}); fsx_reach("inblock"); break; }
      case 9: gen = lev; LOGGER.level(L); fsx_reach("level"); break;
   }
}
struct Odd { int n; }; static std::ostream& operator<<(std::ostream& o, const Odd& d) { o << '<' << std::hex << std::showbase << d.n << '>'; if (d.n == 77) throw Leave(); if (d.n == 78) o.setstate(std::ios::failbit); return o; }
enum Colour { RED = 4 };
// one operand of any type, given to a statement, to a block, and to a plain stream for comparison
template<typename St> static void operand(St&& o, unsigned kind) {
   static const std::string s = "a string"; static const char arr[8] = "array"; static const char zero[3] = {'z', 0, 'q'}; const Odd odd{255}; volatile int* none = nullptr; std::stringbuf empty, full("full");
   switch (kind) {
      case 0: o << "a" << true << false; break; case 1: o << 'c' << (signed char)'s' << (unsigned char)'u'; break; case 2: o << (short)-3 << ' ' << (unsigned short)65535 << ' ' << 4000000000u << ' ' << -5l; break;
      case 3: o << (long long)INT64_MIN << ' ' << (unsigned long long)UINT64_MAX; break; case 4: o << 1.5f << ' ' << 2.25 << ' ' << 1e300 << ' ' << 1234567.0; break; case 5: o << arr << zero; break; case 6: o << s << std::string("x\0y", 3) << std::string(); break;
      case 7: o << std::string_view("view of it", 4); break; case 8: o << odd << 17; break; case 9: o << RED << ' ' << (const void*)0; break; case 10: o << std::setw(6) << 42 << std::setfill('*') << std::setw(5) << 7 << std::left << std::setw(4) << 1 << '|'; break;
      case 11: o << std::setprecision(3) << std::fixed << 2.0 << std::scientific << 2.0 << std::uppercase << std::hex << 254 << std::showpos << std::dec << 3; break; case 12: o << std::oct << 8 << std::noboolalpha << std::boolalpha << true << std::internal; break; case 13: o << "before" << &empty << "after"; break;
      case 14: o << &full << "after"; break; case 15: o << Odd{78} << "lost"; break; case 16: o << "before" << Odd{77} << "never"; break; case 17: o << std::error_code() << std::showbase << std::setbase(16) << 10; break; case 18: o << (bool)none << std::this_thread::get_id() << std::boolalpha; break; case 19: o << ""; break; case 20: o << "line\n" << '\n' << "tab\t" << '\0' << "end"; break;
      default: o << std::skipws << std::unitbuf << "u" << std::setiosflags(std::ios::hex | std::ios::showbase) << 31; break;
   }
}
extern "C" void fsx_main() {
   auto p = std::make_shared<Plain>(); auto gate = std::make_shared<Rec>(); gate->category("none"); LOGGER.defaultListener()->enable(false); LOGGER.addListener(p); LOGGER.addListener(gate);
   fsx_check(LOGGER.level() == LEVEL::TRACE && LOGGER.getCategory() == "", "initial state"); const std::string here = __FILE__;
   auto matches = [&](const LogSystem::Message& m, const Want& w) { fsx_check(m.m_message == w.text, "exactly what was streamed into it"); fsx_check(m.m_category == w.cat, "the message's category"); fsx_check(m.m_level == (LEVEL)w.lev, "the statement's level"); fsx_check(m.m_file == here && m.m_line == w.line, "the statement's source position"); };
   if (P_mode == 0) {
      std::vector<Want> w; std::string cat; unsigned gen = 5, n = fsx_choose("n", P_ops + 1); int num = (int)(fsx_below("num", 3)); unsigned char ch = fsx_u8("ch");
      static const unsigned levels[] = {3, 5, 0, 2, 1, 4}, nums[] = {7, 12, 42}; num = (int)nums[fsx_conc(num)];
      for (unsigned i = 0; i < n; ++i) { unsigned op = fsx_choose("op", P_ops > 2 && n > 2 ? 10 : 12); play(w, cat, gen, op, op == 3 ? 0 : levels[fsx_choose("level", P_levels)], num, ch); }
      LOG(falcon::LLCRIT) << "last"; if (P_minlog >= 0) w.push_back({__LINE__, 0, cat, "last"});
      endMark(LOGGER); gate->wait(); LOGGER.stop();
      fsx_check(p->got.size() == w.size(), "one message for each statement within the level, none otherwise"); for (size_t k = 0; k < w.size(); ++k) matches(p->got[k], w[k]);
      fsx_observe("n", w.size()); fsx_reach("end");
   } else if (P_mode == 4) {                             // operands of any type, and what follows them
      std::vector<Want> w; unsigned k = fsx_choose("operand", 22), how = fsx_choose("how", 3), then = fsx_choose("then", 2); LEVEL L = fsx_choose("off", 2) ? LEVEL::TRACE : LEVEL::INFO; LOGGER.level(LEVEL::DEBUG); std::ostringstream ref; bool threw = false, rthrew = false; int line = 0;
      try { operand(ref, k); } catch (Leave&) { rthrew = true; }
      try { if (how == 0) { line = __LINE__; operand(LOG(L), k); } else if (how == 1) { line = __LINE__; LOG_BLOCK(L) { operand(LOGGER, k); } } else { line = __LINE__; LOG_BLOCK(L) { operand(LOGGER, k); break; } } } catch (Leave&) { threw = true; }
      bool logged = L == LEVEL::INFO; fsx_check(threw == (rthrew && logged), "what an operand throws reaches the caller"); if (logged) w.push_back({line, 3, "", ref.str()});
      unsigned k2 = then ? 4 : 2; std::ostringstream ref2; operand(ref2, k2); if (then) { line = __LINE__; operand(LOG_ERR, k2); } else { LOG_BLOCK_ERR { operand(LOGGER, k2); } line = __LINE__; } w.push_back({line, 1, "", ref2.str()}); LOG_INFO << 10 << ' ' << true << 0.5; w.push_back({__LINE__, 3, "", "10 10.5"});
      endMark(LOGGER); gate->wait(); LOGGER.stop(); fsx_check(p->got.size() == w.size(), "one message for each statement"); for (size_t i = 0; i < w.size(); ++i) matches(p->got[i], w[i]);
      fsx_observe("n", w[0].text.size()); fsx_reach("types");
   } else if (P_mode == 3) {                             // long texts, and many pieces
      static const unsigned sizes[] = {15, 16, 63, 64, 127, 128, 255, 256, 511, 513, 1023, 1024, 1025, 4096, 8193, 65536}; std::vector<Want> w; unsigned n = sizes[fsx_choose("size", 16)]; std::string t = fsx_text("t", n), all, cat; bool named = fsx_choose("named", 2); if (named) { cat = fsx_text("c", n); LOG_CATEGORY(cat); }
      LOG_INFO << t; w.push_back({__LINE__, 3, cat, t}); LOG_BLOCK(falcon::LLERR) { for (unsigned i = 0; i < 300; ++i) { LOGGER << i << ','; all += std::to_string(i) + ","; } } w.push_back({__LINE__, 1, cat, all}); LOG_WARN << "short"; w.push_back({__LINE__, 2, cat, "short"});
      LOG_INFO << LOG_CAT(t) << t << t; w.push_back({__LINE__, 3, t, t + t}); LOG_INFO << "last"; w.push_back({__LINE__, 3, cat, "last"});
      endMark(LOGGER); gate->wait(); LOGGER.stop(); fsx_check(p->got.size() == w.size(), "one message for each statement"); for (size_t k = 0; k < w.size(); ++k) matches(p->got[k], w[k]);
      fsx_observe("n", n); fsx_reach("long");
   } else if (P_mode == 2) {                             // the general level changes while a block is begun
      int ran = 0, runs = 0; unsigned kind = fsx_choose("kind", 3); LEVEL low = fsx_choose("from", 2) ? LEVEL::ERROR : LEVEL::TRACE; LOGGER.level(low); bool again = fsx_choose("again", 2);
      std::thread b([&] { LOGGER.level(low == LEVEL::ERROR ? LEVEL::TRACE : LEVEL::ERROR); LOGGER.level(low); if (again) LOGGER.level(LEVEL::ERROR); });
      if (kind == 0) { LOG_BLOCK(falcon::LLINFO) { ++ran; LOGGER << "text"; } } else if (kind == 1) { LOG(falcon::LLINFO) << "text"; ran = 1; } else { try { LOG_BLOCK(falcon::LLINFO) { ++ran; LOGGER << "text"; throw Leave(); } } catch (Leave&) {} }
      b.join(); LOGGER.level(LEVEL::TRACE); endMark(LOGGER); gate->wait(); LOGGER.stop();
      fsx_check(ran <= 1 && p->got.size() <= (size_t)ran, "what was not run sends nothing"); for (auto& m : p->got) fsx_check(m.m_message == "text" && m.m_level == LEVEL::INFO, "exactly what was streamed into it"); (void)runs; fsx_observe("got", p->got.size()); fsx_reach("toggle");
   } else {
      std::vector<Want> w[2]; std::string cat[2]; unsigned gen[2] = {5, 5}, op[2][P_ops]; unsigned char ch[2]; for (int t = 0; t < 2; ++t) { ch[t] = fsx_u8("ch"); for (int k = 0; k < P_ops; ++k) op[t][k] = fsx_choose("op", 9); }
      LOG_CATEGORY("main"); cat[0] = "main";
      std::thread b([&] { fsx_check(LOGGER.getCategory() == "", "a new thread has no category"); LOG_CATEGORY("other"); cat[1] = "other"; for (int k = 0; k < P_ops; ++k) play(w[1], cat[1], gen[1], op[1][k], 3, 41, ch[1]); LOG_INFO << "second"; w[1].push_back({__LINE__, 3, cat[1], "second"}); });
      for (int k = 0; k < P_ops; ++k) play(w[0], cat[0], gen[0], op[0][k], 5, 1, ch[0]); LOG_DBG << "first"; w[0].push_back({__LINE__, 4, cat[0], "first"});
      b.join(); endMark(LOGGER); gate->wait(); LOGGER.stop();
      // each thread's messages arrive in its own order; tell them apart by level where they are the thread's own
      size_t at[2] = {0, 0}; fsx_check(p->got.size() == w[0].size() + w[1].size(), "no message more or less");
      for (auto& m : p->got) { int t = -1; for (int c = 0; c < 2 && t < 0; ++c) if (at[c] < w[c].size() && m.m_line == w[c][at[c]].line && m.m_level == (LEVEL)w[c][at[c]].lev && m.m_category == w[c][at[c]].cat && m.m_message == w[c][at[c]].text && m.m_file == here) t = c; fsx_check(t >= 0, "each message is one thread's next, unmixed"); ++at[t]; }
      fsx_reach("threads");
   }
}
