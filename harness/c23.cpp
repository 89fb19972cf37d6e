#include "log.h"
#include <falcon/logger.h>
static bool matches(int f, int c) { static const bool ok[4][4] = {{1, 0, 1, 0}, {1, 1, 1, 1}, {0, 1, 1, 0}, {1, 1, 1, 0}}; return ok[f][c]; }
extern "C" void fsx_main() {
   static const char* const flt[] = {".*::INTERNAL", "", "Test", "Test.*"}; static const char* const cats[] = {"Test::INTERNAL", "Test", "", "x Test"};
   if (P_mode == 1) {                                    // the filter is set and cleared while messages are being delivered
      long base = fsx_live();
      {
      falcon::Logger lg; std::ostringstream ss; lg.defaultListener()->writeOn(&ss); auto gate = std::make_shared<Rec>(); gate->category("gate"); lg.addListener(gate); int ends = 0; auto sync = [&] { lg.log("e", 0, LEVEL::CRITICAL, "gate", "#END"); gate->wait(++ends); };
      unsigned gen = fsx_choose("gen", 2) ? 3 : 5, fl = fsx_choose("flevel", 2) ? 4 : 2; int c = (int)fsx_choose("cat", 2); bool rest = fsx_choose("rest", 2), again = fsx_choose("again", 2); lg.level((LEVEL)gen);
      auto seen = [&](const char* t) { std::string out = ss.str(); int k = 0; for (size_t at = out.find(t); at != std::string::npos; at = out.find(t, at + 1)) ++k; return k; };
      lg.log("f", 1, (LEVEL)2, cats[c], "<before>"); lg.categoryFilter(flt[0], (LEVEL)fl); if (again) lg.categoryFilter(flt[0], (LEVEL)fl);
      lg.log("f", 1, (LEVEL)2, cats[c], "<during>"); lg.log("f", 1, (LEVEL)4, cats[c], "<high>"); if (rest) sync(); lg.clearFilter(); fsx_check(lg.level() == (LEVEL)gen, "the general level is the one before the first filter");
      lg.log("f", 1, (LEVEL)2, cats[c], "<after>"); lg.log("f", 1, (LEVEL)4, cats[c], "<after high>"); sync(); lg.stop(); int direct = gen >= 4;
      fsx_check(seen("<before>") >= 1 && seen("<before>") <= (c == 0 ? 2 : 1), "a message logged before is delivered"); fsx_check(seen("<during>") >= 1 && seen("<during>") <= (c == 0 ? 2 : 1), "a message logged meanwhile is delivered, not more than twice");
      if (rest) { if (c == 0) fsx_check(seen("<during>") == 2 && seen("<high>") == direct + (fl >= 4), "matching messages are delivered by the filter"); else fsx_check(seen("<high>") == direct, "other messages are as before"); } else fsx_check(seen("<high>") <= 2, "one filter at a time");
      fsx_check(seen("<after>") == 1 && seen("<after high>") == direct, "once cleared, deliveries are as before the filter"); fsx_observe("high", seen("<high>")); fsx_reach(rest ? "rest" : "flying");
      }
      fsx_check(fsx_live() == base, "released"); fsx_reach("end"); return;
   }
   falcon::Logger lg; std::ostringstream ss; lg.defaultListener()->writeOn(&ss); auto gate = std::make_shared<Rec>(); gate->category("gate"); lg.addListener(gate); int ends = 0; auto sync = [&] { lg.log("e", 0, LEVEL::CRITICAL, "gate", "#END"); gate->wait(++ends); lg.stop(); lg.start(); };
   unsigned gen = fsx_choose("gen", 2) ? 3 : 5, dfl = 1 + 2 * fsx_choose("dfl", 3), base = gen, fl = 0; int f = -1; lg.level((LEVEL)gen); lg.defaultListener()->level((LEVEL)dfl);
   unsigned n = fsx_choose("n", P_ops + 1); int id = 0; bool ever = false, odd = false;
   for (unsigned i = 0; i <= n; ++i) {
      unsigned op = i < n ? fsx_choose("op", 5) : 0;
      switch (op) {
         case 0: {                                       // a message, and how often it reached the default listener
            if (odd) break;
            int c = (int)fsx_choose("cat", (int)n < P_ops ? 4 : P_cats); unsigned lev = i < n ? (fsx_choose("midlevel", 2) ? 4 : 2) : fsx_below("level", 6); std::string t = "<message " + std::to_string(id++) + ">";
            lg.log("f", 1, (LEVEL)lev, cats[c], t); sync(); std::string out = ss.str(); int seen = 0; for (size_t at = out.find(t); at != std::string::npos; at = out.find(t, at + 1)) ++seen;
            bool direct = lev <= base && lev <= dfl, extra = f >= 0 && matches(f, c) && lev <= fl;
            if (extra) { fsx_check(seen >= 1, "a matching message up to the filter's level reaches the default listener"); fsx_check(seen <= 2, "one filter at a time"); fsx_reach("extra"); if (!direct) { fsx_check(seen == 1, "delivered once by the filter"); fsx_reach("only"); } }
            else { fsx_check(seen == (direct ? 1 : 0), f < 0 ? (ever ? "deliveries are as before the filter was set" : "without filter the levels decide") : "other messages are delivered as before"); fsx_reach(direct ? "direct" : "none"); }
            break; }
         case 1: { f = (int)fsx_choose("filter", (int)n < P_ops ? 4 : P_flts); fl = fsx_choose("flevel", 2) ? 4 : 2; lg.categoryFilter(flt[f], (LEVEL)fl); ever = true; fsx_check(lg.level() >= (LEVEL)fl || odd, "the general level lets the filter's messages through"); fsx_check(odd || lg.level() == (LEVEL)(fl > base ? fl : base), "and is raised no further than needed"); sync(); fsx_reach("set"); break; }
         case 2: lg.clearFilter(); if (f >= 0 || !odd) fsx_check(lg.level() == (LEVEL)base, "the general level is the one before the first filter"); if (f >= 0) { odd = false; fsx_reach("cleared"); } else fsx_reach("clear_none"); f = -1; sync(); break;
         case 3: { unsigned l = fsx_choose("newlevel", 2) ? 1 : 4; lg.level((LEVEL)l); if (f < 0) { gen = base = l; } else odd = true; fsx_check(lg.level() == (LEVEL)l, "level set"); break; }
         case 4: { auto before = lg.level(); try { lg.categoryFilter("[", LEVEL::TRACE); fsx_check(0, "an invalid filter is refused"); } catch (const LogSystem::InvalidCategory&) {} fsx_check(lg.level() == before, "a refused filter changes nothing"); fsx_reach("refused"); break; }
      }
   }
   lg.clearFilter(); lg.clearFilter(); fsx_check(lg.level() == (LEVEL)base, "cleared at the end"); lg.stop(); fsx_reach("end");
}
