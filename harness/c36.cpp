#include "log.h"
#include <thread>
// listeners that use the service while they handle a message
struct Plain : LogSystem::Listener { std::vector<int> got; int* gone; std::string only; Plain(int* g) : gone(g) {} ~Plain() { ++*gone; } void onMessage(const LogSystem::Message& m) override { if (m.m_line >= 0) got.push_back(m.m_line); } };
static int goneN[4]; static LogSystem* sys; static std::weak_ptr<Plain> target; static std::shared_ptr<Plain> extra; static LogSystem::Diags dg;
struct Busy : Plain {
   unsigned what; bool fromDtor; Busy(unsigned w, bool d) : Plain(&goneN[0]), what(w), fromDtor(d) {}
   void act() {
      switch (what) {
         case 0: sys->log("f", 50, LEVEL::INFO, "", "own"); sys->log("f", 51, LEVEL::INFO, "x", "own too"); break;
         case 1: sys->addListener(extra); break;
         case 2: if (auto t = target.lock()) t->detach(); break;
         case 3: if (auto t = target.lock()) t->enable(false); break;
         case 4: if (auto t = target.lock()) t->category("x"); break;
         case 5: if (auto t = target.lock()) t->level(LEVEL::ERROR); break;
         case 6: sys->level(LEVEL::ERROR); break;
         case 7: sys->getDiags(dg); break;
      }
   }
   void onMessage(const LogSystem::Message& m) override { Plain::onMessage(m); if (m.m_line == 1) { if (fromDtor) detach(); else act(); } }
   ~Busy() { if (fromDtor) act(); }
};
// two listeners acting on the same or different messages, in every combination of actions and targets, against a reference of the service
struct Two;
struct Model { bool det = false, en = true; std::string flt; unsigned lev = 5; std::vector<int> want; int act = -1; unsigned target = 0; int on = 0; bool in = true; bool pass(int, unsigned l, const std::string& c) const { return !det && en && l <= lev && (c.empty() || flt.empty() || c == flt); } };
static std::weak_ptr<Plain> who[4]; static LogSystem::Diags dgs[2];
struct Two : Plain {
   unsigned what, tgt, idx; int on; Two(unsigned w, unsigned t, unsigned i, int o) : Plain(&goneN[i]), what(w), tgt(t), idx(i), on(o) {}
   void onMessage(const LogSystem::Message& m) override {
      Plain::onMessage(m); if (m.m_line != on) return; auto t = who[tgt].lock();
      switch (what) { case 0: sys->log("f", 50 + (int)idx, LEVEL::INFO, "x", "own"); break; case 1: if (extra) { sys->addListener(extra); } break; case 2: if (t) t->detach(); break; case 3: if (t) t->enable(false); break; case 4: if (t) t->category("x"); break; case 5: if (t) t->level(LEVEL::ERROR); break; case 6: sys->level(LEVEL::ERROR); break; case 7: sys->getDiags(dgs[idx]); break; case 8: if (t) t->enable(true); break; }
   }
};
static void pairs() {
   long base = fsx_live();
   {
      unsigned w0 = fsx_choose("what0", 9), w1 = fsx_choose("what1", 9); auto aims = [](unsigned w) { return (w >= 2 && w <= 5) || w == 8; }; unsigned t0 = aims(w0) ? fsx_choose("target0", 3) : 0, t1 = aims(w1) ? fsx_choose("target1", 3) : 0; int o1 = 1 + (int)fsx_choose("on1", 2); unsigned place = fsx_choose("place", 3); if (w0 == 1 && w1 == 1) return;
      LogSystem s(false); sys = &s; auto a = std::make_shared<Two>(w0, t0, 0, 1), b = std::make_shared<Two>(w1, t1, 1, o1); auto p = std::make_shared<Plain>(&goneN[2]); extra = std::make_shared<Plain>(&goneN[3]); auto gate = std::make_shared<Rec>(); gate->category("gate"); int ends = 0;
      std::shared_ptr<Plain> l[4] = {a, b, p, extra}; for (unsigned i = 0; i < 4; ++i) who[i] = l[i]; Model m[4]; m[0].act = (int)w0; m[0].target = t0; m[0].on = 1; m[1].act = (int)w1; m[1].target = t1; m[1].on = o1; m[3].in = false;
      std::vector<unsigned> order = {0, 1, 2}; if (place == 1) order = {2, 1, 0}; else if (place == 2) order = {0, 2, 1}; for (unsigned i : order) s.addListener(l[i]); s.addListener(gate);
      auto end = [&] { s.log("e", -1, LEVEL::CRITICAL, "gate", "#END"); gate->wait(++ends); };
      s.start(); s.log("f", 1, LEVEL::INFO, "", "m"); end(); end(); s.log("f", 2, LEVEL::INFO, "y", "m"); end(); end(); s.log("f", 3, LEVEL::CRITICAL, "x", "m"); s.log("f", 4, LEVEL::CRITICAL, "", "m"); s.log("f", 5, LEVEL::WARN, "y", "m"); end(); end(); s.stop();
      // the reference; a message is accepted when it is logged
      unsigned sysLev = 5, nActive[2] = {0, 0}, nEn[2] = {0, 0}, nPend[2] = {0, 0}; std::vector<unsigned> pend; bool asked[2] = {false, false};
      auto handle = [&](auto& self, int line, unsigned lev, const std::string& cat) -> void {
         if (lev > sysLev) return;
         struct Q { int line; std::string cat; }; std::vector<Q> own; for (unsigned i : pend) order.push_back(i); pend.clear();
         for (size_t k = 0; k < order.size(); ++k) { Model& x = m[order[k]]; if (!x.pass(line, lev, cat)) continue; x.want.push_back(line);
            if (x.act >= 0 && x.on == line) { unsigned me = order[k]; Model& t = m[x.target]; switch (x.act) { case 0: if (sysLev >= 3) own.push_back({50 + (int)me, "x"}); break; case 1: pend.push_back(3); break; case 2: t.det = true; break; case 3: t.en = false; break; case 4: t.flt = "x"; break; case 5: t.lev = 1; break; case 6: sysLev = 1; break; case 7: asked[me] = true; nActive[me] = order.size() + 1; nEn[me] = 1; for (unsigned i : order) nEn[me] += m[i].en; nPend[me] = pend.size(); break; case 8: t.en = true; break; } } }
         std::vector<unsigned> left; for (unsigned i : order) if (!m[i].det) left.push_back(i); order = left;
         unsigned keep = sysLev; sysLev = 5; for (auto& q : own) self(self, q.line, 3, q.cat); if (sysLev == 5) sysLev = keep;
      };
      handle(handle, 1, 3, ""); for (unsigned i : pend) order.push_back(i); pend.clear(); handle(handle, 2, 3, "y"); for (unsigned i : pend) order.push_back(i); pend.clear(); handle(handle, 3, 0, "x"); handle(handle, 4, 0, ""); handle(handle, 5, 2, "y");
      static const char* const names[] = {"the first acting listener receives exactly what it should", "so does the second", "and the passive one", "and the one they may add"};
      for (unsigned i = 0; i < 4; ++i) { fsx_check(l[i]->got == m[i].want, names[i]); bool dropped = m[i].det || (i == 3 && w0 != 1 && w1 != 1); (void)dropped; }
      for (unsigned i = 0; i < 2; ++i) if (asked[i]) fsx_check(dgs[i].m_activeListeners == nActive[i] && dgs[i].m_enabledListeners == nEn[i] && dgs[i].m_pendingListeners == nPend[i], "diagnostics read while handling a message");
      a.reset(); b.reset(); p.reset(); extra.reset(); bool added = false; for (unsigned i : order) added |= i == 3; for (unsigned i = 0; i < 4; ++i) { bool kept = i == 3 ? added : !m[i].det; l[i].reset(); fsx_check(goneN[i] == (kept ? 0 : 1), "detached listeners are released, the others kept"); }
      fsx_check(s.level() == (LEVEL)sysLev, "the system's level"); fsx_observe("n", m[0].want.size() * 100 + m[2].want.size());
   }
   for (int g : goneN) fsx_check(g == 1, "each listener is released once"); for (auto& x : who) x.reset(); fsx_check(fsx_live() == base, "everything is released"); fsx_reach("pairs");
}
extern "C" void fsx_main() {
   if (P_mode) { pairs(); return; }
   long base = fsx_live();
   {
      unsigned what = fsx_choose("what", 9); bool self = fsx_choose("self", 2), first = fsx_choose("first", 2), pend = fsx_choose("pending", 2), dtor = what < 8 && !self && fsx_choose("dtor", 2);
      LogSystem s(false); sys = &s; auto b = std::make_shared<Busy>(what, dtor); auto p = std::make_shared<Plain>(&goneN[1]); extra = std::make_shared<Plain>(&goneN[2]); auto gate = std::make_shared<Rec>(); gate->category("gate"); int ends = 0;
      if (self) target = b; else target = p;
      if (first) { s.addListener(b); s.addListener(p); } else { s.addListener(p); s.addListener(b); } s.addListener(gate); bool bDropped = dtor || (what == 2 && self); std::weak_ptr<Busy> wb = b; auto* rb = b.get(); if (dtor) b.reset();
      auto end = [&] { s.log("e", -1, LEVEL::CRITICAL, "gate", "#END"); gate->wait(++ends); };
      if (!pend) s.start();
      s.log("f", 0, LEVEL::INFO, "", "m"); s.log("f", 1, LEVEL::INFO, "", "m"); if (pend) { s.log("f", 2, LEVEL::INFO, "y", "m"); s.start(); }
      end(); s.log("f", 3, LEVEL::INFO, "y", "m"); s.log("f", 4, LEVEL::INFO, "", "m"); s.log("f", 5, LEVEL::CRITICAL, "x", "m"); end(); s.stop(); fsx_check(s.level() == (what == 6 ? LEVEL::ERROR : LEVEL::TRACE), "level");
      // the reference: who gets what, message by message (0, 1, [2], own ones, 3, 4, 5)
      struct Sent { int line; unsigned lev; const char* cat; bool onAct; }; std::vector<Sent> q; bool own = what == 0;
      q.push_back({0, 3, "", false}); q.push_back({1, 3, "", false}); if (pend) q.push_back({2, 3, "y", false}); if (own) { q.push_back({50, 3, "", true}); q.push_back({51, 3, "x", true}); } q.push_back({3, 3, "y", false}); q.push_back({4, 3, "", false}); q.push_back({5, 0, "x", false});
      std::vector<int> wantB, wantP, wantX; bool acted = false, bOn = true, pOn = true, xOn = false;
      auto passes = [&](const Sent& m, bool mine) { if (!acted || mine != self) return true; switch (what) { case 2: case 3: return false; case 4: return !*m.cat || std::string(m.cat) == "x"; case 5: return m.lev <= 1; default: return true; } };
      for (auto& m : q) {
         if (what == 6 && acted && m.line >= 3 && m.line < 50 && m.lev > 1) continue;                    // refused by the system's level (what was pending isn't)
         bool here = m.line == 1;
         if (first) { if (bOn && passes(m, true)) wantB.push_back(m.line); if (here && !dtor) acted = true; if (pOn && passes(m, false)) wantP.push_back(m.line); }
         else { if (pOn && passes(m, false)) wantP.push_back(m.line); if (bOn && passes(m, true)) wantB.push_back(m.line); if (here && !dtor) acted = true; }
         if (xOn) wantX.push_back(m.line);
         if (here && dtor) { acted = true; bOn = false; } if (here && what == 1) xOn = true;
      }
      fsx_check(p->got == wantP, "the other listener receives exactly what it should"); fsx_check(extra->got == wantX, "a listener added by another one receives the following messages");
      if (!dtor) fsx_check(rb->got == wantB, "the acting listener receives exactly what it should");
      if (what == 7) fsx_check(dg.m_activeListeners == (dtor ? 2 : 3) && dg.m_enabledListeners == dg.m_activeListeners && dg.m_pendingListeners == 0 && dg.m_msgReceived == 2, "diagnostics can be read while handling a message");
      if (dtor) fsx_check(goneN[0] == 1 && wb.expired(), "a listener that detached itself is released"); else { b.reset(); fsx_check(goneN[0] == (bDropped ? 1 : 0), "released when detached, kept otherwise"); }
      p.reset(); fsx_check(goneN[1] == (what == 2 && !self ? 1 : 0), "a detached listener is released"); extra.reset(); fsx_check(goneN[2] == (what == 1 ? 0 : 1), "an added listener is kept");
      fsx_observe("n", wantB.size() * 100 + wantP.size()); fsx_reach(dtor ? "dtor" : "callback"); if (own) fsx_reach("own");
   }
   fsx_check(goneN[0] == 1 && goneN[1] == 1 && goneN[2] == 1, "each listener is released once"); target.reset(); fsx_check(fsx_live() == base, "everything is released"); fsx_reach("end");
}
