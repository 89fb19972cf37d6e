#include "log.h"
#include <thread>
struct Plain : LogSystem::Listener { int n = 0; void onMessage(const LogSystem::Message&) override { ++n; } };
static const unsigned T = LogSystem::MESSAGE_POOL_THRESHOLD;
extern "C" void fsx_main() {
   if (P_mode == 0) {                                    // bursts while stopped, listeners added, disabled and detached in between
      static const unsigned bursts[] = {1, T, T + 1, 0, T - 1, T - 2, 2 * T + 3}; LogSystem s(false); auto gate = std::make_shared<Rec>(); s.addListener(gate);
      size_t pool = T, created = 0, discarded = 0, received = 0, maxq = 0, queued = 0, pending = 1, active = 0, enabled = 1; std::vector<std::shared_ptr<Plain>> ls; int ends = 0; LogSystem::Diags d;
      auto take = [&] { if (pool) --pool; else ++created; ++queued; if (queued > maxq) maxq = queued; };
      auto match = [&](const char*) { s.getDiags(d); fsx_check(d.m_poolSize == pool, "pool size"); fsx_check(d.m_poolSize <= T, "the pool never exceeds its threshold"); fsx_check(d.m_maxMsgQueueSize == maxq, "largest queue length"); fsx_check(d.m_msgReceived == received, "messages processed"); fsx_check(d.m_msgsCreated == created, "records created beyond the pool"); fsx_check(d.m_msgsDiscarded == discarded, "records discarded beyond the pool"); fsx_check(d.m_pendingListeners == pending, "pending listeners"); fsx_check(d.m_activeListeners == active, "active listeners"); };
      auto enabledNow = [&] () { size_t e = active ? 1 : 0; for (auto& l : ls) if (l->isEnabled()) ++e; return e; };
      match("new"); fsx_check(d.m_enabledListeners == 0, "no enabled listener yet");
      for (int r = 0; r < P_rounds; ++r) {
         unsigned add = fsx_choose("add", 3), b = bursts[fsx_choose("burst", P_nb)]; for (unsigned k = 0; k < add; ++k) { auto l = std::make_shared<Plain>(); if (fsx_choose("disabled", 2)) l->enable(false); s.addListener(l); ls.push_back(l); ++pending; }
         match("added");
         for (unsigned k = 0; k < b; ++k) { if (k == 0 && r == 1 && fsx_choose("own", 2)) { s.log(new LogSystem::Message("f", 1, LEVEL::INFO, "", "own")); ++queued; if (queued > maxq) maxq = queued; fsx_reach("own"); } else { s.log("f", (int)k, (LEVEL)(k % 6), "", "m"); take(); } }
         bool quiet = r == 0 && fsx_choose("quiet", 2); if (quiet) { s.level(LEVEL::ERROR); s.log("f", 0, LEVEL::WARN, "", "ignored"); }          // (the level stays low while what was accepted before is handled)
         match("logged"); unsigned det = ls.size() ? fsx_choose("detach", 2) : 0; if (det) { ls.back()->detach(); ls.pop_back(); fsx_reach("detach"); }
         endMark(s); take(); s.start(); gate->wait(++ends); s.stop(); s.level(LEVEL::TRACE);
         while (queued) { --queued; ++received; if (pool < T) ++pool; else ++discarded; }
         active += pending; pending = 0; active -= det; match("idle"); fsx_check(d.m_enabledListeners == enabledNow(), "enabled listeners"); if (discarded) fsx_reach("discarded");
         if (r + 1 == P_rounds && ls.size() && fsx_choose("toggle", 2)) { ls[0]->enable(!ls[0]->isEnabled()); match("toggled"); fsx_check(d.m_enabledListeners == enabledNow(), "enabled listeners follow at once"); fsx_reach("toggle"); }
      }
      fsx_observe("received", received);
   } else if (P_mode == 2) {                              // floods and crowds
      static const unsigned ns[] = {127, 129, 255, 257, 1000, 2049, 32769, 65537}; unsigned n = ns[fsx_choose("messages", P_rounds)]; static const unsigned crowds[] = {0, 31, 64, 257, 1025}; unsigned c = n > 300 ? 0 : crowds[fsx_choose("listeners", n > 129 ? 3 : P_nb)];
      LogSystem s(false); auto gate = std::make_shared<Rec>(); s.addListener(gate); std::vector<std::shared_ptr<Plain>> ls; for (unsigned k = 0; k < c; ++k) { auto l = std::make_shared<Plain>(); if (k % 3 == 1) l->enable(false); s.addListener(l); ls.push_back(l); } LogSystem::Diags d;
      s.getDiags(d); fsx_check(d.m_pendingListeners == c + 1 && d.m_activeListeners == 0, "pending listeners"); for (unsigned k = 1; k < n; ++k) s.log("f", (int)k, LEVEL::INFO, "", "m"); endMark(s); s.getDiags(d); fsx_check(d.m_maxMsgQueueSize == n && d.m_msgsCreated == (n > T ? n - T : 0) && d.m_poolSize == (n > T ? 0 : T - n) && d.m_msgReceived == 0, "a long queue");
      s.start(); gate->wait(); s.stop(); s.getDiags(d); fsx_check(d.m_msgReceived == n, "all processed"); fsx_check(d.m_maxMsgQueueSize == n, "largest queue length"); fsx_check(d.m_poolSize == T && d.m_msgsDiscarded == (n > T ? n - T : 0), "records kept and discarded"); fsx_check(d.m_pendingListeners == 0 && d.m_activeListeners == c + 1 && d.m_enabledListeners == c + 1 - (c + 1) / 3, "listeners");
      for (unsigned k = 0; k < c; ++k) { fsx_check(ls[k]->n == (k % 3 == 1 ? 0 : (int)n), "each enabled listener had them all"); if (k % 2) ls[k]->detach(); } endMark(s); s.start(); gate->wait(2); s.stop(); s.getDiags(d); fsx_check(d.m_activeListeners == 1 + (c + 1) / 2 && d.m_msgReceived == n + 1, "detached listeners are gone"); fsx_reach("flood");
   } else if (P_mode == 3) {                              // messages that nobody listens to
      struct Leaver : LogSystem::Listener { std::mutex& m; std::condition_variable& c; bool& gone; Leaver(std::mutex& m_, std::condition_variable& c_, bool& g) : m(m_), c(c_), gone(g) {} void onMessage(const LogSystem::Message&) override { detach(); } ~Leaver() { std::lock_guard<std::mutex> g(m); gone = true; c.notify_all(); } };
      std::mutex m; std::condition_variable c; bool gone = false; LogSystem s(false); LogSystem::Diags d; unsigned before = 1 + fsx_choose("before", 3), after = fsx_choose("after", 3); s.addListener(std::make_shared<Leaver>(m, c, gone)); for (unsigned k = 0; k < before; ++k) s.log("f", (int)k, LEVEL::INFO, "", "m");
      s.getDiags(d); fsx_check(d.m_msgReceived == 0 && d.m_maxMsgQueueSize == before && d.m_poolSize == T - before, "nothing is processed before the start"); s.start(); { std::unique_lock<std::mutex> g(m); c.wait(g, [&] { return gone; }); } s.getDiags(d); fsx_check(d.m_activeListeners == 0 && d.m_enabledListeners == 0 && d.m_pendingListeners == 0, "the only listener is gone"); fsx_check(d.m_msgReceived >= 1 && d.m_msgReceived <= before, "messages processed");
      for (unsigned k = 0; k < after; ++k) s.log("f", (int)k, LEVEL::INFO, "", "m"); auto gate = std::make_shared<Rec>(); s.addListener(gate); endMark(s); gate->wait(); s.stop(); s.getDiags(d); fsx_check(d.m_msgReceived == before + after + 1, "messages are counted as processed also when there is nobody to receive them"); fsx_check(d.m_poolSize == T && d.m_msgsCreated == 0 && d.m_msgsDiscarded == 0 && d.m_activeListeners == 1, "exact once idle"); fsx_reach("unheard");
   } else {                                              // diagnostics read while messages flow
      unsigned late = fsx_choose("late", 2);
      LogSystem s; auto gate = std::make_shared<Rec>(); s.addListener(gate); auto l = std::make_shared<Plain>(); if (!late) s.addListener(l);
      std::thread b([&] { s.log("f", 1, LEVEL::INFO, "", "m"); if (late) s.addListener(l); l->enable(false); l->detach(); endMark(s); });
      LogSystem::Diags d; size_t last = 0;
      for (int k = 0; k < P_reads; ++k) { s.getDiags(d); fsx_check(d.m_msgReceived >= last && d.m_msgReceived <= 2, "processed messages only grow"); last = d.m_msgReceived; fsx_check(d.m_poolSize <= T && d.m_poolSize >= T - 2, "pool within its threshold"); fsx_check(d.m_maxMsgQueueSize <= 2, "queue length"); fsx_check(d.m_pendingListeners + d.m_activeListeners <= 2 && d.m_pendingListeners + d.m_activeListeners >= 1, "listeners"); fsx_check(d.m_enabledListeners <= d.m_activeListeners, "enabled listeners"); fsx_check(d.m_msgsCreated == 0 && d.m_msgsDiscarded == 0, "no record beyond the pool"); }
      b.join(); gate->wait(); s.stop(); s.getDiags(d); fsx_check(d.m_msgReceived == 2 && d.m_poolSize == T && d.m_activeListeners == 1 && d.m_enabledListeners == 1 && d.m_pendingListeners == 0 && d.m_maxMsgQueueSize >= 1 && d.m_maxMsgQueueSize <= 2, "exact once idle");
      fsx_reach("threads");
   }
   fsx_reach("end");
}
