#include "log.h"
#include <thread>
#include <memory>
struct Plain : LogSystem::Listener { std::vector<int> got; std::vector<std::thread::id> by; bool busy = false; int* gone = nullptr; ~Plain() { if (gone) ++*gone; } void onMessage(const LogSystem::Message& m) override { fsx_check(!busy, "one delivery at a time"); busy = true; if (m.m_message != "#END") { got.push_back(m.m_line); by.push_back(std::this_thread::get_id()); } busy = false; } };
extern "C" void fsx_main() {
   long base = fsx_live(); int gone = 0;
   if (P_mode == 0) {                                    // any sequence of starts, stops and messages by one thread
      {
         bool running = fsx_choose("startNow", 2), fresh = true; auto s = std::make_unique<LogSystem>(running); auto p = std::make_shared<Plain>(); auto gate = std::make_shared<Rec>(); p->gone = &gone;
         s->addListener(p); s->addListener(gate); int logged = 0, ends = 0; size_t from = 0; unsigned n = fsx_choose("n", P_ops + 1);
         for (unsigned i = 0; i < n; ++i) switch (fsx_choose("op", 4)) {
            case 0: if (!running) from = p->got.size(); s->start(); running = true; fsx_reach("start"); break;
            case 1: { s->stop(); fsx_check(!p->busy, "no delivery in progress after stop"); running = false; size_t c = p->got.size(); for (size_t k = from; k + 1 < c; ++k) fsx_check(p->by[k] == p->by[k + 1], "one delivery thread"); from = c; fsx_reach("stop"); break; }
            case 2: s->log("f", logged++, LEVEL::INFO, "", "a message"); if (!running) fsx_check(p->got.size() <= (size_t)logged - 1, "nothing is delivered while stopped"); fresh = false; break;
            case 3: if (running) { endMark(*s); gate->wait(++ends); fsx_check((int)p->got.size() == logged, "pending messages are delivered once started"); fsx_reach("caughtup"); } break;
         }
         if (fsx_choose("drain", 2)) { if (!running) from = p->got.size(); s->start(); endMark(*s); gate->wait(++ends); s->stop(); fsx_check((int)p->got.size() == logged, "everything pending is delivered after a restart"); for (size_t k = from; k + 1 < p->got.size(); ++k) fsx_check(p->by[k] == p->by[k + 1], "one delivery thread at the end"); fsx_reach("drained"); }
         gate.reset(); LogSystem* raw = s.release(); delete raw;
         fsx_check((int)p->got.size() <= logged, "each message at most once"); for (size_t k = 0; k < p->got.size(); ++k) fsx_check(p->got[k] == (int)k, "in order, none skipped");
         fsx_check(p.use_count() == 1, "destruction releases the listeners");
      }
      fsx_check(gone == 1, "the listener is released once");
   } else if (P_mode == 2) {                             // destruction with many pending messages, before or after deliveries
      {
         LogSystem s(false); auto p = std::make_shared<Plain>(), q = std::make_shared<Plain>(); auto gate = std::make_shared<Rec>(); p->gone = &gone; s.addListener(p); s.addListener(gate); static const int sizes[] = {0, 1, 63, 64, 65, 70, 130}; int before = sizes[fsx_choose("before", P_ops)], after = sizes[fsx_choose("after", P_ops)];
         for (int i = 0; i < before; ++i) s.log("f", i, LEVEL::INFO, "", "a message"); if (fsx_choose("deliver", 2)) { s.start(); endMark(s); gate->wait(); s.stop(); fsx_check((int)p->got.size() == before, "everything pending is delivered"); fsx_reach("delivered"); }
         if (fsx_choose("second", 2)) s.addListener(q); for (int i = 0; i < after; ++i) s.log("f", before + i, LEVEL::INFO, "", "a message"); if (fsx_choose("detach", 2)) p->detach();
      }
      fsx_check(gone == 1, "the listener is released once"); fsx_reach("volume");
   } else {                                              // starts, stops and messages from two threads
      {
         auto p = std::make_shared<Plain>(); auto gate = std::make_shared<Rec>(); p->gone = &gone; unsigned o[2][P_ops]; for (int t = 0; t < 2; ++t) for (int k = 0; k < P_ops; ++k) o[t][k] = fsx_choose("op", 3); bool now = fsx_choose("startNow", 2);
         LogSystem s(now); s.addListener(p); s.addListener(gate); s.log("f", 0, LEVEL::INFO, "", "a message");
         auto act = [&](int t) { for (int k = 0; k < P_ops; ++k) switch (o[t][k]) { case 0: s.start(); break; case 1: s.stop(); break; case 2: s.log("f", 0, LEVEL::INFO, "", "a message"); break; } };
         std::thread b([&] { act(1); }); act(0); b.join(); int logged = 1; for (int t = 0; t < 2; ++t) for (int k = 0; k < P_ops; ++k) logged += o[t][k] == 2;
         s.stop(); size_t c = p->got.size(); fsx_check(c <= (size_t)logged, "each message at most once"); s.log("f", 0, LEVEL::INFO, "", "a message"); fsx_check(p->got.size() == c, "no delivery after stop");
         s.start(); endMark(s); gate->wait(); s.stop(); fsx_check(p->got.size() == (size_t)logged + 1, "all pending messages are delivered after a restart, once"); for (size_t k = c; k + 1 < p->got.size(); ++k) fsx_check(p->by[k] == p->by[k + 1], "one delivery thread");
      }
      fsx_check(gone == 1, "the listener is released once");
   }
   fsx_check(fsx_live() == base, "destruction releases every message, thread and listener");
   fsx_reach("end");
}
