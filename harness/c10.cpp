#include "fsx.h"
#include <falcon/futex.h>
#include <thread>
using namespace falcon;
// How a contender waits: the harness is compiled with sched_yield renamed to c10_yield.
static bool waiting = false; static int yields = 0; static Futex<P_spin>* held = nullptr;
extern "C" int c10_yield(void) noexcept {
   if (P_spin == 0) fsx_check(false, "with a spin count of zero the thread never yields");
   if (waiting && ++yields == P_yields) held->unlock();       // the holder goes on only if the contender has given way that many times
   return 0;
}
static void contended() {
   Futex<P_spin> f; held = &f; f.lock(); fsx_check(f.isLocked(), "a free lock is taken"); waiting = true;
   std::thread t([&] { f.lock(); waiting = false; fsx_check(yields == P_yields, "a contender takes the lock when it is released"); fsx_check(f.isLocked(), "the lock is taken by the contender"); f.unlock(); });
   t.join(); fsx_check(!f.isLocked(), "a released lock is free"); fsx_reach("yielded");
}
struct Shared { int inside = 0, counter = 0, last = 0; int slot[3] = {0, 0, 0}; };
template<unsigned N> static void run() {
   Futex<N> f; Shared d; int in[3] = {fsx_int("w0"), fsx_int("w1"), fsx_int("w2")};
   unsigned query = fsx_choose("query", 4);
   fsx_check(!f.isLocked(), "a new lock is free");
   if (query == 3) {                             // asking never takes the lock: nobody holds it, so everybody is told it is free
      std::thread q([&] { for (int i = 0; i < 2; ++i) fsx_check(!f.isLocked(), "a free lock is free for every thread that asks"); });
      for (int i = 0; i < 2; ++i) fsx_check(!f.isLocked(), "a free lock is free for every thread that asks"); q.join(); fsx_reach("asking"); return;
   }
   auto body = [&](int me) {
      for (int r = 0; r < P_rounds; ++r) {
         f.lock();
         fsx_check(d.inside == 0, "no other holder when the lock is taken"); d.inside = 1 + me;
         int c = d.counter; d.slot[me] = in[me];
         if (query == 1) fsx_check(f.isLocked(), "held lock reports locked");
         fsx_check(d.inside == 1 + me, "no other thread enters while the lock is held");
         d.counter = c + 1; d.last = in[me];
         d.inside = 0;
         f.unlock();
      }
   };
   std::thread a(body, 0), b(body, 1);
#if P_threads > 2
   std::thread c(body, 2);
#endif
   if (query == 2) { f.lock(); int seen = d.counter; fsx_check(seen >= 0 && seen <= P_threads * P_rounds, "writes before a release are visible"); fsx_check(f.isLocked(), "held by the main thread"); fsx_check(d.inside == 0, "main thread excluded the others"); d.counter = seen; f.unlock(); }
   a.join(); b.join();
#if P_threads > 2
   c.join();
#endif
   fsx_check(!f.isLocked(), "a released lock is free");
   fsx_check(d.counter == P_threads * P_rounds, "no update under the lock is lost");
   fsx_check(d.slot[0] == in[0] && d.slot[1] == in[1], "values written under the lock are visible");
   fsx_check(d.last == in[0] || d.last == in[1] || d.last == in[2], "last value is one that was written");
   f.lock(); fsx_check(f.isLocked(), "free lock can be taken again"); f.unlock(); fsx_check(!f.isLocked(), "and released");
   f.unlock(); fsx_check(!f.isLocked(), "releasing always frees");
   fsx_reach("end");
}
extern "C" void fsx_main() { if (P_yields) contended(); else run<P_spin>(); }
