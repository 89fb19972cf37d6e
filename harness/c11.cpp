#include "fsx.h"
#include <falcon/futex.h>
#include <thread>
using namespace falcon;
static void owner(RFutex& f, unsigned depth, int& inside, int me, int& counter) {
   for (unsigned i = 0; i < depth; ++i) {
      f.lock();
      if (i == 0) { fsx_check(inside == 0, "no other holder"); inside = me; }
      fsx_check(f.isOwner(), "the holder is the owner"); fsx_check(f.isLocked(), "held lock reports locked");
   }
   int c = counter;
   for (unsigned i = 0; i < depth; ++i) {
      fsx_check(inside == me, "other threads are excluded until the last release"); fsx_check(f.isOwner(), "owner until the last release");
      if (i + 1 == depth) { counter = c + 1; inside = 0; }
      f.unlock();
   }
   fsx_check(!f.isOwner(), "no longer the owner after as many releases");
}
extern "C" void fsx_main() {
   if (P_mode == 0) {                                    // one thread, arbitrary sequence; a second thread that never locks
      RFutex f; unsigned held = 0; unsigned n = fsx_choose("n", P_ops + 1);
      fsx_check(!f.isLocked(), "a new lock is free"); fsx_check(!f.isOwner(), "nobody owns a new lock");
      for (unsigned i = 0; i < n; ++i) {
         if (fsx_choose("lock", 2)) { f.lock(); ++held; } else { f.unlock(); if (held) --held; else fsx_reach("surplus"); }
         fsx_check(f.isLocked() == (held > 0), "locked exactly while held"); fsx_check(f.isOwner() == (held > 0), "owner exactly while held");
      }
      std::thread t([&] { fsx_check(!f.isOwner(), "a thread that never locked is not the owner"); fsx_check(f.isLocked() == (held > 0), "another thread sees the state"); });
      t.join();
      while (held) { f.unlock(); --held; }
      fsx_check(!f.isLocked() && !f.isOwner(), "free after as many releases");
      std::thread u([&] { f.lock(); fsx_check(f.isOwner(), "another thread takes it"); f.unlock(); });
      u.join(); fsx_check(!f.isLocked(), "and releases it"); fsx_check(!f.isOwner(), "main is not the owner");
      fsx_reach("single");
   } else if (P_mode == 2) {                             // deep recursion: around the widths a counter could have
      static const unsigned depths[] = {3, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536}; unsigned n = depths[fsx_choose("depth", P_depth)]; RFutex f; bool got = false;
      for (unsigned i = 0; i < n; ++i) f.lock(); fsx_check(f.isLocked() && f.isOwner(), "held after any number of locks");
      for (unsigned i = 0; i + 1 < n; ++i) { f.unlock(); fsx_check(f.isOwner(), "owner until the last release"); } fsx_check(f.isLocked(), "held until the last release");
      std::thread t([&] { f.lock(); got = true; f.unlock(); }); fsx_check(!got, "excluded until the last release"); f.unlock(); t.join(); fsx_check(got && !f.isLocked() && !f.isOwner(), "free after as many releases");
      fsx_observe("n", n); fsx_reach("deep");
   } else {
      RFutex f; int inside = 0, counter = 0; unsigned d0 = 1 + fsx_choose("d0", P_depth), d1 = 1 + fsx_choose("d1", P_depth); bool third = P_threads > 2;
      std::thread a([&] { owner(f, d0, inside, 1, counter); }), b([&] { owner(f, d1, inside, 2, counter); });
      if (third) { fsx_check(!f.isOwner(), "main never locked it"); owner(f, 1, inside, 3, counter); }
      a.join(); b.join();
      fsx_check(counter == (third ? 3 : 2), "no update lost"); fsx_check(!f.isLocked(), "free at the end"); fsx_check(!f.isOwner(), "no owner at the end");
      fsx_reach("threads");
   }
}
