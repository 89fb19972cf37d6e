#include "fsx.h"
#include <falcon/singleton.h>
#include <thread>
#include <utility>
#include <functional>
using namespace falcon;
static int built, destroyed;
struct Thing { int v, w; Thing() : v(5), w(6) { ++built; } ~Thing() { ++destroyed; } Thing(const Thing& o) : v(o.v), w(o.w) { ++built; } int get() const { return v; } };
struct Other { int v = 1; };
using S = Singleton<Thing>;
static const Thing* addr(const Thing& t) { return &t; }   // (of a copy, if an accessor should hand out one)
static const Thing* reach(S& s, unsigned how) {
   const S& c = s;
   switch (how) { case 0: return s.get(); case 1: return c.operator->(); case 2: return addr(*c); case 3: return s.mtbl.operator->(); case 4: return addr(*s.mtbl); default: return addr(*s); }
}
extern "C" void fsx_main() {
   int val = fsx_int("val"), val2 = fsx_int("val2");
   unsigned h0 = fsx_choose("h0", 6), h1 = fsx_choose("h1", 6), hm = fsx_choose("hm", P_threads ? 2 : 6);
   S a, b; Singleton<Other> o;
   fsx_check(built == 0, "nothing is constructed before the first use");
   const Thing *p0 = nullptr, *p1 = nullptr, *p2;
#if P_threads
   std::thread t([&] { p0 = reach(a, h0); fsx_check(p0->v == 5 && built == 1, "the instance is complete when first seen"); }), u([&] { p1 = reach(b, h1); fsx_check(p1->w == 6 && built == 1, "the instance is complete when first seen"); });
   p2 = reach(a, hm); fsx_check(p2->v == 5 && p2->w == 6, "the instance is complete when first seen");
   t.join(); u.join();
#else
   p0 = reach(a, h0); fsx_check(built == 1, "constructed on first use"); p1 = reach(b, h1); p2 = reach(a, hm);
#endif
   fsx_check(p0 == p1 && p1 == p2, "every accessor of every holder reaches the same instance"); fsx_check(built == 1, "constructed exactly once"); fsx_check(destroyed == 0, "alive");
   switch (fsx_choose("write", 4)) { case 0: a.get()->v = val; break; case 1: a.mtbl->v = val; break; case 2: (*b.mtbl).v = val; break; case 3: b.mtbl->v = val; break; }
   { S c; fsx_check(reach(c, h0)->v == val && reach(b, h1)->v == val && reach(a, hm)->get() == val, "a write is seen through every other accessor"); c.mtbl->w = val2; }
   fsx_check(a->w == val2 && destroyed == 0, "the instance outlives its holders");
   fsx_check((const void*)o.get() != (const void*)p0 && o->v == 1, "another type has its own instance");
   fsx_reach("end");
}
