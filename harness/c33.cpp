#include "fsx.h"
#include <falcon/atomic.h>
#include <thread>
using namespace falcon;
typedef uint32_t u;
static void seq() {
   int32 x = fsx_int("x"), y = fsx_int("y"), z = fsx_int("z"); atomic_int a = x, b = 77; int32 r;
   switch (fsx_choose("op", 11)) {
   case 0: r = atomicInc(a); fsx_check((u)r == (u)x + 1 && (u)a == (u)x + 1, "increment returns the new value, with wrap-around"); break;
   case 1: r = atomicDec(a); fsx_check((u)r == (u)x - 1 && (u)a == (u)x - 1, "decrement returns the new value, with wrap-around"); break;
   case 2: r = atomicAdd(a, y); fsx_check((u)r == (u)x + (u)y && (u)a == (u)x + (u)y, "addition returns the new value, with wrap-around"); break;
   case 3: r = atomicExchange(a, y); fsx_check(r == x && a == y, "exchange stores and returns the previous value"); break;
   case 4: r = atomicXor(a, y); fsx_check(r == x && a == (x ^ y), "xor returns the previous value"); break;
   case 5: r = atomicAnd(a, y); fsx_check(r == x && a == (x & y), "and returns the previous value"); break;
   case 6: r = atomicOr(a, y); fsx_check(r == x && a == (x | y), "or returns the previous value"); break;
   case 7: { bool ok = atomicCAS(a, y, z); fsx_check(ok == (x == y), "compare-and-set succeeds exactly on equality"); fsx_check(a == (x == y ? z : x), "compare-and-set changes nothing on failure"); fsx_reach(ok ? "cas_ok" : "cas_no"); break; }
   case 8: atomicSet(a, y); fsx_check(a == y, "set stores the value"); fsx_check(atomicFetch(a) == y, "fetch returns it"); break;
   case 9: fsx_check(atomicFetch(a) == x, "fetch returns the value"); fsx_check(a == x, "fetch changes nothing"); break;
   case 10: { atomic_int c = x; atomicInc(c); atomicAdd(c, y); atomicDec(c); atomicXor(c, z); atomicXor(c, z); fsx_check((u)atomicFetch(c) == (u)x + (u)y, "operations compose"); break; }
   }
   fsx_check(b == 77, "neighbouring memory untouched"); fsx_reach("seq");
}
static void conc() {
   int32 x = fsx_int("x"), y = fsx_int("y"), z = fsx_int("z"), s = fsx_int("start"); unsigned op = fsx_choose("op", 8); atomic_int a = s; int32 r1[P_rep], r2[P_rep]; bool c1 = false, c2 = false;
   auto body = [&](int32 v, int32* r, bool& c) {
      for (int i = 0; i < P_rep; ++i) switch (op) {
      case 0: r[i] = atomicInc(a); break; case 1: r[i] = atomicDec(a); break; case 2: r[i] = atomicAdd(a, v); break; case 3: r[i] = atomicXor(a, v); break;
      case 4: r[i] = atomicOr(a, v); break; case 5: r[i] = atomicAnd(a, v); break; case 6: r[i] = atomicExchange(a, v); break;
      case 7: if (i == 0) c = atomicCAS(a, s, v); r[i] = 0; break; }
   };
   if (op == 7) fsx_assume(x != s && y != s);
   std::thread t(body, x, r1, std::ref(c1)), w(body, y, r2, std::ref(c2)); t.join(); w.join();
   u n = P_rep, f = (u)atomicFetch(a);
   switch (op) {
   case 0: fsx_check(f == (u)s + 2 * n, "no increment lost"); fsx_check(r1[0] != r2[0], "each increment returns its own value"); break;
   case 1: fsx_check(f == (u)s - 2 * n, "no decrement lost"); fsx_check(r1[0] != r2[0], "each decrement returns its own value"); break;
   case 2: fsx_check(f == (u)s + n * (u)x + n * (u)y, "no addition lost"); fsx_check((u)r1[n - 1] == f || (u)r2[n - 1] == f, "the last addition returns the final value"); break;
   case 3: fsx_check(f == ((n & 1) ? ((u)s ^ (u)x ^ (u)y) : (u)s), "no xor lost"); break;
   case 4: fsx_check(f == ((u)s | (u)x | (u)y), "no or lost"); break;
   case 5: fsx_check(f == ((u)s & (u)x & (u)y), "no and lost"); break;
   case 6: fsx_check((r1[0] == s && f == (u)y && (n > 1 || r2[0] == x)) || (r2[0] == s && f == (u)x && (n > 1 || r1[0] == y)) || n > 1, "exchanges chain"); break;
   case 7: fsx_check(c1 != c2, "exactly one of two competing compare-and-sets succeeds"); fsx_check(f == (u)(c1 ? x : y), "the winner's value is stored"); break;
   }
   (void)z; fsx_reach("conc");
}
extern "C" void fsx_main() { if (fsx_choose("part", 2)) conc(); else seq(); }
