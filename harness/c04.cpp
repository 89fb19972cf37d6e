#include "stack.h"
#include <string>
using namespace falcon;
struct Src {                                    // an iterator that counts and limits what is read
   const int* d; unsigned n; unsigned* maxRead; unsigned i;
   int operator*() { fsx_check(i < n, "distribution reads nothing past the last value"); if (i + 1 > *maxRead) *maxRead = i + 1; return d[i]; }
   Src& operator++() { fsx_check(i + 1 < n, "distribution asks for nothing past the last value"); ++i; return *this; }
};
static void distr() {
   int d[5]; for (int i = 0; i < 5; ++i) d[i] = fsx_int(nm("d", i));
   int a = 0, b = 0, c = 0; long e = 0; int f = 0; unsigned rd = 0;
   unsigned n = 1 + fsx_choose("args", 5);
   Src it{d, n, &rd, 0};
   switch (n) {
   case 1: distribute(it, a); break;
   case 2: distribute(it, a, b); break;
   case 3: distribute(it, a, b, c); break;
   case 4: distribute(Src{d, n, &rd, 0}, a, b, c, e); break;
   case 5: distribute(Src{d, n, &rd, 0}, a, b, c, e, f); break;
   }
   fsx_check(a == d[0], "first argument"); if (n > 1) fsx_check(b == d[1], "second argument"); if (n > 2) fsx_check(c == d[2], "third argument");
   if (n > 3) fsx_check(e == (long)d[3], "fourth argument"); if (n > 4) fsx_check(f == d[4], "fifth argument");
   fsx_check(rd == n, "every argument served"); fsx_reach("distribute");
}
extern "C" void fsx_main() {
   if (fsx_choose("part", 2) == 0) { distr(); return; }
   unsigned ps = P_ps0 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
   PagedStack<E> s(ps, pa); Model<int> m; Vals val;
   history(s, m, val, P_hist);
   const PagedStack<E>& cs = s;
   unsigned n = 1 + fsx_choose("args", 4); fsx_assume(m.n >= n);
   unsigned how = fsx_choose("how", 3), depth = n;
   E a = 1, b = 2, c = 3, d = 4;
   if (how == 2) { depth = n + fsx_choose("deeper", m.n - n + 1); }
   switch (how * 4 + n) {
   case 1: cs.peek(a); break; case 2: cs.peek(a, b); break; case 3: cs.peek(a, b, c); break; case 4: cs.peek(a, b, c, d); break;
   case 5: cs.peek_reverse(a); break; case 6: cs.peek_reverse(a, b); break; case 7: cs.peek_reverse(a, b, c); break; case 8: cs.peek_reverse(a, b, c, d); break;
   case 9: cs.peek_depth(depth, a); break; case 10: cs.peek_depth(depth, a, b); break; case 11: cs.peek_depth(depth, a, b, c); break; case 12: cs.peek_depth(depth, a, b, c, d); break;
   }
   int got[4] = {a, b, c, d};
   for (unsigned i = 0; i < 4; ++i) {
      if (i >= n) fsx_check(got[i] == (int)i + 1, "no argument beyond the given ones is touched");
      else if (how == 0) fsx_check(got[i] == m.v[m.n - 1 - i], "peek reads from the top down");
      else fsx_check(got[i] == m.v[m.n - depth + i], how == 1 ? "peek_reverse reads bottom to top" : "peek_depth reads from the stated depth upwards");
   }
   sameContents(s, m);
   fsx_reach(how == 0 ? "peek" : how == 1 ? "peek_reverse" : "peek_depth");
}
