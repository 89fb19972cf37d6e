#include "stack.h"
using namespace falcon;
extern "C" void fsx_main() {
   unsigned ps = P_ps0 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
   using S = PagedStack<E>;
   S s(ps, pa); Model<int> m; Vals val;
   history(s, m, val, P_hist);
   for (int step = 0; step < P_ops; ++step) {
      unsigned op = fsx_choose("op", 11);
      E a, b, c, x = 0, y = 0, z = 0; unsigned k;
      switch (op) {
      case 0: k = fsx_choose("count", m.n + 1); s.discard((size_t)k); m.cut(k); fsx_reach("discard_n"); break;
      case 1: { fsx_assume(m.n >= 1); k = fsx_choose("fpos", m.n); S::iterator it = s.begin(); for (unsigned i = 0; i < k; ++i) ++it; s.discard(it); m.cut(k + 1); fsx_reach("discard_it"); break; }
      case 2: { fsx_assume(m.n >= 1); k = fsx_choose("rpos", m.n); S::reverse_iterator it = s.rbegin(); for (unsigned i = 0; i < k; ++i) ++it; s.discard(it); m.n = k; fsx_reach("discard_rit"); break; }
      case 3: { fsx_assume(m.n >= 1); k = fsx_choose("cpos", m.n); S::const_iterator it = s.cbegin(); for (unsigned i = 0; i < k; ++i) ++it; s.discard(it); m.cut(k + 1); break; }
      case 4: { fsx_assume(m.n >= 1); k = 1 + fsx_choose("depth", m.n); s.discard(s.from_top(k)); m.cut(k); break; }
      case 5: fsx_assume(m.n >= 1); s.pop_reverse(x); fsx_check(x == m.pop(), "pop_reverse of one"); break;
      case 6: fsx_assume(m.n >= 2); s.pop_reverse(x, y); b = m.pop(); a = m.pop(); fsx_check(x == a && y == b, "pop_reverse of two is bottom to top"); break;
      case 7: fsx_assume(m.n >= 3); s.pop_reverse(x, y, z); c = m.pop(); b = m.pop(); a = m.pop(); fsx_check(x == a && y == b && z == c, "pop_reverse of three is bottom to top"); fsx_reach("pop_reverse"); break;
      case 8: s.clear(); m.n = 0; fsx_reach("clear"); break;
      case 9: a = val(); b = val(); s.push(a, b); m.push(a); m.push(b); break;
      case 10: fsx_assume(m.n >= 1); s.pop(x); fsx_check(x == m.pop(), "pop after bulk removal"); break;
      }
      sameContents(s, m);
   }
   for (int i = 0; i < 4; ++i) { E a = val(); s.push(a); m.push(a); }
   sameContents(s, m);
   fsx_observe("size", s.size());
   drain(s, m);
   fsx_reach("end");
}
