#include "stack.h"
using namespace falcon;
extern "C" void fsx_main() {
   unsigned ps = P_ps0 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
   PagedStack<E> s(ps, pa); Model<int> m; Vals val;
   sameBasics(s, m);
   history(s, m, val, P_hist);
   sameBasics(s, m);
   for (int step = 0; step < P_ops; ++step) {
      unsigned op = fsx_choose("op", 10);
      E a, b, c, x = 0, y = 0, z = 0;
      switch (op) {
      case 0: a = val(); s.push(a); m.push(a); break;
      case 1: a = val(); b = val(); s.push(a, b); m.push(a); m.push(b); fsx_reach("push2"); break;
      case 2: a = val(); b = val(); c = val(); s.push(a, b, c); m.push(a); m.push(b); m.push(c); break;
      case 3: a = val(); s.push_emplace(a); m.push(a); break;
      case 4: fsx_assume(m.n >= 1); s.pop(); m.cut(1); break;
      case 5: fsx_assume(m.n >= 1); s.pop(x); fsx_check(x == m.pop(), "pop returns the top"); break;
      case 6: fsx_assume(m.n >= 2); s.pop(x, y); a = m.pop(); b = m.pop(); fsx_check(x == a && y == b, "pop of two returns top first"); fsx_reach("pop2"); break;
      case 7: fsx_assume(m.n >= 3); s.pop(x, y, z); a = m.pop(); b = m.pop(); c = m.pop(); fsx_check(x == a && y == b && z == c, "pop of three returns top first"); fsx_reach("pop3"); break;
      case 8: fsx_assume(m.n >= 1); a = val(); s.top(a); m.top() = a; fsx_reach("settop"); break;
      case 9: a = val(); s.push(a, a, a, a, a, a, a); for (int i = 0; i < 7; ++i) m.push(a); break;
      }
      sameBasics(s, m);
   }
   fsx_observe("size", s.size());
   drain(s, m);
   E a = val(); s.push(a); m.push(a); drain(s, m);
   fsx_reach("end");
}
