#include "stack.h"
#include "elem.h"
#include <utility>
using namespace falcon;
using S = PagedStack<Elem>;
static Vals val;
static void build(S& s, Model<int>& m, unsigned max) {
   unsigned a = fsx_choose("pushed", max + 1), b = a ? fsx_choose("popped", a + 1) : 0;
   for (unsigned i = 0; i < a; ++i) { int x = val(); s.push(Elem(x)); m.push(x); }
   for (unsigned i = 0; i < b; ++i) { s.pop(); m.cut(1); }
}
static void same(S& s, Model<int>& m) {
   fsx_check(s.size() == m.n, "size"); fsx_check(s.empty() == (m.n == 0), "emptiness"); if (m.n) fsx_check(s.top().v() == m.top(), "top");
   unsigned k = m.n;
   for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(k > 0, "no extra element"); fsx_check((*it).v() == m.v[--k], "same element"); }
   fsx_check(k == 0, "no element missing");
   for (auto it = s.rbegin(), e = s.rend(); it != e; ++it) { fsx_check(k < m.n, "no extra element in reverse"); fsx_check((*it).v() == m.v[k++], "same element in reverse"); }
   fsx_check(k == m.n, "no element missing in reverse");
}
static void change(S& s, Model<int>& m) {
   switch (fsx_choose("change", 6)) {
   case 0: { int x = val(); s.push(Elem(x)); m.push(x); break; }
   case 1: { int x = val(), y = val(), z = val(); s.push(Elem(x), Elem(y), Elem(z)); m.push(x); m.push(y); m.push(z); break; }
   case 2: fsx_assume(m.n > 0); s.pop(); m.cut(1); break;
   case 3: { fsx_assume(m.n > 0); int x = val(); s.top(Elem(x)); m.top() = x; break; }
   case 4: s.clear(); m.n = 0; break;
   case 5: s.shrink_to_fit(); break;
   }
}
extern "C" void fsx_main() {
   long base = fsx_live();
   {
      unsigned ps = 1 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
      S* a = new S(ps, pa); Model<int> ma; build(*a, ma, P_hist);
      S* b = nullptr; Model<int> mb; bool moved = false;
      switch (fsx_choose("how", 6)) {
      case 0: b = new S(*a); mb = ma; fsx_reach("copy"); break;
      case 1: b = new S(std::move(*a)); mb = ma; moved = true; fsx_reach("move"); break;
      case 2: b = new S(1 + fsx_choose("pageSize2", P_ps), 1); build(*b, mb, P_hist); *b = *a; mb = ma; fsx_reach("assign"); break;
      case 3: b = new S(1 + fsx_choose("pageSize2", P_ps), 1); build(*b, mb, P_hist); *b = std::move(*a); mb = ma; moved = true; fsx_reach("moveassign"); break;
      case 4: { S& r = *a; *a = r; b = new S(*a); mb = ma; fsx_reach("self"); break; }
      case 5: { S t(*a); S u(t); t.clear(); b = new S(u); mb = ma; break; }
      }
      if (!moved) same(*a, ma);
      same(*b, mb);
      unsigned first = moved ? 2 : fsx_choose("destroyFirst", 3);      // destroying either never affects the other
      if (moved && fsx_choose("dropSource", 2)) { delete a; a = nullptr; }
      if (first == 1) { delete a; a = nullptr; } else if (first == 0) { delete b; b = nullptr; }
      for (int i = 0; i < P_ops; ++i) {
         bool onA = (!moved && a) && (!b || fsx_choose("which", 2));
         if (onA) change(*a, ma); else change(*b, mb);
         if (!moved && a) same(*a, ma);
         if (b) same(*b, mb);
      }
      fsx_observe("n", (a && !moved ? a->size() : 0) + (b ? b->size() : 0));
      delete b; if (a && !moved) same(*a, ma); delete a;
   }
   fsx_check(Elem::live == 0, "every element destroyed exactly once");
   fsx_check(fsx_live() == base, "nothing leaks");
   fsx_reach("end");
}
