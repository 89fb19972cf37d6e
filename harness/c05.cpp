#include "stack.h"
using namespace falcon;
#define E Own
struct E {                                       // registers its address: an element never moves and dies once
   static int live; int v; E* self; int* heap;
   E() : v(0), self(this), heap(new int(0)) { ++live; }
   E(int x) : v(x), self(this), heap(new int(x)) { ++live; }
   E(const E& o) : v(o.v), self(this), heap(new int(*o.heap)) { o.ok(); ++live; }
   E& operator=(const E& o) { ok(); o.ok(); v = o.v; *heap = *o.heap; return *this; }
   ~E() { ok(); self = nullptr; delete heap; heap = nullptr; --live; }
   void ok() const { fsx_check(self == this, "element used at the address where it was constructed"); }
};
int E::live = 0;
struct Ref { const E* at[32]; };
extern "C" void fsx_main() {
   long base = fsx_live();
   {
      unsigned ps = 1 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
      PagedStack<E> s(ps, pa); Model<int> m; Ref r; Vals val;
      auto verify = [&] {
         fsx_check(s.size() == m.n, "size"); fsx_check(E::live == (int)m.n, "exactly the stack's elements are alive");
         unsigned k = m.n;
         for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(k > 0, "extra element"); --k; const E& x = *it; x.ok(); fsx_check(&x == r.at[k], "a live element never moves"); fsx_check(x.v == m.v[k] && *x.heap == m.v[k], "a live element never changes"); }
         fsx_check(k == 0, "all elements there");
      };
      auto push1 = [&](bool emplace) { int a = val(); if (emplace) s.push_emplace(a); else { E e(a); s.push(e); } m.push(a); r.at[m.n - 1] = addrOf(s.top()); };
      unsigned a = fsx_choose("pushed", P_hist + 1), b = a ? fsx_choose("popped", a + 1) : 0;
      for (unsigned i = 0; i < a; ++i) push1(i & 1);
      for (unsigned i = 0; i < b; ++i) { s.pop(); m.cut(1); }
      verify();
      for (int step = 0; step < P_ops; ++step) {
         unsigned op = fsx_choose("op", 11);
         switch (op) {
         case 0: push1(false); break;
         case 1: push1(true); push1(true); push1(false); break;
         case 2: fsx_assume(m.n >= 1); s.pop(); m.cut(1); break;
         case 3: { fsx_assume(m.n >= 2); E x, y; s.pop(x, y); int u = m.pop(), w = m.pop(); fsx_check(x.v == u && y.v == w, "popped values"); break; }
         case 4: { s.shrink_to_fit(); size_t blocks, depth, cur, data; s.getStats(blocks, depth, cur, data); fsx_check(blocks == cur, "shrinking leaves no page above the current one"); fsx_check(depth == ps, "page size is unchanged"); fsx_reach("shrink"); break; }
         case 5: { unsigned k = fsx_choose("count", m.n + 1); s.discard((size_t)k); m.cut(k); break; }
         case 6: { fsx_assume(m.n >= 1); unsigned k = fsx_choose("fpos", m.n); auto it = s.begin(); it += k; s.discard(it); m.cut(k + 1); break; }
         case 7: s.clear(); m.n = 0; break;
         case 8: { fsx_assume(m.n >= 1); int x = val(); { E e(x); s.top(e); } m.top() = x; break; }
         case 9: {                                // the argument may be an element of the stack itself
            fsx_assume(m.n >= 1); int t = m.top(), f = m.v[0]; fsx_reach("alias");
            s.push(s.top()); m.push(t); r.at[m.n - 1] = addrOf(s.top());
            s.push_emplace(*s.rbegin()); m.push(f); r.at[m.n - 1] = addrOf(s.top()); break; }
         case 10: {
            fsx_assume(m.n >= 1); int t = m.top(), f = m.v[0]; unsigned n = m.n;
            s.push(*s.rbegin(), s.top(), *s.rbegin()); m.push(f); m.push(t); m.push(f); s.top(*s.from_top(1)); s.top(*s.begin());
            { auto it = s.begin(); for (unsigned i = m.n; i-- > n; ++it) r.at[i] = addrOf(*it); } break; }
         }
         verify();
         if (P_capacity) { size_t blocks, depth, cur, data; s.getStats(blocks, depth, cur, data); fsx_check(cur <= blocks, "current page exists"); fsx_check(data <= ps, "a page never holds more than its size"); fsx_check((cur - 1) * ps + data == m.n, "pages below the current one are full"); }
      }
      fsx_observe("size", s.size());
   }
   fsx_check(E::live == 0, "every element destroyed exactly once");
   fsx_check(fsx_live() == base, "every allocation returned");
   fsx_reach("end");
}
