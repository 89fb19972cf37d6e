#include "stack.h"
#include "elem.h"
#include <new>
using namespace falcon;
using S = PagedStack<Elem>;
extern "C" void fsx_main() {
   long base = fsx_live();
   {
      unsigned ps = 1 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
      S s(ps, pa); Model<int> m; Vals val;
      auto same = [&] {
         fsx_check(s.size() == m.n, "size"); fsx_check(s.empty() == (m.n == 0), "emptiness"); if (m.n) fsx_check(s.top().v() == m.top(), "top");
         fsx_check(Elem::live == (int)m.n, "exactly the stack's elements are alive");
         unsigned k = m.n;
         for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(k > 0, "no extra element"); fsx_check((*it).v() == m.v[--k], "previous elements unchanged"); }
         fsx_check(k == 0, "no element missing");
         size_t blocks, depth, cur, data; s.getStats(blocks, depth, cur, data); fsx_check(cur == 1 || data > 0, "the current page holds the top");
      };
      unsigned a = fsx_choose("pushed", P_hist + 1), b = a ? fsx_choose("popped", a + 1) : 0;
      for (unsigned i = 0; i < a; ++i) { int x = val(); s.push_emplace(x); m.push(x); }
      for (unsigned i = 0; i < b; ++i) { s.pop(); m.cut(1); }
      if (P_mode == 1) {                                 // reads, removals and copies that fail
         unsigned kind = fsx_choose("kind", 9), at = fsx_choose("at", P_at + 1); bool alloc = kind > 5 && fsx_choose("alloc", 2), copying = at && !alloc && fsx_choose("copying", 2), threw = false; static const unsigned need[] = {1, 2, 3, 3, 2, 3, 0, 0, 0}; fsx_assume(m.n >= need[kind]);
         int t[3] = {val(), val(), val()}; S other(1 + (ps == 1), 1); if (kind == 7 || kind == 8) { other.push_emplace(t[0]); other.push_emplace(t[1]); }
         const Elem* held = m.n ? addrOf(s.top()) : nullptr; unsigned removed = 0, got = 0, off = 0; int want[3] = {0, 0, 0};
         { Elem e0(t[0]), e1(t[1]), e2(t[2]); Elem* e[3] = {&e0, &e1, &e2}; Elem::assigns = Elem::copies = Elem::booms = 0; if (alloc) fsx_fail_alloc(at); else (copying ? Elem::throwAt : Elem::throwAssign) = (int)at; long live = fsx_live(); int alive = Elem::live;
            try {
               switch (kind) {
                  case 0: s.pop(e0); break; case 1: s.pop(e0, e1); break; case 2: s.peek(e0, e1, e2); break; case 3: s.pop_reverse(e0, e1, e2); break; case 4: s.peek_reverse(e0, e1); break; case 5: s.peek_depth(3, e0, e1); break;
                  case 6: { S c(s); fsx_check(c.size() == m.n, "copy"); break; }
                  case 7: s = other; break;
                  case 8: { const S& cs = s; other = cs; break; }
               }
            } catch (const Boom&) { threw = true; fsx_reach("threw"); } catch (const std::bad_alloc&) { threw = true; fsx_reach("nomem"); }
            fsx_fail_alloc(0); Elem::throwAt = Elem::throwAssign = 0; unsigned given = 0; while (given < 3 && e[given]->taken) ++given;
            if (threw) { fsx_check(Elem::live == alive - (int)(kind <= 1 ? given : 0), "a failed operation leaves no element behind"); if (kind > 5) fsx_check(fsx_live() == live, "a failed copy returns its memory"); }
            unsigned cnt = need[kind] > 2 && kind == 5 ? 2 : need[kind];
            if (kind <= 5) { if (!copying) fsx_check(threw || !at || at > cnt, "every value is assigned"); fsx_check(threw == (Elem::booms > 0), "the element's exception reaches the caller"); got = threw ? given : cnt; fsx_check(given == got, "as many as asked");
               for (unsigned i = 0; i < 3; ++i) { unsigned pos = kind <= 2 ? m.n - 1 - i : kind == 3 || kind == 5 ? m.n - 3 + i : m.n - 2 + i; fsx_check(e[i]->v() == (i < got ? m.v[pos] : t[i]), "values read are delivered in order, the others are left alone"); } }
            else fsx_check(at || !threw, "no exception without a fault");
         }
         if (kind == 0 || kind == 1) m.cut(got); else if (kind == 3 && !threw) m.cut(3); else if (kind == 7 && !threw) { m.cut(m.n); m.push(t[0]); m.push(t[1]); }
         if (held && kind != 0 && kind != 1 && kind != 3 && !(kind == 7 && !threw)) fsx_check(addrOf(s.top()) == held && held->self == held, "the top is still in place");
         if (kind == 7 || kind == 8) { Model<int> o; if (kind == 8 && !threw) for (unsigned i = 0; i < m.n; ++i) o.push(m.v[i]); else { o.push(t[0]); o.push(t[1]); } fsx_check(other.size() == o.n, "the other stack"); while (o.n) { Elem x; other.pop(x); fsx_check(x.v() == o.pop(), "the other stack's elements"); } }
         while (other.size()) other.pop(); (void)removed; (void)off; (void)want;
         if (!threw) fsx_reach("fine");
         same();
      } else
      for (int step = 0; step < P_ops; ++step) {
         unsigned kind = fsx_choose("kind", 4), fault = fsx_choose("fault", 3), at = fault ? 1 + fsx_choose("at", fault == 1 ? 3 : 6) : 0;
         int x = val(), y = val(), z = val(); bool threw = false, nomem = false;
         {
            Elem ex(x), ey(y), ez(z);
            const Elem* held = m.n ? addrOf(s.top()) : nullptr;
            Elem::copies = Elem::booms = 0; Elem::throwAt = fault == 1 ? at : 0; if (fault == 2) fsx_fail_alloc(at);
            try {
               if (kind == 0) s.push(ex); else if (kind == 1) s.push(ex, ey); else if (kind == 2) s.push(ex, ey, ez); else s.push_emplace(x);
            } catch (const Boom&) { threw = true; fsx_reach("threw"); }
            catch (const std::bad_alloc&) { nomem = true; fsx_reach("nomem"); }
            fsx_fail_alloc(0); Elem::throwAt = 0;
            unsigned cnt = kind == 3 ? 1 : kind + 1;
            if (fault == 1) { fsx_check(threw == (Elem::booms > 0), "the element's exception reaches the caller"); fsx_check(threw || at > cnt, "every element is copied in"); }
            if (fault == 0) fsx_check(!threw && !nomem, "no exception without a fault");
            if (held) fsx_check(held->self == held, "the previous top is still in place");
         }
         if (!threw && !nomem) { m.push(x); if (kind == 1 || kind == 2) m.push(y); if (kind == 2) m.push(z); fsx_reach("fine"); }
         same();
      }
      for (int i = 0; i < 4; ++i) { int x = val(); s.push_emplace(x); m.push(x); }       // fully usable afterwards
      same();
      while (m.n) { Elem e; s.pop(e); fsx_check(e.v() == m.pop(), "pops after a failed insertion"); }
      same(); fsx_observe("n", s.size());
   }
   fsx_check(Elem::live == 0, "every element destroyed exactly once");
   fsx_check(fsx_live() == base, "every allocation returned");
   fsx_reach("end");
}
