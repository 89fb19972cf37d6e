#include "stack.h"
#include <stdexcept>
using namespace falcon;
using S = PagedStack<E>;
#if P_constit
using SI = S::const_sync_iterator;
static SI sbegin(S& s) { return const_cast<const S&>(s).csync_begin(); }
static SI send(S& s) { return const_cast<const S&>(s).csync_end(); }
#else
using SI = S::sync_iterator;
static SI sbegin(S& s) { return s.sync_begin(); }
static SI send(S& s) { return s.sync_end(); }
#endif
struct It {                                       // ideal synchronised iterator: a position counted from the bottom
   unsigned pos; bool end;
};
extern "C" void fsx_main() {
   unsigned ps = 1 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
   S s(ps, pa); Model<int> m; Vals val;
   history(s, m, val, P_hist);
   bool wanted = false; unsigned count = 0; size_t blocks0 = 0;
   size_t blocks, depth, cur, data;
   SI* it[2] = {nullptr, nullptr}; It mod[2] = {{0, false}, {0, false}};
   auto born = [&] { ++count; };
   auto died = [&](size_t had) { if (--count == 0 && !wanted) { s.getStats(blocks, depth, cur, data); fsx_check(blocks == had, "an iterator going away releases pages only if asked for"); if (had > cur) fsx_reach("spare"); } else if (!count) { wanted = false; s.getStats(blocks, depth, cur, data); fsx_check(blocks == cur, "a deferred shrink takes effect when the last iterator goes away"); fsx_reach("deferred"); } };
   it[0] = new SI(sbegin(s)); mod[0].pos = m.n - 1; mod[0].end = m.n == 0; born();
   auto use = [&](unsigned i) {                    // resynchronisation rule; returns false if an exception is due
      if (mod[i].end || mod[i].pos >= m.n) { if (m.n == 0) return -1; mod[i].pos = m.n - 1; mod[i].end = false; return 0; }
      return 1;
   };
   for (int step = 0; step < P_ops; ++step) {
      unsigned op = fsx_choose("op", 12), i = 0;
      s.getStats(blocks0, depth, cur, data);
      if (op >= 6 && op <= 11 && it[1]) i = op == 8 ? 0 : fsx_choose("which", 2);
      if (op >= 6 && op != 10) fsx_assume(it[i] != nullptr);
      E x = 0;
      switch (op) {
      case 0: x = val(); s.push(x); m.push(x); break;
      case 1: { E y = val(), z = val(), w = val(); s.push(y, z, w); m.push(y); m.push(z); m.push(w); break; }
      case 2: { fsx_assume(m.n >= 1); s.pop(); m.cut(1); break; }
      case 3: { unsigned k = fsx_choose("count", m.n + 1); s.discard((size_t)k); m.cut(k); break; }
      case 4: s.clear(); m.n = 0; break;
      case 5: s.shrink_to_fit(); if (count) wanted = true; else { s.getStats(blocks, depth, cur, data); fsx_check(blocks == cur, "without iterators a shrink is immediate"); } break;
      case 6: {                                    // read
         fsx_assume(!mod[i].end || m.n == 0 || mod[i].pos >= m.n);
         int e = use(i); bool threw = false;
         try { it[i]->get(x); } catch (const std::exception&) { threw = true; }
         fsx_check(threw == (e < 0), "next use reports an error exactly when the stack was emptied");
         if (e >= 0) { fsx_check(x == m.v[mod[i].pos], e ? "a synchronised iterator designates its element" : "after removal it resynchronises to the current top"); fsx_reach(e ? "insync" : "resync"); } else fsx_reach("emptied");
         break; }
      case 7: {                                    // increment: towards the bottom
         fsx_assume(!mod[i].end || m.n == 0);
         int e = use(i); bool threw = false;
         try { ++*it[i]; } catch (const std::exception&) { threw = true; }
         fsx_check(threw == (e < 0), "increment reports an error exactly when the stack was emptied");
         if (e == 1) { if (mod[i].pos == 0) mod[i].end = true; else --mod[i].pos; }
         fsx_reach("inc");
         break; }
      case 8: if (it[1]) break; it[1] = new SI(*it[0]); mod[1] = mod[0]; born(); fsx_check(*it[1] == *it[0], "a copy designates the same element"); fsx_reach("copy"); break;
      case 9: delete it[i]; it[i] = nullptr; died(blocks0); fsx_reach("destroy"); break;
      case 10: if (!it[0]) { it[0] = new SI(sbegin(s)); mod[0].pos = m.n - 1; mod[0].end = m.n == 0; born(); fsx_reach("another"); }
               else if (i == 0) { fsx_assume(it[1] == nullptr); it[1] = new SI(sbegin(s)); mod[1].pos = m.n - 1; mod[1].end = m.n == 0; born(); fsx_check((*it[1] != send(s)) == (m.n != 0), "begin differs from end exactly on a non-empty stack"); }
               else { fsx_assume(it[0] != nullptr); *it[1] = *it[0]; mod[1] = mod[0]; } break;
      case 11: {                                   // decrement: towards the top
         fsx_assume(!mod[i].end);
         int e = use(i); bool threw = false;
         try { --*it[i]; } catch (const std::exception&) { threw = true; }
         fsx_check(threw == (e < 0), "decrement reports an error exactly when the stack was emptied");
         if (e == 1) { if (mod[i].pos + 1 < m.n) ++mod[i].pos; else fsx_reach("attop"); }      // (there is nothing above the top)
         break; }
      }
      if (count) { s.getStats(blocks, depth, cur, data); fsx_check(blocks >= blocks0, "no page is released while a synchronised iterator exists"); }
      sameBasics(s, m);
   }
   for (int i = 0; i < 2; ++i) if (it[i]) { s.getStats(blocks0, depth, cur, data); delete it[i]; died(blocks0); }
   fsx_observe("size", s.size());
   drain(s, m);
}
