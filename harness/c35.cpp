#include "fsx.h"
#include <falcon/engine/pagedstack.h>
#include <new>
// an allocator with a state: every block is booked to the account it came from
struct Account { long blocks = 0, calls = 0; };
template<typename T> struct Booked {
   using value_type = T; template<typename U> struct rebind { using other = Booked<U>; };
   Account* acc;
   Booked(Account* a = nullptr) noexcept : acc(a) {}
   template<typename U> Booked(const Booked<U>& o) noexcept : acc(o.acc) {}
   T* allocate(size_t n) { size_t* b = (size_t*)::operator new(16 + n * sizeof(T)); b[0] = n; b[1] = (size_t)acc; ++acc->blocks; ++acc->calls; return (T*)(b + 2); }
   void deallocate(T* p, size_t n) noexcept { size_t* b = (size_t*)p - 2; fsx_check(b[0] == n && b[1] == (size_t)acc, "blocks go back to the allocator they came from, with their size"); --acc->blocks; ::operator delete(b); }
   template<typename U> bool operator==(const Booked<U>& o) const noexcept { return acc == o.acc; }
   template<typename U> bool operator!=(const Booked<U>& o) const noexcept { return acc != o.acc; }
};
template<typename S> static void stats(const S& s, size_t n, size_t ps, size_t pages) {
   size_t blocks = 99, depth = 99, cur = 99, data = 99; s.getStats(blocks, depth, cur, data); size_t c = n ? (n + ps - 1) / ps : 1;
   fsx_check(blocks == pages, "pages are as many as stated"); fsx_check(depth == ps, "the page size is the given one"); fsx_check(cur == c && data == n - (c - 1) * ps, "every page below the current one is full");
   fsx_check(s.size() == n, "size");
}
using Stack = falcon::PagedStack<int, Booked>;
extern "C" void fsx_main() {
   long base = fsx_live(); Account a, other;
   if (P_mode == 0) {
      size_t ps = 1 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa), n = 0, pages = pa;
      {
         Stack s(ps, pa, Booked<int>(&a)); fsx_check(s.get_allocator() == Booked<int>(&a), "the allocator is the given one"); stats(s, 0, ps, pages);
         for (int i = 0; i < P_ops; ++i) {
            long calls = a.calls; bool room = true; 
            auto push = [&](size_t k) { for (; k; --k) { if (n == pages * ps) { pages += pa; room = false; } ++n; } };
            switch (fsx_choose("op", 8)) {
               case 0: s.push((int)n); push(1); break;
               case 1: s.push(1, 2, 3); push(3); break;
               case 2: s.push_emplace(5); push(1); break;
               case 3: fsx_assume(n > 0); s.pop(); --n; break;
               case 4: { size_t k = 1 + fsx_choose("count", 3); fsx_assume(k <= n); s.discard(k); n -= k; break; }
               case 5: s.clear(); n = 0; break;
               case 6: s.shrink_to_fit(); pages = n ? (n + ps - 1) / ps : 1; fsx_reach("shrink"); break;
               case 7: { long out = a.blocks; { Stack c(s); size_t cp = pa; while (cp * ps < n) cp += pa; stats(c, n, ps, cp); fsx_check(c.get_allocator() == s.get_allocator(), "copies use the same allocator"); } fsx_check(a.blocks == out, "a copy returns its own memory"); room = false; fsx_reach("copy"); break; }
            }
            stats(s, n, ps, pages); if (room) fsx_check(a.calls == calls, "no memory is asked while there is room"); else fsx_reach("grown");
            fsx_check(fsx_live() - base == a.blocks, "all the memory comes from the given allocator"); fsx_check(a.blocks <= 2 * (long)pages + 2, "a page is one block of data");
         }
         fsx_observe("blocks", a.blocks);
      }
      fsx_check(a.blocks == 0 && other.blocks == 0, "all the memory goes back to it");
   } else {                                              // default paging
      falcon::PagedStack<unsigned char> s; size_t n = 0; unsigned k = fsx_choose("boundary", 4); static const size_t sizes[] = {1023, 1024, 1025, 4097}; unsigned char v = fsx_u8("v");
      stats(s, 0, 1024, 4); while (n < sizes[k]) { s.push((unsigned char)(n * 7)); ++n; } s.push(v); ++n; stats(s, n, 1024, n > 4096 ? 8 : 4);
      fsx_check(s.top() == v, "top"); s.pop(); --n; if (fsx_choose("shrink", 2)) { s.shrink_to_fit(); stats(s, n, 1024, (n + 1023) / 1024); }
      unsigned char bad = 0; while (n) { --n; bad |= s.top() ^ (unsigned char)(n * 7); s.pop(); } fsx_check(!bad, "contents"); fsx_check(s.empty(), "drained"); fsx_reach("default");
   }
   fsx_check(fsx_live() == base, "everything is released"); fsx_reach("end");
}
