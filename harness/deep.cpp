#include "fsx.h"
#include <falcon/engine/pagedstack.h>
#include <stdexcept>
// Large stacks: contents and page sizes around common thresholds, one symbolic value from which the others are made.
using namespace falcon;
using S = PagedStack<int>;
static int x; static int v(size_t i) { return (int)((unsigned)x + 3u * (unsigned)i); }
static const unsigned sizes[] = {7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 256, 257, 400, 1000, 2001}, pages[] = {1, 2, 5, 16, 64, 999, 1000};
static void fill(S& s, size_t from, size_t n) { for (size_t i = from; i < n; ++i) s.push(v(i)); }
// positions worth looking at: next to the ends, to page boundaries and in the middle
static size_t depth(size_t n, size_t ps) { size_t d; switch (P_huge ? 3 + fsx_choose("depth", 5) : fsx_choose("depth", 10)) { case 0: d = 1; break; case 1: d = ps - 1; break; case 2: d = ps; break; case 3: d = ps + 1; break; case 4: d = P_huge ? 1 : 2 * ps; break; case 5: d = n / 2; break; case 6: d = n - 1; break; case 7: d = n; break; case 8: d = n - n % ps; break; default: d = n - n % ps + 1; } fsx_assume(d >= 1 && d <= n); return d; }
static void holds(S& s, size_t n) {
   fsx_check(s.size() == n && s.empty() == (n == 0), "size of a large stack"); size_t k = n; for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(k > 0, "forward iteration visits no extra element"); --k; fsx_check(*it == v(k), "forward iteration yields the element"); } fsx_check(k == 0, "forward iteration visits every element");
   for (auto it = s.rbegin(), e = s.rend(); it != e; ++it) { fsx_check(k < n, "reverse iteration visits no extra element"); fsx_check(*it == v(k), "reverse iteration yields the element"); ++k; } fsx_check(k == n, "reverse iteration visits every element");
}
static void drain(S& s, size_t n) { while (n) { --n; int y; fsx_check(s.top() == v(n), "top of a large stack"); s.pop(y); fsx_check(y == v(n), "popped value"); } fsx_check(s.empty() && s.size() == 0, "empty after the last pop"); }
extern "C" void fsx_main() {
   long base = fsx_live(); x = fsx_int("x");
   {
      size_t n, ps, pa; if (P_huge) { static const unsigned ns[] = {65537, 32769}, pg[] = {65536, 700, 66000}; n = ns[fsx_choose("size", P_sizes)]; ps = pg[fsx_choose("pageSize", P_sizes + 1)]; pa = 1; } else { n = sizes[fsx_choose("size", P_sizes)]; ps = pages[fsx_choose("pageSize", 7)]; pa = fsx_choose("prealloc", 2) ? 5 : 1; fsx_assume(ps == 1 || n / ps < 600); } S s(ps, pa); fill(s, 0, n); fsx_check(s.size() == n && s.top() == v(n - 1), "size and top of a large stack");
#if P_what == 1
      size_t d = depth(n, ps), k = n; for (size_t i = 0; i < d;) { int a, b, c; if (i % 2 && d - i >= 3) { s.pop(a, b, c); fsx_check(a == v(k - 1) && b == v(k - 2) && c == v(k - 3), "values popped together"); i += 3; k -= 3; } else { s.pop(a); fsx_check(a == v(k - 1), "popped value"); ++i; --k; } }
      fsx_check(s.size() == k, "size after pops"); fill(s, k, n + 3); fsx_check(s.size() == n + 3 && s.top() == v(n + 2), "refilled"); drain(s, n + 3); s.push(5); fsx_check(s.size() == 1 && s.top() == 5, "and used again");
#elif P_what == 2
      size_t d = depth(n, ps); switch (fsx_choose("how", 5)) { case 0: s.discard(d); break; case 1: { auto it = s.begin(); it += d - 1; s.discard(it); break; } case 2: s.discard(s.from_top(d)); break; case 3: { auto it = s.rbegin(); it += n - d; s.discard(it); break; } default: fsx_assume(d >= 3); { int a, b, c; s.discard(d - 3); s.pop_reverse(a, b, c); fsx_check(a == v(n - d) && b == v(n - d + 1) && c == v(n - d + 2), "pop_reverse is bottom to top"); } }
      holds(s, n - d); fill(s, n - d, n + 2); holds(s, n + 2); s.clear(); fsx_check(s.empty() && s.size() == 0, "cleared"); fill(s, 0, n); holds(s, n);
#elif P_what == 3
      holds(s, n); size_t d = depth(n, ps), e = depth(n, ps); auto f = s.begin(); f += d - 1; fsx_check(*f == v(n - d), "a long step forward"); f -= d - 1; fsx_check(*f == v(n - 1) && f == s.begin(), "and back"); auto r = s.rbegin(); r += n - d; fsx_check(*r == v(n - d), "a long step in reverse"); r -= n - d; fsx_check(*r == v(0) && r == s.rbegin(), "and back"); f += n; fsx_check(f == s.end(), "the end is n steps away");
      auto t = s.from_top(d); fsx_check(*t == v(n - d), "from_top designates the element at the depth"); if (e <= d) { t += d - e; fsx_check(*t == v(n - e), "steps from there"); } *s.from_top(d) = 7; size_t k = n; for (auto i = s.cbegin(), z = s.cend(); i != z; ++i) { --k; fsx_check(*i == (k == n - d ? 7 : v(k)), "writing changes exactly that element"); } fsx_check(k == 0, "all visited");
#elif P_what == 4
      size_t d = depth(n, ps); int a = 0, b = 0, c = 0, e = 9; const S& cs = s; switch (fsx_choose("how", 3)) { case 0: cs.peek(a, b, c); fsx_check(a == v(n - 1) && b == v(n - 2) && c == v(n - 3), "peek reads from the top down"); break; case 1: cs.peek_reverse(a, b, c); fsx_check(a == v(n - 3) && b == v(n - 2) && c == v(n - 1), "peek_reverse reads bottom to top"); break; default: fsx_assume(d >= 3); cs.peek_depth(d, a, b, c); fsx_check(a == v(n - d) && b == v(n - d + 1) && c == v(n - d + 2), "peek_depth reads from the stated depth upwards"); } fsx_check(e == 9, "nothing else is touched"); holds(s, n);
#elif P_what == 8
      size_t d = depth(n, ps); s.discard(d); n -= d; { S c(s); holds(c, n); fill(c, n, n + 2 * ps + 1); holds(c, n + 2 * ps + 1); holds(s, n); S m(std::move(c)); holds(m, n + 2 * ps + 1); S t(3, 2); fill(t, 0, 40); t = s; holds(t, n); t = m; holds(t, n + 2 * ps + 1); t.clear(); holds(m, n + 2 * ps + 1); m = std::move(s); holds(m, n); }
#elif P_what == 5
      static const int* at[P_huge ? 210000 : 5000]; s.clear(); for (size_t i = 0; i < n; ++i) { s.push(v(i)); at[i] = &s.top(); } auto still = [&](size_t k) { size_t i = k; for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(i > 0, "no extra element"); --i; fsx_check(&*it == at[i] && *it == v(i), "a live element neither moves nor changes"); } fsx_check(i == 0, "all elements are there"); };
      still(n); size_t d = depth(n, ps); s.shrink_to_fit(); still(n); s.discard(d); size_t k = n - d; still(k); if (fsx_choose("shrink", 2)) { s.shrink_to_fit(); still(k); size_t b, dp, cu, da; s.getStats(b, dp, cu, da); fsx_check(b == cu, "shrinking leaves no page above the current one"); } for (size_t i = k; i < n + 2 * ps + 1; ++i) { s.push(v(i)); at[i] = &s.top(); } still(n + 2 * ps + 1); if (k) fsx_check(*at[k - 1] == v(k - 1), "references stay valid");
#elif P_what == 6
      size_t d = depth(n, ps), e = depth(n, ps); size_t b0, b1, dp, cu, da; auto it = s.sync_begin(); int y; size_t pos = n - d; for (size_t i = 1; i < d; ++i) ++it; it.get(y); fsx_check(y == v(n - d), "a synchronised iterator designates its element"); s.getStats(b0, dp, cu, da); s.discard(e); s.getStats(b1, dp, cu, da); fsx_check(b1 >= b0, "no page is released while it exists"); n -= e;
      if (n == 0) { bool threw = false; try { it.get(y); } catch (const std::exception&) { threw = true; } fsx_check(threw, "an emptied stack is an error"); } else { if (pos >= n) pos = n - 1; it.get(y); fsx_check(y == v(pos), "in step, or at the new top"); } fill(s, n, n + 2 * ps + 3); n += 2 * ps + 3; if (pos >= n) pos = n - 1; it.get(y); fsx_check(y == v(pos), "and stays there"); fsx_check(s.top() == v(n - 1), "the stack goes on");
#elif P_what == 35
      size_t b, dp, cu, da, np = (n + ps - 1) / ps; s.getStats(b, dp, cu, da); size_t want = pa; while (want < np) want += pa; fsx_check(dp == ps && cu == np && da == n - (np - 1) * ps && b == want, "pages of a large stack"); size_t d = depth(n, ps); s.discard(d); size_t k = n - d, kp = k ? (k + ps - 1) / ps : 1; s.getStats(b, dp, cu, da); fsx_check(b == want && cu == kp && da == k - (kp - 1) * ps, "pages are kept when elements go");
      long live = fsx_live(); fill(s, k, n); fsx_check(fsx_live() == live, "no allocation while there is room"); s.discard(d); s.shrink_to_fit(); s.getStats(b, dp, cu, da); fsx_check(b == kp, "shrinking keeps the pages in use"); fill(s, k, n); s.getStats(b, dp, cu, da); while (kp < np) kp += pa; fsx_check(b == kp && s.size() == n, "and growing takes pages again");
#endif
      fsx_observe("n", s.size()); fsx_reach("deep");
   }
   fsx_check(fsx_live() == base, "nothing leaks");
}
