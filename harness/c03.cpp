#include "stack.h"
using namespace falcon;
using S = PagedStack<E>;
template<typename St> static void constDirs(const St& s, Model<int>& m) {
   unsigned k = m.n;
   for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(k > 0, "const forward: extra element"); fsx_check(*it == m.v[--k], "const forward: value"); }
   fsx_check(k == 0, "const forward: all visited");
   k = m.n;
   for (auto it = s.cbegin(), e = s.cend(); it != e; it++) { fsx_check(k > 0, "cbegin: extra element"); fsx_check(*it == m.v[--k], "cbegin: value"); }
   fsx_check(k == 0, "cbegin: all visited");
   for (auto it = s.rbegin(), e = s.rend(); it != e; ++it) { fsx_check(k < m.n, "const reverse: extra element"); fsx_check(*it == m.v[k++], "const reverse: value"); }
   fsx_check(k == m.n, "const reverse: all visited");
   k = 0;
   for (auto it = s.crbegin(), e = s.crend(); it != e; it++) { fsx_check(k < m.n, "crbegin: extra element"); fsx_check(*it == m.v[k++], "crbegin: value"); }
   fsx_check(k == m.n, "crbegin: all visited");
}
// walks that mix steps forward and back; pos counts steps from the start iterator
template<typename It, typename At> static void walk(It start, It finish, unsigned n, At at) {
   It it = start; unsigned pos = 0;
   for (int i = 0; i < P_walk; ++i) {
      unsigned mv = fsx_choose("move", 6);
      if (mv == 0) { fsx_assume(pos < n); const It& r = ++it; ++pos; fsx_check(r == it, "prefix increment returns the iterator"); }
      else if (mv == 1) { fsx_assume(pos > 0); const It& r = --it; --pos; fsx_check(r == it, "prefix decrement returns the iterator"); fsx_reach("dec"); }
      else if (mv == 2) { fsx_assume(pos < n); It old = it++; fsx_check(*old == at(pos), "postfix increment returns the previous position"); ++pos; }
      else if (mv == 3) { fsx_assume(pos > 0); It copy = it; It old = it--; fsx_check(old == copy, "postfix decrement returns the previous position"); --pos; }
      else if (mv == 4) { unsigned k = fsx_choose("plus", n - pos + 1); it += k; pos += k; fsx_reach("plus"); }
      else { unsigned k = fsx_choose("minus", pos + 1); it -= k; pos -= k; }
      fsx_check((it == finish) == (pos == n) && (it != finish) == (pos != n), "end reached exactly after the last element");
      if (pos < n) { fsx_check(*it == at(pos), "position after stepping"); fsx_check(*it.operator->() == at(pos), "arrow designates the same element"); }
   }
}
extern "C" void fsx_main() {
   unsigned ps = P_ps0 + fsx_choose("pageSize", P_ps), pa = 1 + fsx_choose("prealloc", P_pa);
   S s(ps, pa); Model<int> m; Vals val;
   history(s, m, val, P_hist);
   unsigned how = fsx_choose("check", 6);
   auto down = [&](unsigned i) { return m.v[m.n - 1 - i]; };
   auto up = [&](unsigned i) { return m.v[i]; };
   const S& cs = s;
   if (how == 0) { sameContents(s, m); constDirs(s, m); fsx_reach("all"); }
   else if (how == 1) walk(s.begin(), s.end(), m.n, down);
   else if (how == 2) walk(s.rbegin(), s.rend(), m.n, up);
   else if (how == 3) { if (fsx_choose("fwd", 2)) walk(cs.begin(), cs.end(), m.n, down); else walk(cs.rbegin(), cs.rend(), m.n, up); }
   else if (how == 4) {
      unsigned d = fsx_choose("depth", m.n + 1);
      auto from = [&](unsigned i) { return m.v[m.n - d + i]; };
      if (fsx_choose("const", 2)) walk(cs.from_top(d), cs.rend(), d, from); else walk(s.from_top(d), s.rend(), d, from);
      fsx_reach("from_top");
   } else {                                     // writing through an iterator changes exactly that element
      fsx_assume(m.n > 0); unsigned k = fsx_choose("target", m.n); int w = fsx_int("written");
      if (fsx_choose("dir", 2)) { auto it = s.begin(); it += m.n - 1 - k; *it = w; } else { auto it = s.rbegin(); it += k; *it = w; }
      m.v[k] = w; sameContents(s, m); fsx_reach("write");
   }
}
