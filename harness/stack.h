// Shared pieces of the PagedStack harnesses: ideal model and an arbitrary reachable start state.
#pragma once
#include "fsx.h"
#include <falcon/engine/pagedstack.h>
template<class T> static const T* addrOf(const T& t) { return &t; }   // (of a copy, if that is what is handed out)
// the element: an integer, or (with FSX_MOVABLE) an owner of one that is left without it when it is moved from
#ifdef FSX_MOVABLE
struct E {
   int* p;
   E() : p(new int(0)) {} E(int x) : p(new int(x)) {} E(const E& o) : p(new int((int)o)) {} E(E&& o) noexcept : p(o.p) { o.p = nullptr; } ~E() { delete p; p = nullptr; }
   E& operator=(const E& o) { if (this != &o) { int* q = new int((int)o); delete p; p = q; } return *this; }
   E& operator=(E&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
   operator int() const { fsx_check(p != nullptr, "an element is whole as long as it is in the stack"); return *p; }
};
#else
using E = int;
#endif
template<typename T> struct Model {            // ideal unbounded stack
   T v[64]; unsigned n{0};
   void push(const T& x) { v[n++] = x; }
   T pop() { return v[--n]; }
   T& top() { return v[n-1]; }
   void cut(unsigned k) { n -= k; }
};
inline const char* nm(const char* p, unsigned i) {   // "v0","v1",...
   static char buf[64][4]; static unsigned k = 0; char* b = buf[k++ % 64];
   b[0] = p[0]; b[1] = (char)('0' + i / 10 % 10); b[2] = (char)('0' + i % 10); b[3] = 0; return b;
}
struct Vals { unsigned n{0}; int operator()() { return fsx_int(nm("v", n++)); } };
// history that leaves the stack with any number of elements and any number of spare pages above: a pushes, b pops
template<typename S> inline void history(S& s, Model<int>& m, Vals& val, unsigned max) {
   unsigned a = fsx_choose("pushed", max + 1), b = a ? fsx_choose("popped", a + 1) : 0;
   for (unsigned i = 0; i < a; ++i) { int x = val(); s.push(x); m.push(x); }
   for (unsigned i = 0; i < b; ++i) { s.pop(); m.cut(1); }
}
template<typename S> inline void sameBasics(const S& s, Model<int>& m) {
   fsx_check(s.size() == m.n, "size equals the ideal stack's");
   fsx_check(s.empty() == (m.n == 0), "emptiness equals the ideal stack's");
   if (m.n) fsx_check(s.top() == m.top(), "top equals the ideal stack's");
}
template<typename S> inline void drain(S& s, Model<int>& m) {
   while (m.n) { sameBasics(s, m); E x; s.pop(x); int y = m.pop(); fsx_check(x == y, "popped value equals the ideal stack's"); }
   sameBasics(s, m);
}
// contents through both iteration directions
template<typename S> inline void sameContents(S& s, Model<int>& m) {
   sameBasics(s, m);
   unsigned k = m.n;
   for (auto it = s.begin(), e = s.end(); it != e; ++it) { fsx_check(k > 0, "forward iteration visits no extra element"); --k; fsx_check(*it == m.v[k], "forward iteration yields the element"); }
   fsx_check(k == 0, "forward iteration visits every element");
   for (auto it = s.rbegin(), e = s.rend(); it != e; ++it) { fsx_check(k < m.n, "reverse iteration visits no extra element"); fsx_check(*it == m.v[k], "reverse iteration yields the element"); ++k; }
   fsx_check(k == m.n, "reverse iteration visits every element");
}
