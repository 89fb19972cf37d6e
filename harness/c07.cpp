// linearizability of PagedStack with a real mutex: results of concurrent operations are compared with every sequential order
#include "fsx.h"
#include <falcon/engine/pagedstack.h>
#include <mutex>
#include <thread>
using namespace falcon;
using S = PagedStack<int, std::allocator, std::mutex>;
enum { PUSH, PUSH2, POP, POP2, DISC, CLEAR, SIZE, EMPTY, SHRINK, ITER, EMPL, SETTOP, PEEK, POPREV, POPV, CITER, PEEK2, PEEKREV, PEEKDEEP, STATS, FROMTOP, SEND, DISCIT, DISCRIT, TOPGET, BACK, CBACK, COPY, MOVE, ASSIGN, ASSIGNMOVE, NOPS };
struct Op { int kind, tag; int r[12]; };
static bool looks2(int k) { return k == PEEK2 || k == PEEKREV || k == PEEKDEEP; }
static bool atplace(int k) { return k == DISCIT || k == DISCRIT; }
static bool walk(int k) { return k == ITER || k == CITER || k == BACK || k == CBACK; }
static bool reads(int k) { return walk(k) || k == TOPGET || k == SIZE || k == EMPTY || k == ITER || k == CITER || k == PEEK || k == STATS || k == FROMTOP || k == SEND || k == COPY || looks2(k); }
static int need(int k) { return k == POP || k == DISC || k == POPV || k == SETTOP || k == PEEK || k == FROMTOP || k == TOPGET ? 1 : k == POP2 || k == POPREV || atplace(k) || looks2(k) ? 2 : 0; }
static int takes(int k) { return k == POP || k == DISC || k == POPV ? 1 : k == POP2 || k == POPREV || atplace(k) ? 2 : 0; }
static bool known(int x) { return (x >= 10 && x < 10 + P_init + 2) || (x >= 100 && x < 140); }
template<typename It> static void iterate(It it) {
   try { int x; it.get(x); fsx_check(known(x), "a synchronised iterator only ever reads elements that were in the stack"); ++it; it.get(x); fsx_check(known(x), "a synchronised iterator only ever reads elements that were in the stack"); } catch (const std::exception&) {}
}
template<typename It> static void back(It it) {
   try { int x; ++it; It k(it); --k; k.get(x); fsx_check(known(x), "a synchronised iterator only ever reads elements that were in the stack"); it = k; --it; it.get(x); fsx_check(known(x), "a synchronised iterator only ever reads elements that were in the stack"); } catch (const std::exception&) {}
}
template<typename It> static void untilEnd(const S& s, It it) {
   try { if (it != s.csync_end()) { int x; it.get(x); fsx_check(known(x), "a synchronised iterator only ever reads elements that were in the stack"); } } catch (const std::exception&) {}
}
static void look(const S& s, int* r) { r[0] = (int)s.size(); fsx_check(r[0] < 11, "contents bounded"); int n = 0; for (auto it = s.crbegin(), e = s.crend(); it != e; ++it) r[++n] = *it; fsx_check(n == r[0], "the copy's size agrees with its contents"); }
static S::iterator* place; static S::reverse_iterator* rplace;                               // the second element from the top, as it was before
static void exec(S& s, Op& o) {
   int x = -1, y = -1; int* r = o.r; const S& c = s;
   switch (o.kind) {
   case PUSH: s.push(o.tag); break; case PUSH2: s.push(o.tag, o.tag + 1); break; case EMPL: s.push_emplace(o.tag); break;
   case POP: s.pop(x); r[0] = x; break; case POP2: s.pop(x, y); r[0] = x; r[1] = y; break; case POPREV: s.pop_reverse(x, y); r[0] = x; r[1] = y; break; case POPV: s.pop(); break;
   case DISC: s.discard((size_t)1); break; case CLEAR: s.clear(); break; case SIZE: r[0] = (int)c.size(); break; case EMPTY: r[0] = c.empty(); break;
   case SHRINK: s.shrink_to_fit(); break; case SETTOP: s.top(o.tag); break; case PEEK: c.peek(x); r[0] = x; break;
   case PEEK2: c.peek(x, y); r[0] = x; r[1] = y; break; case PEEKREV: c.peek_reverse(x, y); r[0] = x; r[1] = y; break; case PEEKDEEP: c.peek_depth(2, x, y); r[0] = x; r[1] = y; break;
   case STATS: { size_t blocks, depth, cur, data; c.getStats(blocks, depth, cur, data); fsx_check(cur >= 1 && cur <= blocks, "the current page is one of them"); r[0] = (int)((cur - 1) * depth + data); break; }
   case FROMTOP: (void)c.from_top(1); (void)s.from_top(1); break; case SEND: (void)c.csync_end(); (void)s.sync_end(); break; case DISCIT: s.discard(*place); break; case DISCRIT: s.discard(*rplace); break; case TOPGET: (void)c.top(); break;
   case COPY: { S t(c); look(t, r); break; } case MOVE: { S t(std::move(s)); look(t, r); break; } case ASSIGN: { S t(3, 2); t.push(o.tag); s = t; break; } case ASSIGNMOVE: { S t(1, 1); t.push(o.tag, o.tag + 1); s = std::move(t); break; }
   case ITER: iterate(s.sync_begin()); break; case CITER: untilEnd(c, c.csync_begin()); break; case BACK: back(s.sync_begin()); break; case CBACK: back(c.csync_begin()); break;
   }
}
struct M { int v[24]; int n; };
static bool replay(M& m, const Op& o) {                    // false: the recorded result is impossible here
   switch (o.kind) {
   case PUSH: case EMPL: m.v[m.n++] = o.tag; return true; case PUSH2: m.v[m.n++] = o.tag; m.v[m.n++] = o.tag + 1; return true;
   case POP: return o.r[0] == m.v[--m.n]; case POPV: case DISC: --m.n; return true; case DISCIT: case DISCRIT: m.n -= 2; return true;
   case POP2: m.n -= 2; return o.r[0] == m.v[m.n + 1] && o.r[1] == m.v[m.n]; case POPREV: m.n -= 2; return o.r[0] == m.v[m.n] && o.r[1] == m.v[m.n + 1];
   case CLEAR: m.n = 0; return true; case SIZE: return o.r[0] == m.n; case EMPTY: return o.r[0] == (m.n == 0);
   case SETTOP: m.v[m.n - 1] = o.tag; return true; case PEEK: return o.r[0] == m.v[m.n - 1];
   case PEEK2: return o.r[0] == m.v[m.n - 1] && o.r[1] == m.v[m.n - 2]; case PEEKREV: case PEEKDEEP: return o.r[0] == m.v[m.n - 2] && o.r[1] == m.v[m.n - 1]; case STATS: return o.r[0] == m.n;
   case COPY: case MOVE: { if (o.r[0] != m.n) return false; for (int k = 0; k < m.n; ++k) if (o.r[k + 1] != m.v[k]) return false; if (o.kind == MOVE) m.n = 0; return true; } case ASSIGN: m.v[0] = o.tag; m.n = 1; return true; case ASSIGNMOVE: m.v[0] = o.tag; m.v[1] = o.tag + 1; m.n = 2; return true;
   } return true;
}
static Op A[P_opsA], B[P_opsB]; static int fin[24], nfin;
static bool search(M m, int i, int j) {
   if (i == P_opsA && j == P_opsB) { if (m.n != nfin) return false; for (int k = 0; k < nfin; ++k) if (fin[k] != m.v[k]) return false; return true; }
   if (i < P_opsA) { M c = m; if (replay(c, A[i]) && search(c, i + 1, j)) return true; }
   if (j < P_opsB) { M c = m; if (replay(c, B[j]) && search(c, i, j + 1)) return true; }
   return false;
}
extern "C" void fsx_main() {
   unsigned ps = 1 + fsx_choose("pageSize", 2); int total = 0, most = 0; bool clears = false, replaced = false, walks = false;
   for (int i = 0; i < P_opsA; ++i) A[i] = {(int)fsx_choose("opA", NOPS), 100 + 4 * i, {-1}};
   for (int i = 0; i < P_opsB; ++i) B[i] = {(int)fsx_choose("opB", NOPS), 120 + 4 * i, {-1}};
   for (auto& o : A) { total += takes(o.kind); if (need(o.kind) > most) most = need(o.kind); clears |= o.kind == CLEAR || o.kind >= MOVE; replaced |= o.kind >= MOVE; walks |= walk(o.kind); }
   for (auto& o : B) { total += takes(o.kind); if (need(o.kind) > most) most = need(o.kind); clears |= o.kind == CLEAR || o.kind >= MOVE; replaced |= o.kind >= MOVE; walks |= walk(o.kind); }
   for (int i = 0; i < P_opsA; ++i) if (atplace(A[i].kind)) { for (int j = 0; j < i; ++j) fsx_assume(reads(A[j].kind)); for (auto& o : B) fsx_assume(reads(o.kind)); for (int j = 0; j < i; ++j) fsx_assume(!atplace(A[j].kind)); }   // (nothing else invalidates its iterator)
   for (auto& o : B) fsx_assume(!atplace(o.kind));
   fsx_assume(!(clears && most));                        // preconditions of the removals hold in every order
   fsx_assume(!(replaced && walks));                     // (which invalidates iterators)
   int init = total + (most == 1 && total == 0 ? 1 : 0) + (int)fsx_choose("spare", 2); if (most && init < total) init = total;
   fsx_assume(init <= P_init);
   bool settop = false; for (auto& o : A) settop |= o.kind == SETTOP || o.kind == PEEK || o.kind == FROMTOP || o.kind == TOPGET; for (auto& o : B) settop |= o.kind == SETTOP || o.kind == PEEK || o.kind == FROMTOP || o.kind == TOPGET;
   bool two = false; for (auto& o : A) two |= looks2(o.kind); for (auto& o : B) two |= looks2(o.kind);
   if (two) init += 2; else if (settop) ++init;
   S s(ps, 1); M m; m.n = 0;
   for (int i = 0; i < init; ++i) { s.push(10 + i); m.v[m.n++] = 10 + i; }
   S::iterator at = s.begin(); if (m.n > 1) ++at; place = &at; S::reverse_iterator rat = s.rbegin(); for (int i = 0; i + 2 < m.n; ++i) ++rat; rplace = &rat;
   std::thread a([&] { for (auto& o : A) exec(s, o); }), b([&] { for (auto& o : B) exec(s, o); });
   a.join(); b.join();
   nfin = 0; for (auto it = s.rbegin(), e = s.rend(); it != e; ++it) { fsx_check(nfin < 20, "contents bounded"); fin[nfin++] = *it; }
   fsx_check(search(m, 0, 0), "results and contents are those of some sequential order");
   fsx_check((int)s.size() == nfin, "size agrees with contents");
   size_t blocks, depth, cur, data; s.shrink_to_fit(); s.getStats(blocks, depth, cur, data); fsx_check(blocks == cur, "no synchronised iterator is counted any more");
   fsx_reach("end");
}
