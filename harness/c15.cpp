#include "fsx.h"
#include <falcon/engine/code.h>
#include <string>
#include <utility>
using namespace falcon;
static std::string symStr(const char* n, unsigned len) { std::string s; for (unsigned i = 0; i < len; ++i) s.push_back((char)fsx_u8(n)); return s; }
static const unsigned lens[] = {0, 1, 2, 15, 16, 40};
static std::string text() { unsigned l = lens[fsx_choose("len", P_lens)]; return symStr("c", l); }
struct M { std::string s; bool moved; };
static void ops() {
   long base = fsx_live();
   {
      Code* it[3] = {nullptr, nullptr, nullptr}; M m[3];
      for (int step = 0; step < P_ops; ++step) {
         unsigned op = fsx_choose("op", 6), a = fsx_choose("a", P_items), b = 0;
         if (op == 1 || op == 2 || op == 3 || op == 4) { b = fsx_choose("b", P_items); fsx_assume(it[b] != nullptr); }
         switch (op) {
         case 0: fsx_assume(!it[a]); m[a] = {text(), false}; it[a] = new Code(m[a].s, (int)step); break;
         case 1: fsx_assume(!it[a]); m[a] = m[b]; it[a] = new Code(*(const Code*)it[b]); fsx_reach("copy"); break;
         case 2: fsx_assume(!it[a]); m[a] = m[b]; it[a] = new Code(std::move(*it[b])); m[b].moved = true; fsx_reach("move"); break;
         case 3: fsx_assume(it[a] != nullptr); *it[a] = *it[b]; m[a] = m[b]; fsx_reach(a == b ? "self" : "assign"); break;
         case 4: fsx_assume(it[a] && a != b); *it[a] = std::move(*it[b]); m[a] = m[b]; m[b].moved = true; fsx_reach("moveassign"); break;
         case 5: fsx_assume(it[a] != nullptr); delete it[a]; it[a] = nullptr; break;
         }
         for (unsigned i = 0; i < 3; ++i) if (it[i]) { std::string t = it[i]->toString(); if (!m[i].moved) fsx_check(t == m[i].s, "a code object returns exactly its text"); }
      }
      for (unsigned i = 0; i < 3; ++i) delete it[i];
   }
   fsx_check(fsx_live() == base, "no memory is lost or freed twice");
   fsx_reach("ops");
}
static void lengths() {
   static const unsigned big[] = {0, 1, 15, 16, 17, 255, 256, 998, 999, 1000, 1001, 1024, 2047, 4095, 4096, 5000, 65535, 65536, 70000};
   unsigned n = big[fsx_choose("biglen", 19)]; std::string s(n, 'x'); for (unsigned i = 0; i < n; i += n > 64 ? n / 7 : 5) s[i] = (char)fsx_u8("c"); if (n) s[n - 1] = (char)fsx_u8("last");
   Code a(s, 1); std::string keep = s; s.clear(); fsx_check(a.toString() == keep, "text of any length is kept exactly"); Code b(a); Code c; c = b; Code d(std::move(a)); a.toString();
   fsx_check(b.toString() == keep && c.toString() == keep && d.toString() == keep, "and so do its copies"); b = d; a = c; fsx_check(a.toString() == keep && b.toString() == keep, "and assignees");
   Code e; fsx_check(e.toString().empty(), "default code is empty"); fsx_observe("n", a.toString().size()); fsx_reach("lengths");
}
extern "C" void fsx_main() { if (fsx_choose("part", 2)) lengths(); else ops(); }
