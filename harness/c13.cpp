#include "fsx.h"
#include <falcon/engine/item.h>
#include <string>
using namespace falcon;
static std::string symStr(const char* n, unsigned len) { std::string s; for (unsigned i = 0; i < len; ++i) s.push_back((char)fsx_u8(n)); return s; }
struct Ideal { int kind; std::string s; int64_t n; };               // 0 nil, 1 string, 2 bignum, 3 int
static void same(const Item& i, const Ideal& m) {
   switch (m.kind) {
   case 0: fsx_check(i.handler->typeName() == "Nil" && !i.toBool(), "nil item"); break;
   case 1: fsx_check(i.handler->typeName() == "String" && i.get<String>() == m.s && i.toString() == m.s && i.toBool() == !m.s.empty(), "the item keeps exactly its own string"); break;
   case 2: fsx_check(i.handler->typeName() == "BigNum" && i.toInt() == m.n && i.toBool() == (m.n != 0) && i.get<BigNum>() == BigNum(m.n), "the item keeps its own big number"); break;
   case 3: fsx_check(i.handler->typeName() == "Int" && i.toInt() == m.n, "integer item"); break;
   }
}
static void lifetimes() {
   long base = fsx_live();
   {
      Item* it[3] = {nullptr, nullptr, nullptr}; Ideal m[3];
      for (int step = 0; step < P_ops; ++step) {
         unsigned op = fsx_choose("op", 6), a = fsx_choose("a", P_items), b;
         switch (op) {
         case 0: fsx_assume(!it[a]); m[a] = {1, symStr("c", fsx_choose("len", 2) * (P_maxlen)), 0}; it[a] = new Item(m[a].s); break;
         case 1: fsx_assume(!it[a]); { static const int64_t ns[] = {0, 7, -123456789012345ll}; m[a] = {2, "", ns[fsx_choose("num", 3)]}; it[a] = new Item(BigNum(m[a].n)); fsx_reach("bignum"); break; }
         case 2: fsx_assume(!it[a]); b = fsx_choose("b", P_items); fsx_assume(it[b] != nullptr); m[a] = m[b]; it[a] = new Item(*(const Item*)it[b]); fsx_reach("copy"); break;
         case 3: b = fsx_choose("b", P_items); fsx_assume(it[a] && it[b]); *it[a] = *it[b]; m[a] = m[b]; fsx_reach(a == b ? "self" : "assign"); break;
         case 4: fsx_assume(it[a] != nullptr); delete it[a]; it[a] = nullptr; break;
         case 5: fsx_assume(!it[a]); m[a] = {3, "", fsx_int("i")}; it[a] = new Item((int64)m[a].n); break;
         }
         for (unsigned i = 0; i < 3; ++i) if (it[i]) same(*it[i], m[i]);
      }
      for (unsigned i = 0; i < 3; ++i) { delete it[i]; it[i] = nullptr; for (unsigned j = i + 1; j < 3; ++j) if (it[j]) same(*it[j], m[j]); }
   }
   fsx_check(fsx_live() == base, "each value is released exactly once");
   fsx_reach("lifetimes");
}
static void values() {
   std::string s = symStr("c", fsx_choose("len", P_len + 1)); const std::string keep = s;
   Item i(s); s += "changed";
   fsx_check(i.get<String>() == keep && i.toString() == keep && i.toBool() == !keep.empty(), "string item returns its content"); 
   int64_t v = i.toInt();                                            // never terminates, whatever the content
   bool num = !keep.empty(); int64_t want = 0; size_t p = 0; bool neg = false; if (num && keep[0] == '-') { neg = true; p = 1; num = keep.size() > 1; }
   for (; num && p < keep.size(); ++p) { if (keep[p] < '0' || keep[p] > '9') num = false; else want = want * 10 + (keep[p] - '0'); }
   if (num) { fsx_check(v == (neg ? -want : want), "a numeric string converts to the integer it denotes"); fsx_reach("number"); } else fsx_reach("nonnumber");
}
static void cstr() {
   char b[P_len + 1]; unsigned n = fsx_choose("len", P_len + 1); for (unsigned i = 0; i < n; ++i) { b[i] = (char)fsx_u8("c"); fsx_assume(b[i] != 0); } b[n] = 0; std::string keep(b);
   Item i((const char*)b); b[0] = 0; fsx_check(i.handler->typeName() == "String" && i.toString() == keep && i.toBool() == (n != 0), "item built from a C string keeps its own copy"); fsx_reach("cstr");
   static const struct { const char* t; int64_t v; } big[] = {{"9223372036854775807", INT64_MAX}, {"-9223372036854775808", INT64_MIN}, {"100", 100}, {"2147483648", 2147483648ll}, {"-4294967297", -4294967297ll}, {"0", 0}};
   unsigned k = fsx_choose("big", 7); if (k < 6) fsx_check(Item(big[k].t).toInt() == big[k].v, "limits convert"); else { Item x("99999999999999999999999"); x.toInt(); Item y("abc"); y.toInt(); }
}
static void bignum() {
   static const struct { const char* t; int64_t v; const char* out; } tab[] = {{"0", 0, "0"}, {"1", 1, "1"}, {"-1", -1, "-1"}, {"123456789012", 123456789012ll, "1.23457e+11"}, {"2147483648", 2147483648ll, "2.14748e+09"}, {"0.5", 0, "0.5"}, {"-7.9", -7, "-7.9"}, {"9007199254740993", 9007199254740993ll, "9.0072e+15"}};
   unsigned k = fsx_choose("num", 8); BigNum n(tab[k].t); Item i(n); Item j(i); n += 1;
   fsx_check(j.handler->typeName() == "BigNum", "big numbers are big numbers"); fsx_check(i.get<BigNum>() == BigNum(tab[k].t) && j.get<BigNum>() == BigNum(tab[k].t), "a big number item keeps its own value");
   fsx_check(i.toInt() == tab[k].v && j.toInt() == tab[k].v, "a big number converts to its integer part"); fsx_check(i.toBool() == (k != 0), "a big number is true when non-zero"); fsx_check(j.toString() == tab[k].out, "big number text"); fsx_reach("bigvalues");
}
// contents of any length, built, copied and assigned over shorter and longer ones
static void longer() {
   static const unsigned ls[] = {5, 15, 16, 22, 23, 31, 64, 255, 256, 1023, 4096, 65536, 70001}; long base = fsx_live();
   {
      unsigned l = ls[fsx_choose("long", 13)]; char fill = fsx_choose("fill", 2) ? 'x' : '\0'; std::string s = fsx_text("t", l, fill); unsigned how = fsx_choose("from", 2); Item i = how ? Item(s) : Item(s.c_str()); const std::string keep = how ? s : std::string(s.c_str()); s.assign(s.size(), 'y');
      fsx_check(i.get<String>() == keep && i.toString() == keep && i.toBool(), "a long string is kept"); i.toInt();
      Item* c = new Item(i); fsx_check(c->get<String>() == keep, "and copied"); Item o(fsx_choose("other", 2) ? Item("ab") : Item(std::string(300, 'z'))); Item o2(o); o = *c; delete c; fsx_check(o.get<String>() == keep && i.get<String>() == keep, "and assigned"); i = o2; fsx_check(i.toString() == o2.toString() && o.toString() == keep, "independently"); o = *&o; fsx_check(o.toString() == keep, "also onto itself");
   }
   fsx_check(fsx_live() == base, "each value is released exactly once"); fsx_reach("longer");
}
extern "C" void fsx_main() {
#if P_mode == 0
   lifetimes();
#else
   switch (fsx_choose("part", 4)) { case 0: values(); break; case 1: cstr(); break; case 2: bignum(); break; default: longer(); }
#endif
}
