#include "fsx.h"
#include <falcon/engine/item.h>
#include <stdexcept>
#include <string>
#include <locale>
using namespace falcon;
// the application's global C++ locale: the classic one, or one with its own punctuation of numbers
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\1"; } };
struct Global { std::locale old; bool set; Global(bool s) : set(s) { if (s) old = std::locale::global(std::locale(std::locale(), new Punct)); } ~Global() { if (set) std::locale::global(old); } };
// decimal text read back independently
static bool denotes(const std::string& s, int64_t v) {
   size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { neg = true; ++i; }
   if (i == s.size() || s.size() - i > 19) return false;
   if (s[i] == '0' && (s.size() - i > 1 || neg)) return false;
   uint64_t u = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; u = u * 10 + (uint64_t)(s[i] - '0'); }
   return (int64_t)(neg ? 0 - u : u) == v;
}
template<typename T> static void ints(T v, bool text) {
   Item it(v); const Item& c = it;
   fsx_check(c.handler->typeName() == "Int", "integer items are integers");
   fsx_check(c.get<int64>() == (int64)v, "the value reads back"); fsx_check(c.get<uint64>() == (uint64)(int64)v, "the value reads back unsigned");
   fsx_check(c.toInt() == (int64)v, "integer conversion is the value"); fsx_check(c.toBool() == (v != 0), "truth is being non-zero");
   if (text) fsx_check(denotes(c.toString(), (int64)v), "text is the decimal form");
}
static int64_t near() {                        // values around every power-of-two and decimal boundary, decided symbolically
   static const int64_t bases[] = {0, 100, 1000, 999999999, 0x7fffffff, 0xffffffffll, -0x80000000ll, 10000000000ll, 1000000000000000ll, INT64_MAX - 9, INT64_MIN, -1000000};
   return bases[fsx_choose("base", 12)];
}
extern "C" void fsx_main() {
   unsigned k = fsx_choose("type", 13);
   fsx_observe("type", k);
   switch (k) {
   case 0: { bool b = fsx_u8("b") & 1; Item i(b); fsx_check(i.handler->typeName() == "Bool", "booleans are booleans"); fsx_check(i.get<bool>() == b && i.toBool() == b && i.toInt() == (b ? 1 : 0), "boolean value"); fsx_check(i.toString() == (b ? "true" : "false"), "boolean text"); break; }
   case 1: ints<char>((char)fsx_u8("c"), true); break;
   case 2: ints<byte>(fsx_u8("c"), true); break;
   case 3: ints<int32>(fsx_int("i"), false); break;
   case 4: ints<uint32>((uint32)fsx_int("i"), false); break;
   case 5: ints<int64>(fsx_i64("l"), false); break;
   case 6: { uint64 v = (uint64)fsx_i64("u"); Item i(v); fsx_check(i.handler->typeName() == "Int" && i.get<uint64>() == v && i.get<int64>() == (int64)v && i.toInt() == (int64)v && i.toBool() == (v != 0), "unsigned 64-bit value"); break; }
   case 7: {                                    // text
      int64_t d = fsx_i64("d"); fsx_assume(d >= 0 && d < P_span); int64_t v = near(); v = v > 0 ? v - (v == 0x7fffffff || v == 0xffffffffll ? P_span / 2 : 0) + (v > INT64_MAX - P_span ? 0 : d) : v + d;
      Global g(fsx_choose("locale", 2)); ints<int64>(v, true); fsx_reach("text"); if (g.set) fsx_reach("locale"); break; }
   case 8: {                                    // floating point
      uint64_t bits = fsx_sym("f", 64); double x; __builtin_memcpy(&x, &bits, 8); fsx_assume(x == x && x > -9.2e18 && x < 9.2e18);
      Item i(x); fsx_check(i.handler->typeName() == "Float", "numerics are floats");
      double y = i.get<numeric>(); uint64_t yb; __builtin_memcpy(&yb, &y, 8); fsx_check(yb == bits, "the numeric reads back exactly");
      fsx_check(i.toBool() == (x != 0.0), "truth of a numeric is being non-zero"); fsx_check(i.toInt() == (int64_t)x, "integer conversion truncates toward zero"); fsx_reach("float"); break; }
   case 9: {                                    // numeric text and limits
      static const struct { double v; const char* t; } tab[] = {{0.0, "0"}, {1.5, "1.5"}, {-2.25, "-2.25"}, {1e10, "1e+10"}, {123456, "123456"}, {1234567, "1.23457e+06"}, {1e-5, "1e-05"}, {0.1, "0.1"}, {-100, "-100"}, {1e300, "1e+300"}, {2147483648.0, "2.14748e+09"}};
      unsigned n = fsx_choose("num", 11); Global g(fsx_choose("locale", 2)); Item i(tab[n].v); fsx_check(i.toString() == tab[n].t, "numeric text is the usual form");
      if (n != 9) fsx_check(i.toInt() == (int64_t)tab[n].v, "numeric limit converts"); break; }
   case 10: {
      Item i; fsx_check(i.handler->typeName() == "Nil" && !i.toBool() && i.toInt() == 0 && i.toString() == "nil", "default items are nil, false, zero"); Item j(i); fsx_check(j.toString() == "nil" && j.handler == i.handler, "a copy of nil is nil");
      int64_t v = fsx_i64("v"); Item a(v == v ? (int64)v : 0); Item b(a); i = a; fsx_check(b.get<int64>() == v && i.get<int64>() == v && i.handler->typeName() == "Int", "copied scalars keep type and value"); fsx_reach("nil"); break; }
   case 11: {                                   // types that items do not hold
      unsigned n = fsx_choose("what", 5); int refused = 0;
      try { if (n == 0) { Item i((short)fsx_u8("c")); } else if (n == 1) { Item i(1.0f); } else { Item i((int64)fsx_i64("v")); if (n == 2) (void)i.get<short>(); else if (n == 3) (void)i.get<float>(); else (void)i.get<const char*>(); } }
      catch (const std::invalid_argument&) { ++refused; }
      fsx_check(refused == 1, "a type that items do not hold is refused"); fsx_reach("refused"); break; }
   case 12: {                                   // raw data
      int x = 0; ItemData d(&x), n(nullptr); const int* c = &x; ItemData e(c); fsx_check(d.ptrValue == &x && e.ptrValue == &x, "data made from a pointer is that pointer"); fsx_check(n.ptrValue == nullptr, "data made from the null pointer is null");
      std::string s("a"); ItemData o(s); fsx_check(o.ptrValue == &s, "data made from an object refers to it");
      int64 v = fsx_i64("v"); ItemData q(v); fsx_check(q.int64Value == v, "data made from a number is that number"); fsx_reach("data"); break; }
   }
}
