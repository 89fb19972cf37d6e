#include "futh.h"
#include <stdexcept>
struct W { int v; };                             // a user type: comparable and printable
static bool operator==(W a, W b) { return a.v == b.v; } static bool operator!=(W a, W b) { return a.v != b.v; } static bool operator<(W a, W b) { return a.v < b.v; }
static bool operator>(W a, W b) { return a.v > b.v; } static bool operator<=(W a, W b) { return a.v <= b.v; } static bool operator>=(W a, W b) { return a.v >= b.v; }
static std::ostream& operator<<(std::ostream& o, W) { return o << "<W>"; }
struct Custom : std::runtime_error { Custom() : std::runtime_error("custom") {} };
static int evals;
static int once(int v) { ++evals; return v; }
static void thrower(unsigned k) { switch (k) { case 0: return; case 1: throw std::runtime_error("rt"); case 2: throw std::logic_error("lg"); case 3: throw 7; case 4: throw Custom(); default: throw (const char*)"text"; } }
struct Base : TestCase { int line = 0; bool after = false; W a{0}, b{0}; int i = 0, j = 0, k = 0; char c = 0, d = 0; double x = 0, y = 0, z = 0; int64_t l = 0, m = 0; unsigned u = 0, v = 0; std::string s, t; unsigned th = 0; };
// runs a test body and compares what it recorded with what the check should have done
static void judge(Base& t, bool holds, const char* text, const char* actual, bool must = true) {
   Watch w; t.beginTest(true); t.run(); t.endTest(true);
   fsx_check(w.restored() && w.o.str().empty() && w.e.str().empty() && !*t.capturedOut() && !*t.capturedErr(), "checks write nothing");
   if (holds) { fsx_check(t.status() == TestCase::SUCCESS, "a check that holds does not fail its test"); fsx_check(t.after, "the test goes on after a check that holds"); fsx_check(!*t.failDesc() && !*t.failFile(), "a check that holds records nothing"); fsx_reach("holds"); return; }
   fsx_check(t.status() == TestCase::FAIL || (!must && t.status() == TestCase::ERROR), "a check that doesn't hold fails its test"); fsx_check(!t.after, "the test stops at the first failure"); fsx_reach("fails");
   if (!must) return;
   fsx_check(t.failLine() == t.line, "the line of the check is recorded"); fsx_check(!strcmp(t.failFile(), "c26.cpp"), "the file of the check is recorded"); 
   if (text) fsx_check(has(t.failDesc(), text), "the expression is recorded"); else fsx_check(*t.failDesc() != 0, "the failure is described");
   if (actual) { std::string dsc = t.failDesc(); size_t p = dsc.find(text); fsx_check(p != std::string::npos && has(dsc.substr(p + strlen(text)), actual), "the actual value is recorded"); }
}
#define BODY(N, ...) struct N : Base { void test() override { line = __LINE__; __VA_ARGS__; after = true; } };
BODY(Eq, EXPECT_EQ(a, b)) BODY(Ne, EXPECT_NE(a, b)) BODY(Gt, EXPECT_GT(a, b)) BODY(Ge, EXPECT_GE(a, b)) BODY(Lt, EXPECT_LT(a, b)) BODY(Le, EXPECT_LE(a, b))
BODY(IEq, EXPECT_EQ(i, j)) BODY(INe, EXPECT_NE(i, j)) BODY(IGt, EXPECT_GT(i, j)) BODY(IGe, EXPECT_GE(i, j)) BODY(ILt, EXPECT_LT(i, j)) BODY(ILe, EXPECT_LE(i, j))
BODY(CEq, EXPECT_EQ(c, d)) BODY(CLt, EXPECT_LT(c, d)) BODY(True, EXPECT_TRUE(i)) BODY(False, EXPECT_FALSE(i))
BODY(XEq, EXPECT_EQ(i | 1, j ? j : 1)) BODY(XLt, EXPECT_LT(i & 3, j & 3)) BODY(XTrue, EXPECT_TRUE(i == 1 || j == 2)) BODY(XFalse, EXPECT_FALSE(i == 1 || j == 2)) BODY(XCond, EXPECT_TRUE(i ? j : k))
BODY(LEq, EXPECT_EQ(l, m)) BODY(LNe, EXPECT_NE(l, m)) BODY(LGt, EXPECT_GT(l, m)) BODY(LGe, EXPECT_GE(l, m)) BODY(LLt, EXPECT_LT(l, m)) BODY(LLe, EXPECT_LE(l, m)) BODY(LTrue, EXPECT_TRUE(m)) BODY(LFalse, EXPECT_FALSE(m))
BODY(UEq, EXPECT_EQ(u, v)) BODY(UNe, EXPECT_NE(u, v)) BODY(UGt, EXPECT_GT(u, v)) BODY(UGe, EXPECT_GE(u, v)) BODY(ULt, EXPECT_LT(u, v)) BODY(ULe, EXPECT_LE(u, v)) BODY(UTrue, EXPECT_TRUE(v)) BODY(UFalse, EXPECT_FALSE(v))
BODY(DEq, EXPECT_EQ(x, y)) BODY(DNe, EXPECT_NE(x, y)) BODY(DGt, EXPECT_GT(x, y)) BODY(DGe, EXPECT_GE(x, y)) BODY(DLt, EXPECT_LT(x, y)) BODY(DLe, EXPECT_LE(x, y)) BODY(DTrue, EXPECT_TRUE(y)) BODY(DFalse, EXPECT_FALSE(y))
BODY(SEq, EXPECT_EQ(s, t)) BODY(SNe, EXPECT_NE(s, t)) BODY(SLt, EXPECT_LT(s, t))
BODY(StrEq, EXPECT_STREQ(s, t)) BODY(StrNe, EXPECT_STRNE(s, t)) BODY(CStrEq, EXPECT_STREQ(s.c_str(), t.c_str())) BODY(CStrNe, EXPECT_STRNE(s.c_str(), t.c_str()))
BODY(FEq, EXPECT_FLOAT_EQ(x, y)) BODY(FNe, EXPECT_FLOAT_NE(x, y)) BODY(FXEq, EXPECT_FLOAT_EQ(x + z, y)) BODY(FXNe, EXPECT_FLOAT_NE(x, y - z)) BODY(FTern, EXPECT_FLOAT_EQ(x, i ? y : z))
BODY(Once, EXPECT_EQ(once(i), once(i)); EXPECT_NE(once(1), once(2)); EXPECT_GT(once(2), once(1)); EXPECT_GE(once(2), once(1)); EXPECT_LT(once(1), once(2)); EXPECT_LE(once(1), once(1)); EXPECT_TRUE(once(1)); EXPECT_FALSE(once(0)); EXPECT_FLOAT_EQ(once(1), once(1)); EXPECT_FLOAT_NE(once(1), once(2)); EXPECT_NO_THROW(once(1)))
BODY(ThRt, EXPECT_THROW(thrower(th), std::runtime_error)) BODY(ThEx, EXPECT_THROW(thrower(th), std::exception)) BODY(ThInt, EXPECT_THROW({ int q = 0; q += 1; thrower(th); (void)q; }, int)) BODY(ThCu, EXPECT_THROW(thrower(th), Custom))
BODY(ThAny, EXPECT_ANY_THROW(thrower(th))) BODY(ThNo, EXPECT_NO_THROW(thrower(th))) BODY(ThNo2, EXPECT_NO_THROW({ int q = 1; thrower(th); (void)q; }))
struct Fail1 : Base { void test() override { line = __LINE__; FAIL("a message"); } };
struct Second : Base { void test() override { EXPECT_EQ(i, 1); after = true; line = __LINE__; EXPECT_EQ(2, j); k = 1; } };
static double dsym(const char* n) { uint64_t u = fsx_sym(n, 64); double v; memcpy(&v, &u, 8); fsx_assume(v == v && v - v == 0); return v; }
static std::string str(const char* n) { std::string r; unsigned l = fsx_choose("len", P_len + 1); for (unsigned q = 0; q < l; ++q) { unsigned char ch = fsx_u8(n); fsx_assume(ch != 0); r.push_back((char)ch); } return r; }
static bool eq2(const std::string& a, const std::string& b) { return eqs(a.c_str(), b); }
extern "C" void fsx_main() {
   long base = fsx_live();
   {
   unsigned part = fsx_choose("part", 10);
   if (part == 0) {                                // every 32-bit value
      int a = fsx_int("a"), b = fsx_int("b");
      switch (fsx_choose("op", 6)) {
#define RUN(T, OP) { T t; t.a.v = a; t.b.v = b; judge(t, a OP b, "a " #OP " b", "<W>"); break; }
      case 0: RUN(Eq, ==) case 1: RUN(Ne, !=) case 2: RUN(Gt, >) case 3: RUN(Ge, >=) case 4: RUN(Lt, <) default: RUN(Le, <=)
      }
   } else if (part == 1) {                         // actual values in the record
      static const int vs[] = {0, 5, -1, 1000000, -2147483647 - 1, 2147483647}; int i = vs[fsx_choose("i", 6)], j = vs[fsx_choose("j", 6)]; char tx[16]; snprintf(tx, sizeof tx, "%d", j);
      switch (fsx_choose("op", 8)) {
#define RUNI(T, OP) { T t; t.i = i; t.j = j; judge(t, i OP j, "i " #OP " j", tx); break; }
      case 0: RUNI(IEq, ==) case 1: RUNI(INe, !=) case 2: RUNI(IGt, >) case 3: RUNI(IGe, >=) case 4: RUNI(ILt, <) case 5: RUNI(ILe, <=)
      case 6: { True t; t.i = j; judge(t, j != 0, "i", tx); break; }
      default: { False t; t.i = j; judge(t, j == 0, "i", tx); break; }
      }
   } else if (part == 2) {                         // characters, whose text is symbolic
      char c = (char)fsx_u8("c"), d = (char)fsx_u8("d"); fsx_assume(d != 0); std::string tx(1, d);
      if (fsx_choose("op", 2)) { CEq t; t.c = c; t.d = d; judge(t, c == d, "c == d", tx.c_str()); } else { CLt t; t.c = c; t.d = d; judge(t, c < d, "c < d", tx.c_str()); }
   } else if (part == 3) {                         // whole expressions
      int i = (int)fsx_choose("i", 4), j = (int)fsx_choose("j", 4), k = (int)fsx_choose("k", 2);
      switch (fsx_choose("op", 5)) {
      case 0: { XEq t; t.i = i; t.j = j; judge(t, (i | 1) == (j ? j : 1), "i | 1 == j ? j : 1", nullptr); break; }
      case 1: { XLt t; t.i = i; t.j = j; judge(t, (i & 3) < (j & 3), "i & 3 < j & 3", nullptr); break; }
      case 2: { XTrue t; t.i = i; t.j = j; judge(t, i == 1 || j == 2, "i == 1 || j == 2", nullptr); break; }
      case 3: { XFalse t; t.i = i; t.j = j; judge(t, !(i == 1 || j == 2), "i == 1 || j == 2", nullptr); break; }
      default: { XCond t; t.i = i; t.j = j; t.k = k; judge(t, i ? j != 0 : k != 0, "i ? j : k", nullptr); break; }
      }
   } else if (part == 4) {                         // strings
      std::string s = str("s"), u = str("t"); bool e = eq2(s, u);
      switch (fsx_choose("op", 4)) {
      case 0: { StrEq t; t.s = s; t.t = u; judge(t, e, "s", nullptr); break; }
      case 1: { StrNe t; t.s = s; t.t = u; judge(t, !e, "s", nullptr); break; }
      case 2: { CStrEq t; t.s = s; t.t = u; judge(t, e, "s.c_str()", nullptr); break; }
      default: { CStrNe t; t.s = s; t.t = u; judge(t, !e, "s.c_str()", nullptr); break; }
      }
   } else if (part == 5) {                         // floating point
      double x, y, z; unsigned kind = fsx_choose("values", 3); const char* ftx = nullptr;
      if (kind == 0) { static const double v[] = {0, 1, 0.99999, 1.00005, 1.0002, -1, -0.00005, 0.00005, 1e15, 2e15, 1e15 + 1, 1e300, -1e300, 33.333333, 100.0 / 3}; x = v[fsx_choose("x", 15)]; y = v[fsx_choose("y", 15)]; z = 0.5; }
      else if (kind == 1) { x = dsym("x"); static const double v[] = {0, 1, -2.5, 1e10}; unsigned yi = fsx_choose("y", 5); y = yi < 4 ? v[yi] : dsym("y2"); z = 0; }
      else { x = 1.25 * fsx_choose("x", 3); z = 0.5 * fsx_choose("z", 3); unsigned yi = fsx_choose("y", 4); y = 0.75 * yi; static const char* const ft[] = {"0", "0.75", "1.5", "2.25"}; ftx = ft[yi]; }
      double df = x < y ? y - x : x - y; bool eq = df < 0.0001;
      switch (fsx_choose("op", kind == 1 ? 2 : 5)) {
      case 0: { FEq t; t.x = x; t.y = y; judge(t, eq, ftx ? "x" : nullptr, ftx); break; }
      case 1: { FNe t; t.x = x; t.y = y; judge(t, !eq, ftx ? "x" : nullptr, ftx); break; }
      case 2: { FXEq t; t.x = x; t.y = y; t.z = z; double q = x + z; df = q < y ? y - q : q - y; judge(t, df < 0.0001, "x + z == y", nullptr); break; }
      case 3: { FXNe t; t.x = x; t.y = y; t.z = z; double q = y - z; df = q < x ? x - q : q - x; judge(t, df >= 0.0001, "x != y - z", nullptr); break; }
      default: { FTern t; t.x = x; t.y = y; t.z = z; t.i = (int)fsx_choose("i", 2); double q = t.i ? y : z; df = q < x ? x - q : q - x; judge(t, df < 0.0001, "x == i ? y : z", nullptr); break; }
      }
      fsx_reach("float");
   } else if (part == 6) {                         // exceptions
      unsigned th = fsx_choose("thrown", 6); bool rt = th == 1 || th == 4, ex = rt || th == 2;
      switch (fsx_choose("op", 7)) {
#define RUNT(T, H) { T t; t.th = th; judge(t, H, nullptr, nullptr, false); break; }
      case 0: RUNT(ThRt, rt) case 1: RUNT(ThEx, ex) case 2: RUNT(ThInt, th == 3) case 3: RUNT(ThCu, th == 4) case 4: RUNT(ThAny, th != 0) case 5: RUNT(ThNo, th == 0) default: RUNT(ThNo2, th == 0)
      }
      fsx_reach("throw");
   } else if (part == 8) {                         // long strings, equal, different at the end, or one the beginning of the other
      static const unsigned ls[] = {15, 16, 64, 255, 256, 1024, 5000}; unsigned n = ls[fsx_choose("long", 7)]; std::string s = fsx_text("s", n), u = s; switch (fsx_choose("differs", 4)) { case 0: break; case 1: u[n - 1] = '!'; break; case 2: u.pop_back(); break; default: u.push_back('+'); } bool e = s.size() == u.size() && !memcmp(s.data(), u.data(), n);
      switch (fsx_choose("op", 7)) {
#define RUNS(T, H, A) { T t; t.s = s; t.t = u; judge(t, H, A, u.c_str()); break; }
      case 0: RUNS(StrEq, e, "s") case 1: RUNS(StrNe, !e, "s") case 2: RUNS(CStrEq, e, "s.c_str()") case 3: RUNS(CStrNe, !e, "s.c_str()") case 4: RUNS(SEq, e, "s == t") case 5: RUNS(SNe, !e, "s != t") default: RUNS(SLt, s < u, "s < t")
      }
      fsx_reach("long");
   } else if (part == 9) {                         // operands of other types
      unsigned type = fsx_choose("type", 3), op = fsx_choose("op", 8);
#define OPS(P, F, A, B, TX) switch (op) { case 0: RUNO(P##Eq, A == B, #F " == ") case 1: RUNO(P##Ne, A != B, "") case 2: RUNO(P##Gt, A > B, "") case 3: RUNO(P##Ge, A >= B, "") case 4: RUNO(P##Lt, A < B, "") case 5: RUNO(P##Le, A <= B, "") case 6: RUNO(P##True, B != 0, "") default: RUNO(P##False, B == 0, "") }
      if (type == 0) { static const int64_t vs[] = {0, 1, -1, 4294967296ll, 4294967297ll, -4294967296ll, INT64_MIN, INT64_MAX}; int64_t a = vs[fsx_choose("a", 8)], b = vs[fsx_choose("b", 8)]; std::string tx = std::to_string(b);
#define RUNO(T, H, X) { T t; t.l = a; t.m = b; judge(t, H, "m", tx.c_str()); break; }
         OPS(L, l, a, b, tx)
#undef RUNO
      } else if (type == 1) { static const unsigned vs[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu}; unsigned a = vs[fsx_choose("a", 5)], b = vs[fsx_choose("b", 5)]; std::string tx = std::to_string(b);
#define RUNO(T, H, X) { T t; t.u = a; t.v = b; judge(t, H, "v", tx.c_str()); break; }
         OPS(U, u, a, b, tx)
#undef RUNO
      } else { static const double vs[] = {0, 0.5, 0.50001, -1.25, 1e300, 0.25}; static const char* const tv[] = {"0", "0.5", "0.50001", "-1.25", "1e+300", "0.25"}; double a = vs[fsx_choose("a", 6)]; unsigned bi = fsx_choose("b", 6); double b = vs[bi]; const char* tx = tv[bi];
#define RUNO(T, H, X) { T t; t.x = a; t.y = b; judge(t, H, "y", tx); break; }
         OPS(D, x, a, b, tx)
      }
      fsx_reach("types");
   } else {                                        // explicit failure, several checks, single evaluation
      switch (fsx_choose("kind", 3)) {
      case 0: { Fail1 t; judge(t, false, "a message", nullptr); break; }
      case 1: { Once t; t.i = fsx_int("i"); judge(t, true, nullptr, nullptr); fsx_check(evals == 19, "arguments of a check that holds are evaluated once"); break; }
      default: { int i = fsx_int("i"), j = fsx_int("j"); fsx_assume(i == 1); fsx_assume(j >= 0 && j < 10); Second t; t.i = i; t.j = j; Watch w; t.beginTest(true); t.run(); t.endTest(true); fsx_check(t.after, "the first check holds"); fsx_check((t.status() == TestCase::SUCCESS) == (j == 2), "the second decides"); fsx_check(t.k == (j == 2), "and stops the test"); if (j != 2) fsx_check(t.failLine() == t.line && has(t.failDesc(), "2 == j"), "its record is the second's"); break; }
      }
      fsx_reach("mixed");
   }
   }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
