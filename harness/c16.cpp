#include "fsx.h"
#include <falcon/engine/compiler.h>
#include <sstream>
#include <string>
using namespace falcon;
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// long tokens: sizes around the usual buffer boundaries, with symbolic bytes at either end
static void longer() {
   static const unsigned sizes[] = {7, 15, 16, 31, 63, 64, 127, 255, 256, 511, 513, 1023, 1024, 1025, 4095, 4097, 8193, 65535, 65536, 70000};
   unsigned n = sizes[fsx_choose("size", 20)], lead = fsx_choose("lead", 2) ? n : 0; std::string tok(n, 'x'); for (unsigned at : {0u, n / 2, n - 1}) { unsigned char c = fsx_u8("c"); fsx_assume(!ws(c)); tok[at] = (char)c; }
   std::string in(lead, ' '); in += tok; bool more = fsx_choose("more", 2); if (more) in += "\nnext"; std::istringstream is(in); Compiler comp;
   Code c = comp.compile(is); fsx_check(c.toString() == tok, "a token of any length is read whole"); fsx_check(is.eof() == !more, "and nothing beyond it");
   Code d = comp.compile(is); fsx_check(d.toString() == (more ? "next" : ""), "the next compilation continues after it"); Code e = comp.compile(is); fsx_check(e.toString().empty(), "no token left: the code is empty");
   fsx_observe("size", c.toString().size()); fsx_reach("longer");
}
extern "C" void fsx_main() {
   if (fsx_choose("part", 2)) return longer();
   unsigned n = fsx_choose("len", P_len + 1); std::string in; for (unsigned i = 0; i < n; ++i) in.push_back((char)fsx_u8("c"));
   std::istringstream is(in); Compiler comp; unsigned pos = 0; bool dead = false; unsigned preset = fsx_choose("state", 3);
   if (preset == 1) is.setstate(std::ios::failbit); else if (preset == 2) is.setstate(std::ios::eofbit);
   if (preset) dead = true;
   for (int k = 0; k < P_compiles; ++k) {
      Code c = comp.compile(is); std::string want;
      if (!dead) { while (pos < n && ws(in[pos])) ++pos; while (pos < n && !ws(in[pos])) want.push_back(in[pos++]); if (pos == n) dead = true; }
      fsx_check(c.toString() == want, want.empty() ? "no token left: the code is empty" : "the code is the next token"); if (!want.empty()) fsx_reach(k ? "second" : "first"); else fsx_reach("none");
      if (!dead) fsx_check(is.good() && (unsigned)is.tellg() == pos, "reading stops right after the token");
   }
   fsx_observe("pos", pos); fsx_reach("end");
}
