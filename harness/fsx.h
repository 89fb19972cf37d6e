// Harness interface: symbolic inputs, assumptions, assertions. Implemented by the symbolic engine, and natively
// (rt/native.cpp) for replaying counterexamples and witnesses against the real build.
#pragma once
#include <cstdint>
#include <cstddef>
#ifdef __cplusplus   // headers under test may come after others in their users, and rely on them
#include <algorithm>
#include <cassert>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
#endif
extern "C" {
uint64_t fsx_sym(const char* name, unsigned bits);
void fsx_assume(int c);
void fsx_check(int c, const char* msg);
void fsx_reach(const char* label);
void fsx_observe(const char* tag, uint64_t v);
long fsx_live(void);               // allocations outstanding (operator new family, malloc)
long fsx_param(const char* name, long dflt);
uint64_t fsx_conc(uint64_t v);     // fork over the feasible values of v
int fsx_symbolic(void);            // 1 under the engine, 0 natively
void fsx_fail_alloc(long n);       // the n-th next allocation fails (1 = next); <=0 none
long fsx_file_read(const char* name, char* buf, long cap);   // contents of a file written by the code, -1 if there is none
void fsx_dirty(void);              // leaves the unused part of the stack with arbitrary contents (it always has, under the engine)
void fsx_main(void);
}
static inline int fsx_int(const char* n) { return (int)(uint32_t)fsx_sym(n, 32); }
static inline unsigned char fsx_u8(const char* n) { return (unsigned char)fsx_sym(n, 8); }
static inline int64_t fsx_i64(const char* n) { return (int64_t)fsx_sym(n, 64); }
// symbolic value in [0,n): kept symbolic
static inline unsigned fsx_below(const char* name, unsigned n) { unsigned v = (unsigned)fsx_sym(name, 8); fsx_assume(v < n); return v; }
#include <string>
// a text of the given length with symbolic bytes at its start, middle and end
static inline std::string fsx_text(const char* name, unsigned len, char fill = 'x') { std::string s(len, fill); if (len) for (unsigned at : {0u, len / 2, len - 1}) { unsigned char c = fsx_u8(name); fsx_assume(c > 32 && c < 127 && c != '/'); s[at] = (char)c; } return s; }
// choice in [0,n): one path per value
static inline unsigned fsx_choose(const char* name, unsigned n) { return (unsigned)fsx_conc(fsx_below(name, n)); }
