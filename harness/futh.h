#pragma once
#include "fsx.h"
#include <falcon/fut/fut.h>
#include <falcon/fut/timelapse.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/time.h>
#include <time.h>
using falcon::testing::TestCase;
using falcon::testing::UnitTest;
// the system clock: what the harness sets
#ifndef FUTH_NO_CLOCK
static long clk_sec = 1000, clk_usec = 0; static int clk_calls;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { ++clk_calls; tv->tv_sec = clk_sec; tv->tv_usec = clk_usec; return 0; }
#endif
// the standard streams' buffers while a run is observed
struct Watch { std::stringbuf o, e; std::streambuf *so, *se; Watch() : so(std::cout.rdbuf(&o)), se(std::cerr.rdbuf(&e)) {} ~Watch() { std::cout.rdbuf(so); std::cerr.rdbuf(se); } bool restored() { return std::cout.rdbuf() == &o && std::cerr.rdbuf() == &e; } };
static inline bool has(const std::string& s, const std::string& t) { return s.find(t) != std::string::npos; }
static inline int occurrences(const std::string& s, const std::string& t) { int n = 0; for (size_t i = s.find(t); i != std::string::npos; i = s.find(t, i + t.size())) ++n; return n; }
static inline bool eqs(const char* a, const std::string& b) { size_t n = strlen(a); if (n != b.size()) return false; unsigned char d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
