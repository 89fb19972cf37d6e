#pragma once
#include "fsx.h"
#include <falcon/logsystem.h>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <regex>
#include <sstream>
#include <string>
#include <vector>
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;
// a listener that records what it is given; a message with the text "#END" is only signalled
struct Rec : LogSystem::Listener {
   std::mutex mx; std::condition_variable cv; std::vector<LogSystem::Message> got; int ends = 0, *gone = nullptr;
   Rec(int* g = nullptr) : gone(g) {}
   ~Rec() { if (gone) ++*gone; }
   void onMessage(const LogSystem::Message& m) override { std::lock_guard<std::mutex> g(mx); if (m.m_message == "#END") { ++ends; cv.notify_all(); } else got.push_back(m); }
   void wait(int n = 1) { std::unique_lock<std::mutex> l(mx); while (ends < n) cv.wait(l); }
   size_t count() { std::lock_guard<std::mutex> g(mx); return got.size(); }
};
static inline void endMark(LogSystem& s) { s.log("e", 0, LEVEL::CRITICAL, "", "#END"); }
static inline bool same(const LogSystem::Message& m, const std::string& f, int line, LEVEL l, const std::string& c, const std::string& t) { return m.m_file == f && m.m_line == line && m.m_level == l && m.m_category == c && m.m_message == t; }
// standard streams captured: nothing may be written on them
struct Quiet { std::stringbuf o, e, l; std::streambuf *so, *se, *sl; Quiet() : so(std::cout.rdbuf(&o)), se(std::cerr.rdbuf(&e)), sl(std::clog.rdbuf(&l)) {} ~Quiet() { std::cout.rdbuf(so); std::cerr.rdbuf(se); std::clog.rdbuf(sl); } bool ok() { return o.str().empty() && e.str().empty() && l.str().empty(); } };
