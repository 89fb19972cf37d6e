#include "log.h"
#include <falcon/logstream.h>
#include <ctime>
#include <iomanip>
#include <thread>
// the time of day, made symbolic: every date field in its documented range
static struct tm now_tm; static int outs[4], deads[4];
static long clk() { return now_tm.tm_sec + 60l * (now_tm.tm_min + 60l * (now_tm.tm_hour + 24l * (now_tm.tm_mday + 31l * (now_tm.tm_mon + 12l * now_tm.tm_year)))); } // one second for each date
extern "C" time_t time(time_t* p) noexcept { time_t t = clk(); if (p) *p = t; return t; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = clk(); t->tv_nsec = 0; return 0; }
extern "C" struct tm* localtime(const time_t*) noexcept { static struct tm t; t = now_tm; return &t; }
extern "C" struct tm* localtime_r(const time_t*, struct tm* r) noexcept { *r = now_tm; return r; }
struct Out : std::ostringstream { int k; Out(int i) : k(i) { ++outs[k]; } ~Out() { ++deads[k]; } };
static std::string dec(long v) { std::string s; bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : v; do s.insert(s.begin(), (char)('0' + u % 10)); while (u /= 10); if (neg) s.insert(s.begin(), '-'); return s; }
static void two(std::string& s, unsigned v) { s.push_back((char)('0' + v / 10)); s.push_back((char)('0' + v % 10)); }
static const char* tag(unsigned l) { static const char* const t[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC ", "????", "????"}; return t[l]; }
static std::string expected(const LogSystem::Message& m, const std::string& base) { std::string s = dec(now_tm.tm_year + 1900); s += '-'; two(s, now_tm.tm_mon + 1); s += '-'; two(s, now_tm.tm_mday); s += ' '; two(s, now_tm.tm_hour); s += ':'; two(s, now_tm.tm_min); s += ':'; two(s, now_tm.tm_sec); s += std::string(" [") + tag((unsigned)m.m_level) + "] "; if (m.m_category.size()) s += "(" + m.m_category + ") "; return s + base + ":" + dec(m.m_line) + " " + m.m_message + "\n"; }
static void compare(const std::string& got, const std::string& want, const char* what) { fsx_check(got.size() == want.size(), what); bool eq = got.size() == want.size(); unsigned char d = 0; for (size_t i = 0; eq && i < got.size(); ++i) d |= (unsigned char)(got[i] ^ want[i]); fsx_check(!eq || d == 0, what); }
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1\2"; } };
// a device that keeps what it's written until it's flushed
struct Dev : std::streambuf { std::string dev; char buf[300]; Dev() { setp(buf, buf + 256); } int sync() override { dev.append(pbase(), pptr() - pbase()); setp(buf, buf + 256); return 0; } int overflow(int c) override { sync(); if (c != EOF) sputc((char)c); return 0; } };
struct Global { std::locale old; bool set; Global(bool s) : set(s) { if (s) old = std::locale::global(std::locale(std::locale(), new Punct)); } ~Global() { if (set) std::locale::global(old); } };
extern "C" void fsx_main() {
   long base = fsx_live(); Quiet q; static const int years[] = {119, 70, 0, 8099};
   now_tm.tm_year = 119; now_tm.tm_mon = 1; now_tm.tm_mday = 28; now_tm.tm_hour = 22; now_tm.tm_min = 3; now_tm.tm_sec = 5;
   if (P_mode == 0) {                                    // date, level, file, line, category, text
      unsigned part = fsx_choose("part", 6);
      if (part == 5) {                                   // two messages of which any part differs, on one listener or two
         falcon::LogStreamListener l, o; std::ostringstream ss, so; l.writeOn(&ss); o.writeOn(&so); bool two = fsx_choose("two", 2); LogSystem::Message m1("dir/one.cpp", 12345, LEVEL::WARN, "category", "a longer text than the other"), m2(m1); l.onMessage(m1); compare(ss.str(), expected(m1, "one.cpp"), "the first line"); std::string first = ss.str(), b = "one.cpp";
         switch (fsx_choose("date", 7)) { case 0: break; case 1: ++now_tm.tm_year; break; case 2: ++now_tm.tm_mon; break; case 3: --now_tm.tm_mday; break; case 4: ++now_tm.tm_hour; break; case 5: --now_tm.tm_min; break; default: ++now_tm.tm_sec; }
         unsigned d = fsx_choose("differs", 32); if (d & 1) m2.m_file = b = "f"; if (d & 2) m2.m_line = 7; if (d & 4) m2.m_level = LEVEL::CRITICAL; if (d & 8) m2.m_category = fsx_choose("none", 2) ? "" : "c"; if (d & 16) m2.m_message = "t";
         (two ? o : l).onMessage(m2); compare(two ? so.str() : ss.str(), two ? expected(m2, b) : first + expected(m2, b), "the second line says what the second message does"); if (two) compare(ss.str(), first, "the first listener's stream is left alone"); fsx_reach("second"); return;
      }
      std::string f = "dir/file.cpp", b = "file.cpp", c = "cat", t = "text"; int line = 42; unsigned lev = 3;
      if (part == 0) { now_tm.tm_year = years[fsx_choose("year", 4)]; now_tm.tm_mon = (int)fsx_below("mon", 12); now_tm.tm_mday = 1 + (int)fsx_below("day", 31); now_tm.tm_hour = (int)fsx_below("hour", 24); now_tm.tm_min = (int)fsx_below("min", 60); now_tm.tm_sec = (int)fsx_below("sec", 61); }
      else if (part == 1) { f.clear(); unsigned n = fsx_choose("flen", P_len + 1); for (unsigned i = 0; i < n; ++i) f.push_back((char)fsx_u8("f")); size_t at = 0; for (size_t i = 0; i < f.size(); ++i) if (f[i] == '/') at = i + 1; b = f.substr(at); }
      else if (part == 2) { lev = fsx_choose("level", 8); unsigned kind = fsx_choose("lkind", 2); if (kind) { static const int lines[] = {0, 9, 10, 99, 100, 1000, 12345, 1234567, 2147483647, -1}; line = lines[fsx_choose("line", 10)]; } else line = (int)fsx_below("lineno", 200); }
      else if (part == 4) { static const unsigned sizes[] = {32, 64, 127, 255, 256, 511, 1023, 1024, 4096, 8193, 65536}; unsigned n = sizes[fsx_choose("size", 11)]; switch (fsx_choose("which", 5)) { case 0: f = b = fsx_text("long", n); break; case 1: b = fsx_text("long", n); f = "dir/" + b; break; case 2: f = fsx_text("long", n) + "/file.cpp"; break; case 3: c = fsx_text("long", n); break; case 4: t = fsx_text("long", n); } fsx_reach("long"); }
      else { c.clear(); t.clear(); unsigned n = fsx_choose("clen", 3); for (unsigned i = 0; i < n; ++i) c.push_back((char)fsx_u8("c")); n = fsx_choose("tlen", 4); for (unsigned i = 0; i < n; ++i) t.push_back((char)fsx_u8("t")); if (fsx_choose("longer", 2)) t += " and a text that doesn't fit a small string, with 100%s of %d"; }
      falcon::LogStreamListener l; LogSystem::Message m(f, line, (LEVEL)lev, c, t); std::ostringstream ss; unsigned fmt = fsx_choose("format", P_fmts);
      if (fmt == 1) ss << std::hex << std::left << std::showbase << std::setfill('*'); else if (fmt == 2) ss << std::setw(12) << std::uppercase << std::oct << std::showpos;
      if (fmt == 5) { Dev d; std::ostream os(&d); l.writeOn(&os); l.onMessage(m); compare(d.dev, expected(m, b), "the line reaches the device"); fsx_check(os.good(), "and the stream is good"); fsx_reach("flushed"); return; }
      if (fmt == 3) ss.imbue(std::locale(ss.getloc(), new Punct)); Global glob(fmt == 4); if (fmt > 2) fsx_reach("locale");
      l.writeOn(&ss); l.onMessage(m); std::string one = expected(m, b); compare(ss.str(), one, "the line is in the documented format"); std::string old = ss.str(); ss.width(0); l.onMessage(m); compare(ss.str(), old + one, "each message is one more line");
      if (fmt == 0) { ss.str(""); ss << std::setw(4) << 7; fsx_check(ss.str() == "   7", "the stream's own formatting is left alone"); }
      fsx_reach("format");
   } else if (P_mode == 2) {                             // switching targets while another thread writes
      LogSystem::Message m("a/b.cpp", 7, LEVEL::WARN, "c", "t"); std::string line = expected(m, "b.cpp"); static std::string text[3]; static bool dead[3]; bool before = false;
      struct Sink : std::ostringstream { int k; Sink(int i) : k(i) { dead[i] = false; text[i].clear(); } ~Sink() { text[k] = str(); dead[k] = true; } };
      {
         falcon::LogStreamListener l; auto first = std::make_unique<Sink>(0); auto next = std::make_unique<Sink>(1); unsigned from = fsx_choose("from", 3), to = fsx_choose("to", 3); before = fsx_choose("before", 2);
         auto set = [&l](unsigned kind, std::unique_ptr<Sink>& s) { if (kind == 0) l.writeOn(s.get()); else if (kind == 1) { std::unique_ptr<std::ostream> u(std::move(s)); l.own(u); } else l.share(std::shared_ptr<std::ostream>(std::move(s))); };
         set(from, first); if (before) l.onMessage(m);
         std::thread t([&] { l.onMessage(m); }); set(to, next); t.join(); l.onMessage(m);
         if (to == from && from) fsx_check(dead[0], "the stream replaced by another of its kind is released"); if (from == 0) fsx_check(!dead[0], "a borrowed stream is kept"); fsx_check(!dead[1], "the latest stream is kept");
      }
      fsx_check(dead[0] && dead[1], "every stream is released at the end");
      size_t n0 = text[0].size() / line.size(), n1 = text[1].size() / line.size(); std::string w0, w1; for (size_t i = 0; i < n0; ++i) w0 += line; for (size_t i = 0; i < n1; ++i) w1 += line;
      fsx_check(text[0] == w0 && text[1] == w1 && n0 + n1 == (before ? 3u : 2u) && n1 >= 1 && n1 <= 2, "each line goes whole to one of the streams, and to the latest one after the change"); fsx_observe("n0", n0); fsx_reach("threads");
   } else if (P_mode == 3) {                             // two listeners, each used by its own thread
      LogSystem::Message m[2] = {{"a/b.cpp", 7, LEVEL::WARN, "c", "t"}, {"x", 12, LEVEL::INFO, "", "another text"}}; std::ostringstream ss[2]; falcon::LogStreamListener l[2]; bool common = fsx_choose("common", 2); l[0].writeOn(&ss[0]); l[1].writeOn(&ss[1]); int n = 1 + fsx_choose("n", 2);
      std::thread t([&] { for (int i = 0; i < n; ++i) (common ? l[0] : l[1]).onMessage(m[1]); }); l[0].onMessage(m[0]); t.join();
      std::string a = expected(m[0], "b.cpp"), b = expected(m[1], "x"), bb; for (int i = 0; i < n; ++i) bb += b; std::string s = ss[0].str();
      if (!common) fsx_check(s == a && ss[1].str() == bb, "each listener writes its own lines"); else { bool any = false; for (int i = 0; i <= n; ++i) any |= s == bb.substr(0, i * b.size()) + a + bb.substr(i * b.size()); fsx_check(any && ss[1].str().empty(), "lines are written whole, one after the other"); }
      fsx_reach("pair");
   } else {                                              // switching targets
      {
         falcon::LogStreamListener* l = new falcon::LogStreamListener; Out borrowed(0); std::shared_ptr<Out> shared; Out *own = nullptr; std::string want[4]; int cur = -1; LogSystem::Message m("a/b.cpp", 7, LEVEL::WARN, "c", "t"); std::string line = expected(m, "b.cpp"); unsigned n = fsx_choose("n", P_ops + 1); bool ownSet = false;
         Out* sh[4] = {nullptr}; std::string lastOwn; 
         for (unsigned i = 0; i < n; ++i) switch (fsx_choose("op", 4)) {
            case 0: l->writeOn(&borrowed); cur = 0; fsx_reach("borrowed"); break;
            case 1: { int b4 = deads[1], o4 = outs[1]; auto u = std::unique_ptr<Out>(new Out(1)); own = u.get(); std::unique_ptr<std::ostream> up(std::move(u)); l->own(up); fsx_check(!up, "ownership is taken"); want[1].clear(); fsx_check(deads[1] <= o4, "the new stream stays alive"); (void)b4; cur = 1; fsx_reach("owned"); break; }
            case 2: { bool keep = fsx_choose("keep", 2); auto s = std::make_shared<Out>(2); sh[2] = s.get(); l->share(s); want[2].clear(); if (keep) shared = s; else shared.reset(); fsx_check(s.use_count() >= (keep ? 3 : 2), "ownership is shared"); cur = 2; fsx_reach("shared"); break; }
            case 3: l->onMessage(m); if (cur >= 0) want[cur] += line; fsx_check(borrowed.str() == want[0], "the borrowed stream gets what it should"); if (cur == 1) fsx_check(own->str() == want[1], "the owned stream gets what it should"); if (cur == 2) fsx_check(sh[2]->str() == want[2], "the shared stream gets what it should"); if (cur == 1) fsx_check(deads[1] == outs[1] - 1, "only the owned stream in use is alive, released once"); fsx_reach(cur < 0 ? "mute" : "written"); break;
         }
         fsx_check(deads[0] == 0, "a borrowed stream is never released"); delete l; fsx_check(deads[0] == 0, "not even at the end"); fsx_check(deads[1] == outs[1], "owned streams are released"); fsx_check(deads[2] == outs[2] - (shared ? 1 : 0), "shared streams live as long as their last holder");
         if (shared) fsx_check(shared.use_count() == 1 && (cur != 2 || shared->str() == want[2]), "and keep what was written");
         fsx_observe("n", n);
      }
      fsx_reach("switch");
   }
   fsx_check(q.ok(), "nothing is written anywhere else");
   fsx_reach("end");
   (void)base;
}
