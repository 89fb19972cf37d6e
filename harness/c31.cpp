#define FUTH_NO_CLOCK
#include "futh.h"
#include <unistd.h>
#include <cerrno>
#include <stdexcept>
// the system clock and sleep requests, symbolic
static int64_t c_sec, c_usec; static int c_fail; static int64_t z_slept, z_calls, z_stop, z_asked; static bool z_bad;
// a request of a number of nanoseconds: a signal may end it early
static bool slept(int64_t sec, int64_t nsec, struct timespec* rem) {
   ++z_calls; if (nsec < 0 || nsec >= 1000000000 || sec < 0) z_bad = true; if (z_calls == 1) z_asked = sec * 1000 + nsec / 1000000, z_bad |= nsec % 1000000 != 0;
   if (z_calls > z_stop) { z_slept += sec * 1000 + nsec / 1000000; return true; }
   int64_t left = (int64_t)fsx_sym("left", P_bits), ms = (int64_t)fsx_sym("leftms", 10); fsx_assume(ms < 1000 && left * 1000 + ms <= sec * 1000 + nsec / 1000000); z_slept += sec * 1000 + nsec / 1000000 - (left * 1000 + ms); if (rem) rem->tv_sec = left, rem->tv_nsec = ms * 1000000; return false;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { if (c_fail) return -1; tv->tv_sec = c_sec; tv->tv_usec = c_usec; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept { if (c_fail) return -1; ts->tv_sec = c_sec; ts->tv_nsec = c_usec * 1000; return 0; }
extern "C" int nanosleep(const struct timespec* t, struct timespec* r) { if (slept(t->tv_sec, t->tv_nsec, r)) return 0; errno = EINTR; return -1; }
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec* r) { if (flags) z_bad = true; return slept(t->tv_sec, t->tv_nsec, r) ? 0 : EINTR; }
extern "C" int usleep(useconds_t u) { if (slept(u / 1000000, (int64_t)(u % 1000000) * 1000, nullptr)) return 0; errno = EINTR; return -1; }
using falcon::testing::TimeLapse; using falcon::int64;
enum : int64_t { DAY = 86400000 };
// a clock reading and the mark it must give: whole milliseconds
static int64_t whole(const char* n, int64_t* secs, int64_t* rest) { int64_t s = (int64_t)fsx_sym(n, P_bits), r = (int64_t)fsx_sym("ms", 10); fsx_assume(r < 1000); *secs = s; *rest = r; return s * 1000 + r; }
static int64_t reading(const char* n) { int64_t r, ms = whole(n, &c_sec, &r), sub = (int64_t)fsx_sym("us", 10); fsx_assume(sub < 1000); c_usec = r * 1000 + sub; return ms; }
struct Probe : TestCase { int64_t now = 0, e = 0; bool thr = false, early = false; void SetUp() override { if (early) { e = reading("early"); now = elapsedTimeNow(); throw 2; } } void test() override { e = reading("end"); now = elapsedTimeNow(); if (thr) throw 1; } };
extern "C" void fsx_main() {
   long base = fsx_live(); c_sec = 1; c_usec = 0; c_fail = 0; z_calls = 0; z_slept = 0; z_stop = 0; z_asked = 0; z_bad = false;
   switch (fsx_choose("part", 8)) {
   case 0: { int64_t b = fsx_i64("begin"), e = fsx_i64("end"), lim = INT64_MAX - DAY; fsx_assume(b >= 0 && e >= 0 && b <= lim && e <= lim); TimeLapse t; t.m_begin = b; t.m_end = e; fsx_check(t.begin() == b && t.end() == e, "marks read back"); fsx_check(t.elapsed() == (b <= e ? e - b : e - b + DAY), "elapsed time is the difference, wrapped by one day"); fsx_reach("marks"); break; }
   case 1: { int64_t ms = reading("clock"); int64 v = -1; falcon::testing::markTime(v); fsx_check(v == ms, "the mark is the whole milliseconds of the system time"); fsx_reach("clock"); break; }
   case 2: { TimeLapse t; fsx_check(t.begin() == 0 && t.end() == 0 && t.elapsed() == 0, "nothing elapsed yet"); int64_t b = reading("clock"); fsx_check(t.markBegin() == b && t.begin() == b, "begin mark"); int64_t e = reading("clock2"); fsx_check(t.markEnd() == e && t.end() == e && t.begin() == b, "end mark"); fsx_check(t.elapsed() == (b <= e ? e - b : e - b + DAY), "elapsed"); int64_t n = reading("now"); fsx_check(t.elapsedNow() == (b <= n ? n - b : n - b + DAY), "elapsed up to now"); fsx_check(t.begin() == b && t.end() == e, "which changes no mark"); fsx_reach("lapse"); break; }
   case 3: { int64_t sec, rest, ms = whole("wait", &sec, &rest); z_stop = fsx_choose("signals", P_signals + 1); falcon::testing::waitTime(ms); fsx_check(!z_bad, "requests are valid"); if (z_calls) fsx_check(z_asked == ms, "waiting asks for exactly the requested time"); fsx_check(z_slept == ms, "and lasts that long, signals or not"); if (z_calls > 1) fsx_reach("signal"); fsx_reach("wait"); break; }
   case 4: { c_fail = 1; int64 v = 7; bool thrown = false; try { falcon::testing::markTime(v); } catch (std::runtime_error&) { thrown = true; } fsx_check(thrown, "a clock that cannot be read is reported"); fsx_reach("failure"); break; }
   case 5: { Watch w; Probe t; t.thr = fsx_choose("throw", 2); int64_t b = reading("begin"); t.beginTest(true); t.run(); t.endTest(true); int64_t d = b <= t.e ? t.e - b : t.e - b + DAY; fsx_check(t.now == d, "time elapsed up to now"); fsx_check(t.elapsedTime() == d, "time of the test");
      if (fsx_choose("setup", 2)) { b = reading("begin2"); t.early = true; t.beginTest(true); t.run(); t.endTest(true); fsx_assume(b <= t.e); fsx_check(t.now >= 0 && t.now <= t.e - b && t.elapsedTime() >= 0 && t.elapsedTime() <= t.e - b, "a test whose set-up fails lasts no more than its run"); fsx_reach("setup"); }
      fsx_reach("case"); break; }
   case 6: { Watch w; Probe t; t.early = true; int64_t b = reading("begin"); fsx_check(t.elapsedTime() == 0, "nothing elapsed yet"); t.beginTest(true); t.run(); t.endTest(true); fsx_assume(b <= t.e); fsx_check(t.elapsedTime() >= 0 && t.elapsedTime() <= t.e - b, "a test whose set-up fails lasts no more than its run"); fsx_reach("early"); break; }
   case 7: { Watch w; Probe t; UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("One", "case", &t); fsx_check(u.elapsedTime() == 0, "nothing elapsed yet"); t.thr = fsx_choose("throw", 2); int64_t b = reading("begin"); bool single = fsx_choose("single", 2);
      int r = single ? u.performTest("One::case") : u.performUnitTests(); fsx_check((r != 0) == t.thr, "verdict"); fsx_check(u.elapsedTime() == (b <= t.e ? t.e - b : t.e - b + DAY), "time of the whole suite"); fsx_reach("suite"); break; }
   }
   fsx_check(fsx_live() <= base, "nothing is leaked");
   fsx_reach("end");
}
