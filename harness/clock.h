// A virtual wall clock for the code under test: the harness executable defines
// gettimeofday, clock_gettime(CLOCK_REALTIME) and time, which take precedence
// over libc's for every library in the process.  The PBT kernel reads its own
// clock with raw system calls.
#ifndef VERIF_CLOCK_H_
#define VERIF_CLOCK_H_
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>

inline bool g_fakeClock = false;
inline int64_t g_fakeMicros = 0;

extern "C" {
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (g_fakeClock) {
    tv->tv_sec = g_fakeMicros / 1000000;
    tv->tv_usec = g_fakeMicros % 1000000;
    return 0;
  }
  return static_cast<int>(syscall(SYS_gettimeofday, tv, tz));
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (g_fakeClock && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    ts->tv_sec = g_fakeMicros / 1000000;
    ts->tv_nsec = (g_fakeMicros % 1000000) * 1000;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
}
#endif
