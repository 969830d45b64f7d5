// Time text, clocks and unit conversions.
#include "core.h"
#include <inttypes.h>
#include <time.h>
#include <errno.h>
#include "rcutils/error_handling.h"
#include "rcutils/time.h"

// scripted clocks
static int g_mode;         // 0 real, 1 scripted, 2 failing
static int g_used;
static struct timespec g_rt, g_mono;
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec * t)
{
  if (g_mode == 0) {return __real_clock_gettime(c, t);}
  g_used++;
  if (g_mode == 2) {errno = EINVAL; return -1;}
  *t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g_rt : g_mono;
  return 0;
}
// for other parts of the driver: script the wall clock; how often it was read
void clock_script(int mode, long long sec, long nsec)
{
  g_rt.tv_sec = sec; g_rt.tv_nsec = nsec; g_mono.tv_sec = 12345; g_mono.tv_nsec = 678;
  g_used = 0; g_mode = mode;
}
int clock_used(void) {return g_used;}
static void digits(const char * k, int64_t v)
{
  char b[40];
  uint64_t a = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  snprintf(b, sizeof b, "%019" PRIu64, a);
  ev_cstr(k, b);
}
static void text(const char * op, rcutils_ret_t (* fn)(const rcutils_time_point_value_t *, char *, size_t))
{
  rcutils_time_point_value_t tp = argll(1);
  size_t n = (size_t)argll(2);
  char * b = scratch(n ? n : 1);
  memset(b, 0x7E, n ? n : 1);
  rcutils_ret_t r = fn(&tp, b, n);
  ev_begin(op);
  rcutils_reset_error();
  ev_bool("neg", argll(1) < 0); digits("d", argll(1)); ev_int("n", (long long)n); ev_int("ret", r);
  bool term = n > 0 && memchr(b, 0, n);
  ev_bool("term", term);
  ev_bool("kept", b[0] == 0x7E);
  ev_cstr("out", term ? b : NULL);
  ev_end();
}
static void t_ns(void) {text("TmNs", rcutils_time_point_value_as_nanoseconds_string);}
static void t_sec(void) {text("TmSec", rcutils_time_point_value_as_seconds_string);}
static void t_date(void) {text("TmDate", rcutils_time_point_value_as_date_string);}
static void t_null(void)
{
  rcutils_time_point_value_t tp = 5;
  char b[64] = "x";
  int bad = 0;
  rcutils_ret_t (* f[])(const rcutils_time_point_value_t *, char *, size_t) = {
    rcutils_time_point_value_as_nanoseconds_string, rcutils_time_point_value_as_seconds_string,
    rcutils_time_point_value_as_date_string};
  for (int i = 0; i < 3; i++) {
    bad += f[i](NULL, b, 64) != RCUTILS_RET_INVALID_ARGUMENT; rcutils_reset_error();
    bad += f[i](NULL, b, 0) != RCUTILS_RET_INVALID_ARGUMENT; rcutils_reset_error();
    bad += f[i](&tp, NULL, 64) != RCUTILS_RET_INVALID_ARGUMENT; rcutils_reset_error();
    bad += f[i](&tp, NULL, 0) != RCUTILS_RET_INVALID_ARGUMENT; rcutils_reset_error();
  }
  bad += rcutils_system_time_now(NULL) != RCUTILS_RET_INVALID_ARGUMENT; rcutils_reset_error();
  bad += rcutils_steady_time_now(NULL) != RCUTILS_RET_INVALID_ARGUMENT; rcutils_reset_error();
  ev_begin("TmNull"); ev_bool("ok", bad == 0 && !strcmp(b, "x") && tp == 5); ev_end();
}
static void t_tz(void)   // OFFSET (seconds east of Greenwich)
{
  long o = (long)argll(1), a = o < 0 ? -o : o;
  char b[64];
  snprintf(b, sizeof b, "<ZZZ>%c%ld:%02ld:%02ld", o < 0 ? '+' : '-', a / 3600, a / 60 % 60, a % 60);
  setenv("TZ", b, 1);
  tzset();
  ev_begin("TmTz"); ev_int("off", o); ev_end();
}
void time_reset(void) {setenv("TZ", "UTC0", 1); tzset(); g_mode = 0;}
static int64_t real(clockid_t c)
{
  struct timespec t;
  __real_clock_gettime(c, &t);
  return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec;
}
static void t_now(void)  // steady? : against the real clock
{
  int steady = argi(1);
  clockid_t c = steady ? CLOCK_MONOTONIC : CLOCK_REALTIME;
  rcutils_time_point_value_t v = -77;
  int64_t b = real(c);
  rcutils_ret_t r = steady ? rcutils_steady_time_now(&v) : rcutils_system_time_now(&v);
  int64_t a = real(c);
  ev_begin("TmNow");
  ev_bool("steady", steady); ev_int("ret", r); ev_bool("neg", v < 0); digits("b", b); digits("v", v); digits("a", a);
  ev_end();
}
// MODE(1 values 2 failing) STEADY RTSEC RTNSEC MSEC MNSEC
static void t_script(void)
{
  int steady = argi(2);
  g_rt.tv_sec = argll(3); g_rt.tv_nsec = argll(4); g_mono.tv_sec = argll(5); g_mono.tv_nsec = argll(6);
  g_used = 0;
  g_mode = argi(1);
  rcutils_time_point_value_t v = -77;
  rcutils_ret_t r = steady ? rcutils_steady_time_now(&v) : rcutils_system_time_now(&v);
  g_mode = 0;
  struct timespec * t = steady ? &g_mono : &g_rt;
  ev_begin("TmScript");
  rcutils_reset_error();
  ev_bool("used", g_used > 0); ev_bool("fails", argi(1) == 2); ev_bool("kept", v == -77); ev_bool("neg", v < 0);
  ev_bool("past", t->tv_sec < 0 || (t->tv_sec == 0 && t->tv_nsec < 0));
  digits("sec", t->tv_sec); ev_int("nsec", t->tv_nsec); ev_int("ret", r); digits("v", v);
  ev_end();
}
static void t_conv(void)   // KIND A B : the conversion of the expression A + B
{
  const char * k = args(1);
  int64_t a = argll(2), b = argll(3), r = 0;
  int z = 0, dir = 0;
  if (!strcmp(k, "s_ns")) {r = RCUTILS_S_TO_NS(a + b); z = 9; dir = 1;}
  if (!strcmp(k, "ms_ns")) {r = RCUTILS_MS_TO_NS(a + b); z = 6; dir = 1;}
  if (!strcmp(k, "us_ns")) {r = RCUTILS_US_TO_NS(a + b); z = 3; dir = 1;}
  if (!strcmp(k, "ns_s")) {r = RCUTILS_NS_TO_S(a + b); z = 9;}
  if (!strcmp(k, "ns_ms")) {r = RCUTILS_NS_TO_MS(a + b); z = 6;}
  if (!strcmp(k, "ns_us")) {r = RCUTILS_NS_TO_US(a + b); z = 3;}
  if (!strcmp(k, "s_nsi")) {r = RCUTILS_S_TO_NS((int)a + (int)b); z = 9; dir = 1;}
  if (!strcmp(k, "ms_nsi")) {r = RCUTILS_MS_TO_NS((int)a + (int)b); z = 6; dir = 1;}
  if (!strcmp(k, "us_nsi")) {r = RCUTILS_US_TO_NS((int)a + (int)b); z = 3; dir = 1;}
  ev_begin("TmConv");
  ev_int("z", z); ev_bool("tons", dir); ev_bool("xneg", a + b < 0); digits("x", a + b); ev_bool("neg", r < 0); digits("v", r);
  ev_end();
}
const op_t g_ops_time[] = {
  {"tm_ns", t_ns}, {"tm_sec", t_sec}, {"tm_date", t_date}, {"tm_null", t_null}, {"tm_tz", t_tz},
  {"tm_now", t_now}, {"tm_script", t_script}, {"tm_conv", t_conv}, {0, 0}};
