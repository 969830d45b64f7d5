// Logging: levels, delivery, macros, console output, start-up and shutdown.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <poll.h>
#include <stdarg.h>
#include <termios.h>
#include <unistd.h>
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "sites.h"

void clock_script(int mode, long long sec, long nsec);
int clock_used(void);
int __real_dlclose(void *);
int __real_setenv(const char *, const char *, int);
int __real_unsetenv(const char *);

static bool g_active;           // a session is using logging
// ---- observed names
static char * g_names[16];
static int g_nn;
// ---- recorded deliveries
typedef struct del_s
{
  int h, sev;
  char * name, * fmt, * text, * func, * file;
  bool loc;
  char line[24], ts[24];
} del_t;
static del_t g_del[8];
static int g_ndel;
static char * cp(const char * s)
{
  if (!s) {return NULL;}
  size_t n = strlen(s) + 1;
  return memcpy(scratch(n), s, n);
}
static void dig(char * b, uint64_t v, int pad) {snprintf(b, 24, pad ? "%019" PRIu64 : "%" PRIu64, v);}
static void record(
  int h, const rcutils_log_location_t * l, int sev, const char * name, int64_t ts, const char * fmt,
  va_list * args)
{
  lib_leave();
  if (g_ndel < 8) {
    del_t * d = &g_del[g_ndel++];
    memset(d, 0, sizeof *d);
    d->h = h; d->sev = sev; d->name = cp(name); d->fmt = cp(fmt);
    va_list c;
    va_copy(c, *args);
    d->text = scratch(140000);
    vsnprintf(d->text, 140000, fmt, c);
    va_end(c);
    d->loc = l != NULL;
    if (l) {d->func = cp(l->function_name); d->file = cp(l->file_name); dig(d->line, l->line_number, 0);}
    dig(d->ts, (uint64_t)ts, 1);
  }
  lib_enter();
}
static void rec_a(
  const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f,
  va_list * a) {record(2, l, s, n, t, f, a);}
static void rec_b(
  const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f,
  va_list * a) {record(3, l, s, n, t, f, a);}
// a handler which logs itself, through another logger
static void rec_c(
  const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f,
  va_list * a)
{
  record(4, l, s, n, t, f, a);
  if (strcmp(n, "re") != 0) {rcutils_log(NULL, s, "re", "%s%d", "again", 7);}
}
static rcutils_logging_output_handler_t handler_of(int k)
{
  return k == 1 ? rcutils_logging_console_output_handler : k == 2 ? rec_a : k == 3 ? rec_b : k == 4 ? rec_c : NULL;
}
static int id_of(rcutils_logging_output_handler_t h)
{
  for (int k = 0; k < 5; k++) {if (h == handler_of(k)) {return k;}}
  return 9;
}

// ---- terminals
static int g_pm[3] = {-1, -1, -1}, g_ps[3] = {-1, -1, -1};
static bool g_tty;
static bool open_ttys(void)
{
  for (int f = 1; f <= 2; f++) {
    if (g_ps[f] >= 0) {continue;}
    int m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
    if (m < 0) {return false;}
    char name[128];
    if (grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name, sizeof name) != 0) {close(m); return false;}
    int s = open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
    if (s < 0) {close(m); return false;}
    struct termios t;
    if (tcgetattr(s, &t) != 0) {close(m); close(s); return false;}
    cfmakeraw(&t);
    tcsetattr(s, TCSANOW, &t);
    g_pm[f] = m; g_ps[f] = s;
  }
  return true;
}
static int g_tsave[3];
static size_t g_reach[3];
static char * g_text[3];
static size_t g_tlen[3];
static void out_begin(void)
{
  if (!g_tty) {cap_begin(); return;}
  for (int f = 1; f <= 2; f++) {fflush(f == 1 ? stdout : stderr); g_tsave[f] = dup(f); dup2(g_ps[f], f);}
}
static void out_end(void)
{
  lib_leave();
  if (!g_tty) {
    for (int f = 1; f <= 2; f++) {g_reach[f] = cap_reached(f);}
    size_t all = cap_reached(1);
    fflush(stdout);
    all = cap_reached(1) - all;      // what had not been written out
    for (int f = 1; f <= 2; f++) {g_tlen[f] = cap_end(f, &g_text[f]);}
    if (all == 0) {g_reach[1] = g_tlen[1];}
  } else {
    for (int f = 1; f <= 2; f++) {
      fflush(f == 1 ? stdout : stderr);
      g_text[f] = scratch(70000);
      g_tlen[f] = 0;
      struct pollfd p = {.fd = g_pm[f], .events = POLLIN};
      while (g_tlen[f] < 69000 && poll(&p, 1, 20) == 1) {
        ssize_t k = read(g_pm[f], g_text[f] + g_tlen[f], 69000 - g_tlen[f]);
        if (k <= 0) {break;}
        g_tlen[f] += (size_t)k;
      }
      g_text[f][g_tlen[f]] = 0;
      if (f == 1) {g_tlen[f] = inj_strip(g_text[f], g_tlen[f]);}
      g_reach[f] = g_tlen[f];
      dup2(g_tsave[f], f); close(g_tsave[f]);
    }
  }
}
// ---- events
static int g_clk_mode;
static long long g_sec;
static long g_nsec;
static bool g_quiet;      // no observation of levels after this command
static void enter(void)
{
  g_active = true;
  g_ndel = 0;
  out_begin();
  clock_script(g_clk_mode, g_sec, g_nsec);
}
static bool g_clkused;
static void leave(const char * op)
{
  g_clkused = clock_used() > 0;
  clock_script(0, 0, 0);
  out_end();
  ev_begin(op);
}
static int mode_of(FILE * f) {return f->_flags & 0x0002 ? 0 : f->_flags & 0x0200 ? 1 : 2;}
static void fin(void)
{
  rcutils_reset_error();
  ev_bytes("out", g_text[1], g_tlen[1]);
  ev_bytes("err", g_text[2], g_tlen[2]);
  ev_int("outn", (long long)g_reach[1]);
  ev_int("errn", (long long)g_reach[2]);
  ev_bool("clk", g_clkused);
  ev_arr_begin("dl");
  for (int i = 0; i < g_ndel; i++) {
    del_t * d = &g_del[i];
    ev_arr_open();
    ev_arr_int(d->h); ev_arr_int(d->sev); ev_arr_cstr(d->name); ev_arr_cstr(d->fmt); ev_arr_cstr(d->text);
    ev_arr_int(d->loc); ev_arr_cstr(d->func); ev_arr_cstr(d->file); ev_arr_cstr(d->loc ? d->line : NULL); ev_arr_cstr(d->ts);
    ev_arr_close();
  }
  ev_arr_end();
  bool up = g_rcutils_logging_initialized;
  ev_bool("up", up);
  ev_int("dfl", up ? rcutils_logging_get_default_logger_level() : 0);
  ev_int("hdl", up ? id_of(rcutils_logging_get_output_handler()) : 0);
  ev_int("m1", mode_of(stdout)); ev_int("m2", mode_of(stderr));
  ev_arr_begin("ob");
  for (int i = 0; up && i < g_nn; i++) {
    ev_arr_open();
    ev_arr_int(rcutils_logging_get_logger_level(g_names[i]));
    ev_arr_int(rcutils_logging_get_logger_effective_level(g_names[i]));
    ev_arr_close();
  }
  ev_arr_end();
  ev_int("rl", g_raw_live);
  rcutils_reset_error();
  ev_end();
}
static void lg_names(void)   // NAME...
{
  lib_leave();
  g_active = true;
  for (int i = 0; i < g_nn; i++) {free(g_names[i]);}
  g_nn = 0;
  ev_begin("LgNames");
  ev_arr_begin("names");
  for (int i = 1; i < g_argc && g_nn < 16; i++) {
    g_names[g_nn] = strdup(argx(i));
    ev_arr_cstr(g_names[g_nn]);
    g_nn++;
  }
  ev_arr_end();
  ev_end();
}
static const char * g_vars[] = {"RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM",
  "RCUTILS_COLORIZED_OUTPUT", "RCUTILS_CONSOLE_OUTPUT_FORMAT", "RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED"};
static void lg_env(void)     // VAR(1..5) VALUE
{
  lib_leave();
  g_active = true;
  char * v = argx(2);
  if (v) {__real_setenv(g_vars[argi(1) - 1], v, 1);} else {__real_unsetenv(g_vars[argi(1) - 1]);}
  ev_begin("LgEnv"); ev_int("var", argi(1)); ev_cstr("v", v); ev_end();
}
static void lg_clock(void)   // FAIL SEC NSEC
{
  g_clk_mode = argi(1) ? 2 : 1; g_sec = argll(2); g_nsec = (long)argll(3);
  char t[24];
  dig(t, (uint64_t)g_sec * 1000000000u + (uint64_t)g_nsec, 1);
  ev_begin("LgClock"); ev_bool("fail", argi(1)); ev_cstr("d", t); ev_end();
}
static void lg_tty(void)
{
  lib_leave();
  bool t = argi(1) && open_ttys();
  g_tty = t;
  ev_begin("LgTty"); ev_bool("tty", t); ev_end();
}
static void lg_init(void)    // KIND: 0 ledger, 1 default, 2 invalid allocator
{
  int k = argi(1), r;
  rcutils_allocator_t a = led_allocator();
  if (k == 2) {a.deallocate = NULL;}
  enter();
  r = k == 1 ? rcutils_logging_initialize() : rcutils_logging_initialize_with_allocator(a);
  leave("LgInit"); ev_int("k", k); ev_int("ret", r); op_made(r == 0); fin();
}
static void lg_shutdown(void)
{
  enter();
  int r = rcutils_logging_shutdown();
  leave("LgShutdown"); ev_int("ret", r); fin();
}
static void lg_seth(void)
{
  enter();
  rcutils_logging_set_output_handler(handler_of(argi(1)));
  leave("LgSetH"); ev_int("h", argi(1)); fin();
}
static void lg_geth(void)
{
  enter();
  rcutils_logging_output_handler_t h = rcutils_logging_get_output_handler();
  leave("LgGetH"); ev_int("ret", id_of(h)); fin();
}
static void lg_set(void)     // NAME LEVEL
{
  char * n = argx(1);
  enter();
  int r = rcutils_logging_set_logger_level(n, argi(2));
  leave("LgSet"); ev_cstr("n", n); ev_int("lv", argi(2)); ev_int("ret", r); fin();
}
static void lg_setdef(void)
{
  enter();
  rcutils_logging_set_default_logger_level(argi(1));
  leave("LgSetDef"); ev_int("lv", argi(1)); fin();
}
static void lg_def(void)
{
  enter();
  int r = rcutils_logging_get_default_logger_level();
  leave("LgDef"); ev_int("ret", r); fin();
}
static void lg_own(void)     // NAME LEN(-1: whole)
{
  char * n;
  int len = argi(2), r;
  if (len < 0) {
    n = argx(1);
  } else {
    // an exact block: LEN bytes, the byte that follows them in NAME, a terminator
    n = argx(1);
    if (n) {
      char * b = scratch((size_t)len + 2);
      memcpy(b, n, (size_t)len + 1);
      b[len + 1] = 0;
      n = b;
    }
  }
  enter();
  r = len < 0 ? rcutils_logging_get_logger_level(n) : rcutils_logging_get_logger_leveln(n, (size_t)len);
  leave("LgOwn");
  if (n && len >= 0) {ev_bytes("n", n, (size_t)len);} else {ev_cstr("n", n);}
  ev_int("ret", r); fin();
}
static void lg_eff(void)
{
  char * n = argx(1);
  enter();
  int r = rcutils_logging_get_logger_effective_level(n);
  leave("LgEff"); ev_cstr("n", n); ev_int("ret", r); fin();
}
static void lg_en(void)      // NAME SEV
{
  char * n = argx(1);
  enter();
  bool r = rcutils_logging_logger_is_enabled_for(n, argi(2));
  leave("LgEn"); ev_cstr("n", n); ev_int("sev", argi(2)); ev_int("ret", r); fin();
}
static void msg(const char * s, int n, const char * fmt) {ev_cstr("fmt", fmt); ev_cstr("s", s); ev_int("num", n);}
static void ev_loc(const rcutils_log_location_t * l)
{
  char t[24] = "";
  if (l) {dig(t, l->line_number, 0);}
  ev_bool("loc", l); ev_cstr("func", l ? l->function_name : NULL); ev_cstr("file", l ? l->file_name : NULL);
  ev_cstr("line", t);
}
static rcutils_log_location_t g_loc;
static const rcutils_log_location_t * location(int i)   // LOC FUNC FILE LINE at words i..i+3
{
  if (!argi(i)) {return NULL;}
  g_loc.function_name = argx(i + 1); g_loc.file_name = argx(i + 2); g_loc.line_number = strtoull(args(i + 3), NULL, 10);
  return &g_loc;
}
static void lg_log(void)     // KIND SEV NAME LOC FUNC FILE LINE FMT S N
{
  int k = argi(1), sev = argi(2), num = argi(10);
  char * n = argx(3), * fmt = argx(8), * s = argx(9);
  const rcutils_log_location_t * l = location(4);
  enter();
  if (k == 0) {rcutils_log(l, sev, n, fmt, s, num);} else {rcutils_log_internal(l, sev, n, fmt, s, num);}
  leave("LgLog"); ev_int("k", k); ev_int("sev", sev); ev_cstr("n", n); ev_loc(l); msg(s, num, fmt); fin();
}
static void direct(
  const rcutils_log_location_t * l, int sev, const char * n, int64_t ts, const char * fmt, ...)
{
  va_list a;
  va_start(a, fmt);
  rcutils_logging_console_output_handler(l, sev, n, ts, fmt, &a);
  va_end(a);
}
static void lg_console(void) // TS SEV NAME LOC FUNC FILE LINE FMT S N : the console handler itself
{
  int64_t ts = argll(1);
  int sev = argi(2), num = argi(10);
  char * n = argx(3), * fmt = argx(8), * s = argx(9);
  const rcutils_log_location_t * l = location(4);
  enter();
  direct(l, sev, n, ts, fmt, s, num);
  leave("LgConsole");
  char t[24];
  dig(t, (uint64_t)ts, 1);
  ev_cstr("ts", t); ev_int("sev", sev); ev_cstr("n", n); ev_loc(l); msg(s, num, fmt); fin();
}
static void lg_fmt(void)     // TS SEV NAME LOC FUNC FILE LINE MSG PRE CAP
{
  int64_t ts = argll(1);
  int sev = argi(2);
  char * n = argx(3), * m = argx(8), * pre = argx(9);
  const rcutils_log_location_t * l = location(4);
  lib_leave();
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  rcutils_allocator_t al = led_allocator();
  long keep = g_fail_from;
  g_fail_from = 0;
  if (rcutils_char_array_init(&c, (size_t)argi(10), &al) != 0 || rcutils_char_array_strcpy(&c, pre) != 0) {abort();}
  g_led.calls = g_led.refused = 0;
  g_fail_from = keep;
  lib_enter();
  enter();
  int r = rcutils_logging_format_message(l, sev, n, ts, m, &c);
  leave("LgFmt");
  char t[24];
  dig(t, (uint64_t)ts, 1);
  ev_cstr("ts", t); ev_int("sev", sev); ev_cstr("n", n); ev_loc(l); ev_cstr("m", m); ev_cstr("pre", pre); ev_int("ret", r);
  ev_cstr("text", c.buffer);
  if (rcutils_char_array_fini(&c) != 0) {abort();}
  fin();
}
// ---- macros
static void * g_lib[8];
static int g_ne, g_nf, g_nt, g_tfail;
static bool g_ev, g_fv;
static long long g_tv;
bool site_expr(void) {g_ne++; return g_ev;}
bool site_filter(void) {g_nf++; return g_fv;}
rcutils_ret_t site_time(rcutils_time_point_value_t * p)
{
  g_nt++;
  if (g_tfail) {return RCUTILS_RET_ERROR;}
  *p = g_tv;
  return RCUTILS_RET_OK;
}
// LIB SEV(0..4) COND(0..6) NAMED COPY NAME EXPR FILTER TFAIL TNS FMT S N
static void lg_macro(void)
{
  int lib = argi(1);
  lib_leave();
  if (!g_lib[lib]) {
    char p[700];
    snprintf(p, sizeof p, "%s/sites%d.so", getenv("VLIBDIR"), lib);
    g_lib[lib] = dlopen(p, RTLD_NOW | RTLD_LOCAL);
    if (!g_lib[lib]) {fprintf(stderr, "%s\n", dlerror()); _exit(5);}
  }
  site_fn_t * f = dlsym(g_lib[lib], "g_sites");
  int * ms = dlsym(g_lib[lib], "g_site_ms");
  site_arg_t a = {argx(6), argx(11), argx(12), argi(13), NULL, NULL, 0};
  g_ev = argi(7); g_fv = argi(8); g_tfail = argi(9); g_tv = argll(10);
  g_ne = g_nf = g_nt = 0;
  lib_enter();
  enter();
  f[((argi(2) * 7 + argi(3)) * 2 + argi(4)) * 2 + argi(5)](&a);
  leave("LgMacro");
  rcutils_log_location_t l = {a.func, a.file, (size_t)a.line};
  char t[24];
  dig(t, (uint64_t)g_tv, 1);
  ev_int("lib", lib); ev_int("sev", argi(2) * 10 + 10); ev_int("cond", argi(3)); ev_int("named", argi(4));
  ev_int("copy", argi(5)); ev_int("ms", ms[argi(5)]); ev_cstr("n", a.name);
  ev_bool("xv", g_ev); ev_bool("fv", g_fv); ev_bool("tfail", g_tfail); ev_cstr("tns", t);
  ev_int("nx", g_ne); ev_int("nf", g_nf); ev_int("nt", g_nt);
  ev_loc(&l); msg(a.s, a.n, a.fmt); fin();
}
// before the ledger forgets the blocks of the session
void log_leave(void)
{
  if (!g_active) {return;}
  if (g_rcutils_logging_initialized) {(void)!rcutils_logging_shutdown();}
}
void log_reset(void)
{
  if (!g_active) {return;}
  g_active = false;
  for (int i = 0; i < 5; i++) {__real_unsetenv(g_vars[i]);}
  for (int i = 0; i < 8; i++) {if (g_lib[i]) {__real_dlclose(g_lib[i]); g_lib[i] = NULL;}}
  for (int i = 0; i < g_nn; i++) {free(g_names[i]);}
  g_nn = 0;
  g_tty = false;
  g_clk_mode = 1; g_sec = 1; g_nsec = 0;
  setvbuf(stdout, NULL, _IOFBF, BUFSIZ);
  setvbuf(stderr, NULL, _IONBF, 0);
  g_raw_live = 0;
  rcutils_reset_error();
  if (rcutils_logging_initialize_with_allocator(plain_allocator()) != RCUTILS_RET_OK) {abort();}
}
// the session starts with logging shut down and nothing configured
static void lg_begin(void)
{
  lib_leave();
  log_leave();
  if (g_rcutils_logging_initialized) {(void)!rcutils_logging_shutdown();}
  g_active = true;
  g_clk_mode = 1; g_sec = 1; g_nsec = 0;
  g_raw_live = 0;
  setvbuf(stdout, NULL, _IOFBF, BUFSIZ);
  setvbuf(stderr, NULL, _IONBF, 0);
  ev_begin("LgBegin"); ev_end();
}
const op_t g_ops_log[] = {
  {"lg_begin", lg_begin}, {"lg_names", lg_names}, {"lg_env", lg_env}, {"lg_clock", lg_clock}, {"lg_tty", lg_tty},
  {"lg_init", lg_init}, {"lg_shutdown", lg_shutdown}, {"lg_seth", lg_seth}, {"lg_geth", lg_geth}, {"lg_set", lg_set},
  {"lg_setdef", lg_setdef}, {"lg_def", lg_def}, {"lg_own", lg_own}, {"lg_eff", lg_eff}, {"lg_en", lg_en},
  {"lg_log", lg_log}, {"lg_console", lg_console}, {"lg_fmt", lg_fmt}, {"lg_macro", lg_macro}, {0, 0}};
