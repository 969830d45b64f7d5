// The operations threads perform.
#include "conc.h"
#include <errno.h>
#include <unistd.h>
#include "rcutils/allocator.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "rcutils/types/uint8_array.h"

buf_t g_setup;
#define A rcutils_get_default_allocator()
#define OUT(...) bput(&x->ret, __VA_ARGS__)
#define OP(n) static void n(th_t * x, const cmd_t * c)

// ---------------------------------------------------------------- fault injection counter
OP(fi_set_call) {bput(&x->call, ",\"f\":\"set\",\"a\":"); blimbs(&x->call, ci(c, 1));}
OP(fi_set) {(void)x; rcutils_fault_injection_set_count(ci(c, 1));}
OP(fi_get_call) {(void)c; bput(&x->call, ",\"f\":\"get\"");}
OP(fi_get) {(void)c; int64_t v = rcutils_fault_injection_get_count(); OUT(",\"v\":"); blimbs(&x->ret, v);}
OP(fi_maybe_call) {(void)c; bput(&x->call, ",\"f\":\"maybe\"");}
OP(fi_maybe)   // HOW: the macro which executes code, the macro which returns, or the function behind them
{
  bool fail = false;
  switch (ci(c, 1)) {
    case 0: fail = _rcutils_fault_injection_maybe_fail() == RCUTILS_FAULT_INJECTION_FAIL_NOW; break;
    default: {RCUTILS_FAULT_INJECTION_MAYBE_FAIL(fail = true); break;}
  }
  OUT(",\"v\":%s", fail ? "true" : "false");
}
OP(fi_done_call) {(void)c; bput(&x->call, ",\"f\":\"done\"");}
OP(fi_done) {(void)c; OUT(",\"v\":%s", rcutils_fault_injection_is_test_complete() ? "true" : "false");}
// a function with K injection points under RCUTILS_FAULT_INJECTION_TEST: which point failed in each run
static int point_(int i) {RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(i); return -1;}
OP(fi_test_call) {bput(&x->call, ",\"f\":\"test\",\"k\":%lld,\"pause\":%lld", ci(c, 1), ci(c, 2));}
OP(fi_test)
{
  int k = (int)ci(c, 1), pause = (int)ci(c, 2), runs = 0;
  OUT(",\"v\":[");
  RCUTILS_FAULT_INJECTION_TEST({
    OUT(runs++ ? ",[" : "[");
    for (int i = 0, n = 0; i < k && runs < 60; i++) {
      int f = -1;
      if (i == pause) {RCUTILS_NO_FAULT_INJECTION({f = point_(i);});} else {f = point_(i);}
      if (f >= 0) {OUT(n++ ? ",%d" : "%d", f);}
    }
    OUT("]");
    if (runs >= 60) {break;}
  });
  OUT("]");
}
// how many injection points a call of the library reaches, and what it says when each of them fails
static int subject(int w, th_t * x)
{
  (void)x;
  rcutils_allocator_t a = A;
  int r = 0;
  switch (w) {
    case 0: {char * s = rcutils_strdup("abc", a); r = s != NULL; free(s); break;}
    case 1: {rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
        r = rcutils_string_map_init(&m, 2, a) == RCUTILS_RET_OK;
        if (r) {r = rcutils_string_map_set(&m, "k", "v") == RCUTILS_RET_OK; if (rcutils_string_map_fini(&m) != RCUTILS_RET_OK) {r = 0;}}
        break;}
    case 2: {rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
        r = rcutils_array_list_init(&l, 2, 4, &a) == RCUTILS_RET_OK;
        if (r) {int v = 5; r = rcutils_array_list_add(&l, &v) == RCUTILS_RET_OK; if (rcutils_array_list_fini(&l) != RCUTILS_RET_OK) {r = 0;}}
        break;}
    case 3: {rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
        r = rcutils_split("a,b,c", ',', a, &s) == RCUTILS_RET_OK;
        if (rcutils_string_array_fini(&s) != RCUTILS_RET_OK) {r = 0;}
        break;}
    case 4: {rcutils_char_array_t s = rcutils_get_zero_initialized_char_array();
        r = rcutils_char_array_init(&s, 4, &a) == RCUTILS_RET_OK;
        if (r) {r = rcutils_char_array_strcpy(&s, "a longer text") == RCUTILS_RET_OK; if (rcutils_char_array_fini(&s) != RCUTILS_RET_OK) {r = 0;}}
        break;}
    case 5: {const char * v = NULL; r = rcutils_get_env("CONC_ENV", &v) == NULL; break;}
    case 6: {rcutils_time_point_value_t t; r = rcutils_system_time_now(&t) == RCUTILS_RET_OK; break;}
    case 7: {char * s = rcutils_repl_str("a.b.c", ".", "::", &a); r = s != NULL; free(s); break;}
    case 8: {char * s = rcutils_format_string(a, "%s-%d", "x", 5); r = s != NULL; free(s); break;}
    default: {char b[64]; r = rcutils_get_cwd(b, sizeof(b)); break;}
  }
  rcutils_reset_error();
  return r;
}
OP(fi_lib_call) {bput(&x->call, ",\"f\":\"lib\",\"w\":%lld", ci(c, 1));}
OP(fi_lib)   // W: [ok, remaining] of runs with the counter at -1, 10^6, 0, 1, 2, ... until nothing fails
{
  int w = (int)ci(c, 1);
  rcutils_fault_injection_set_count(-1);
  int ok = subject(w, x);
  OUT(",\"off\":[%d,%d]", ok, (int)rcutils_fault_injection_get_count());
  rcutils_fault_injection_set_count(1000000);
  ok = subject(w, x);
  int points = 1000000 - (int)rcutils_fault_injection_get_count();
  OUT(",\"far\":%d,\"points\":%d,\"v\":[", ok, points);
  for (int n = 0; n <= points + 1 && n < 200; n++) {
    rcutils_fault_injection_set_count(n);
    ok = subject(w, x);
    OUT(n ? ",[%d,%d]" : "[%d,%d]", ok, (int)rcutils_fault_injection_get_count());
  }
  rcutils_fault_injection_set_count(-1);
  OUT("]");
}

// ---------------------------------------------------------------- logging
static const char * ENVS[] = {"RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT",
  "RCUTILS_CONSOLE_OUTPUT_FORMAT"};
static bool g_log;
static void handler(
  const rcutils_log_location_t * loc, int sev, const char * name, rcutils_time_point_value_t ts, const char * fmt, va_list * args)
{
  th_t * x = t_me;
  if (!x) {return;}
  sched_lib(false);
  va_list a;
  va_copy(a, *args);
  buf_t b = {0};
  char d[24];
  snprintf(d, sizeof(d), "%019lld", (long long)ts);
  char text[4096];
  vsnprintf(text, sizeof(text), fmt, a);
  va_end(a);
  bput(&b, "%s[2,%d,", x->dl.n ? "," : "", sev);
  bcstr(&b, name); bput(&b, ","); bcstr(&b, fmt); bput(&b, ","); bcstr(&b, text);
  bput(&b, ",%d,", loc != NULL);
  bcstr(&b, loc ? loc->function_name : NULL); bput(&b, ","); bcstr(&b, loc ? loc->file_name : NULL); bput(&b, ",");
  char ln[24];
  snprintf(ln, sizeof(ln), "%zu", loc ? loc->line_number : 0);
  bcstr(&b, loc ? ln : NULL);
  bput(&b, ","); bcstr(&b, d); bput(&b, "]");
  bput(&x->dl, "%.*s", (int)b.n, b.p);
  free(b.p);
  sched_lib(true);
}
void ops_setup(const cmd_t * c)
{
  const char * o = c->w[0];
  if (!strcmp(o, "fi")) {
    rcutils_fault_injection_set_count(ci(c, 1));
    bput(&g_setup, ",\"count\":"); blimbs(&g_setup, ci(c, 1));
  } else if (!strcmp(o, "env")) {
    if (cx(c, 2)) {setenv(ENVS[ci(c, 1) - 1], cx(c, 2), 1);} else {unsetenv(ENVS[ci(c, 1) - 1]);}
    bput(&g_setup, ",\"env%lld\":", ci(c, 1)); bcstr(&g_setup, cx(c, 2));
  } else if (!strcmp(o, "log")) {      // HANDLER DEFAULT then NAME LEVEL ...
    setvbuf(stdout, NULL, _IOLBF, 0); setvbuf(stderr, NULL, _IONBF, 0);
    if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
    g_log = true;
    if (ci(c, 1) == 2) {rcutils_logging_set_output_handler(handler);}
    rcutils_logging_set_default_logger_level((int)ci(c, 2));
    bput(&g_setup, ",\"hd\":%lld,\"def\":%lld,\"lv\":[", ci(c, 1), ci(c, 2));
    for (int i = 3; i + 1 < c->n; i += 2) {
      if (rcutils_logging_set_logger_level(cx(c, i), (int)ci(c, i + 1)) != RCUTILS_RET_OK) {abort();}
      bput(&g_setup, i > 3 ? ",[" : "["); bcstr(&g_setup, cx(c, i)); bput(&g_setup, ",%lld]", ci(c, i + 1));
    }
    bput(&g_setup, "]");
  } else if (!strcmp(o, "cells")) {
    extern void cells_setup(const cmd_t *);
    cells_setup(c);
  } else {
    _exit(3);
  }
}
void ops_teardown(void)
{
  if (g_log) {
    if (rcutils_logging_shutdown() != RCUTILS_RET_OK) {abort();}
    g_log = false;
    for (int i = 0; i < 4; i++) {unsetenv(ENVS[i]);}
  }
  rcutils_fault_injection_set_count(-1);
  rcutils_reset_error();
}
// SEV NAME FMT S NUM LOC FUNC FILE LINE NOW
OP(lg_call)
{
  th_t * y = x;
  char d[24];
  snprintf(d, sizeof(d), "%019lld", ci(c, 10));
  bput(&y->call, ",\"sev\":%lld,\"n\":", ci(c, 1)); bcstr(&y->call, cx(c, 2));
  bput(&y->call, ",\"fmt\":"); bcstr(&y->call, cx(c, 3));
  bput(&y->call, ",\"s\":"); bcstr(&y->call, cx(c, 4));
  bput(&y->call, ",\"num\":%lld,\"loc\":%s,\"func\":", ci(c, 5), ci(c, 6) ? "true" : "false"); bcstr(&y->call, cx(c, 7));
  bput(&y->call, ",\"file\":"); bcstr(&y->call, cx(c, 8));
  bput(&y->call, ",\"line\":"); bcstr(&y->call, c->w[9]);
  bput(&y->call, ",\"ts\":"); bcstr(&y->call, d);
}
OP(lg_run)
{
  rcutils_log_location_t loc = {cx(c, 7), cx(c, 8), (size_t)ci(c, 9)};
  x->now = ci(c, 10);
  rcutils_log(ci(c, 6) ? &loc : NULL, (int)ci(c, 1), cx(c, 2), cx(c, 3), cx(c, 4), (int)ci(c, 5));
  OUT(",\"dl\":[%.*s],\"es\":%s", (int)x->dl.n, x->dl.p ? x->dl.p : "", rcutils_error_is_set() ? "true" : "false");
}

// ---------------------------------------------------------------- private objects and stateless helpers
#define R ",\"r\":"
static void str_(th_t * x, char * s) {OUT(R); bcstr(&x->ret, s); free(s);}
enum {HM, SM, AL, CA, UA, SHA, KEYS};
static size_t hash_(const void * k) {return *(const unsigned char *)k % 3;}
static int cmp_(const void * a, const void * b) {return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b;}
OP(hm_init)
{
  rcutils_hash_map_t * m = calloc(1, sizeof(*m));
  *m = rcutils_get_zero_initialized_hash_map();
  rcutils_allocator_t a = A;
  x->obj[HM] = m;
  OUT(R "%d", (int)rcutils_hash_map_init(m, (size_t)ci(c, 1), 1, sizeof(int), ci(c, 2) ? hash_ : rcutils_hash_map_string_hash_func, cmp_, &a));
}
OP(hm_set) {unsigned char k = (unsigned char)ci(c, 1); int v = (int)ci(c, 2); OUT(R "%d", (int)rcutils_hash_map_set(x->obj[HM], &k, &v));}
OP(hm_unset) {unsigned char k = (unsigned char)ci(c, 1); OUT(R "%d", (int)rcutils_hash_map_unset(x->obj[HM], &k));}
OP(hm_get)
{
  unsigned char k = (unsigned char)ci(c, 1);
  int v = -1, r = (int)rcutils_hash_map_get(x->obj[HM], &k, &v);
  OUT(R "[%d,%d]", r, v);
}
OP(hm_all)
{
  (void)c;
  unsigned char k = 0;
  int v = 0, r, n = 0;
  OUT(R "[");
  for (r = (int)rcutils_hash_map_get_next_key_and_data(x->obj[HM], NULL, &k, &v); r == RCUTILS_RET_OK;
    r = (int)rcutils_hash_map_get_next_key_and_data(x->obj[HM], &k, &k, &v))
  {
    OUT("%d,%d,", k, v);
    if (++n > 100) {break;}
  }
  size_t s = 0, cap = 0;
  int e = rcutils_hash_map_get_size(x->obj[HM], &s), f = rcutils_hash_map_get_capacity(x->obj[HM], &cap);
  OUT("%d,%d,%d,%zu,%zu]", r, e, f, s, cap);
}
OP(sm_set)
{
  rcutils_string_map_t * m = x->obj[SM];
  int r = 0;
  if (!m) {
    x->obj[SM] = m = calloc(1, sizeof(*m));
    *m = rcutils_get_zero_initialized_string_map();
    r = 1000 * (int)rcutils_string_map_init(m, 1, A);
  }
  OUT(R "%d", r + (int)rcutils_string_map_set(m, cx(c, 1), cx(c, 2)));
}
OP(sm_get) {const char * r = x->obj[SM] ? rcutils_string_map_get(x->obj[SM], cx(c, 1)) : NULL; OUT(R); bcstr(&x->ret, r);}
OP(sm_unset) {OUT(R "%d", x->obj[SM] ? (int)rcutils_string_map_unset(x->obj[SM], cx(c, 1)) : -1);}
OP(al_add)
{
  rcutils_array_list_t * l = x->obj[AL];
  rcutils_allocator_t a = A;
  int r = 0, v = (int)ci(c, 1);
  if (!l) {
    x->obj[AL] = l = calloc(1, sizeof(*l));
    *l = rcutils_get_zero_initialized_array_list();
    r = 1000 * (int)rcutils_array_list_init(l, 1, sizeof(int), &a);
  }
  OUT(R "%d", r + (int)rcutils_array_list_add(l, &v));
}
OP(al_remove) {OUT(R "%d", x->obj[AL] ? (int)rcutils_array_list_remove(x->obj[AL], (size_t)ci(c, 1)) : -1);}
OP(al_get)
{
  int v = -1, r = x->obj[AL] ? (int)rcutils_array_list_get(x->obj[AL], (size_t)ci(c, 1), &v) : -1;
  OUT(R "[%d,%d]", r, v);
}
static rcutils_char_array_t * ca_(th_t * x)
{
  if (!x->obj[CA]) {
    rcutils_char_array_t * p = calloc(1, sizeof(*p));
    rcutils_allocator_t a = A;
    *p = rcutils_get_zero_initialized_char_array();
    if (rcutils_char_array_init(p, 4, &a) != RCUTILS_RET_OK) {abort();}
    x->obj[CA] = p;
  }
  return x->obj[CA];
}
static void ca_out(th_t * x, int r)
{
  rcutils_char_array_t * p = x->obj[CA];
  OUT(R "[%d,%zu,%zu,", r, p->buffer_length, p->buffer_capacity);
  bbytes(&x->ret, p->buffer, p->buffer_length);
  OUT("]");
}
static int ca_format(rcutils_char_array_t * p, const char * fmt, ...)
{
  va_list a;
  va_start(a, fmt);
  int r = (int)rcutils_char_array_vsprintf(p, fmt, a);
  va_end(a);
  return r;
}
OP(ca_printf) {rcutils_char_array_t * p = ca_(x); ca_out(x, ca_format(p, cx(c, 1), cx(c, 2), (int)ci(c, 3)));}
OP(ca_strcat) {rcutils_char_array_t * p = ca_(x); ca_out(x, (int)rcutils_char_array_strcat(p, cx(c, 1)));}
OP(ca_strcpy) {rcutils_char_array_t * p = ca_(x); ca_out(x, (int)rcutils_char_array_strcpy(p, cx(c, 1)));}
OP(ua_resize)
{
  rcutils_uint8_array_t * p = x->obj[UA];
  rcutils_allocator_t a = A;
  int r;
  if (!p) {
    x->obj[UA] = p = calloc(1, sizeof(*p));
    *p = rcutils_get_zero_initialized_uint8_array();
    r = (int)rcutils_uint8_array_init(p, (size_t)ci(c, 1), &a);
  } else {
    r = (int)rcutils_uint8_array_resize(p, (size_t)ci(c, 1));
  }
  OUT(R "[%d,%zu,%zu]", r, p->buffer_length, p->buffer_capacity);
}
OP(sha_add)
{
  rcutils_sha256_ctx_t * s = x->obj[SHA];
  if (!s) {x->obj[SHA] = s = calloc(1, sizeof(*s)); rcutils_sha256_init(s);}
  rcutils_sha256_update(s, (const uint8_t *)cx(c, 1), strlen(cx(c, 1)));
  OUT(R "0");
}
OP(sha_end)
{
  (void)c;
  uint8_t d[RCUTILS_SHA256_BLOCK_SIZE];
  if (!x->obj[SHA]) {OUT(R "1"); return;}
  rcutils_sha256_final(x->obj[SHA], d);
  rcutils_sha256_init(x->obj[SHA]);
  OUT(R); bbytes(&x->ret, d, sizeof(d));
}
static void sa_out(th_t * x, int r, rcutils_string_array_t * s)
{
  OUT(R "[%d", r);
  for (size_t i = 0; i < s->size; i++) {OUT(","); bcstr(&x->ret, s->data[i]);}
  OUT("]");
  if (rcutils_string_array_fini(s) != RCUTILS_RET_OK) {OUT(",\"fini\":0");}
}
OP(split)
{
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  int r = (int)(ci(c, 3) ? rcutils_split_last(cx(c, 1), *cx(c, 2), A, &s) : rcutils_split(cx(c, 1), *cx(c, 2), A, &s));
  sa_out(x, r, &s);
}
OP(sort)   // words of a text, sorted
{
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  int r = (int)rcutils_split(cx(c, 1), ',', A, &s);
  r += 1000 * (int)rcutils_string_array_sort(&s);
  sa_out(x, r, &s);
}
OP(repl) {rcutils_allocator_t a = A; str_(x, rcutils_repl_str(cx(c, 1), cx(c, 2), cx(c, 3), &a));}
OP(fmt) {str_(x, rcutils_format_string_limit(A, (size_t)ci(c, 1), cx(c, 2), cx(c, 3), (int)ci(c, 4)));}
OP(dup_) {str_(x, rcutils_strndup(cx(c, 1), (size_t)ci(c, 2), A));}
OP(find) {OUT(R "[%zd,%zd]", (ssize_t)rcutils_find(cx(c, 1), *cx(c, 2)), (ssize_t)rcutils_find_last(cx(c, 1), *cx(c, 2)));}
OP(icase)
{
  int r = 0, q = 0, m = rcutils_strcasecmp(cx(c, 1), cx(c, 2), &r), n = rcutils_strncasecmp(cx(c, 1), cx(c, 2), 2, &q);
  OUT(R "[%d,%d,%d,%d]", m, r > 0 ? 1 : r < 0 ? -1 : 0, n, q > 0 ? 1 : q < 0 ? -1 : 0);
}
OP(snp) {char b[24] = ""; int r = rcutils_snprintf(b, sizeof(b), cx(c, 1), cx(c, 2), (int)ci(c, 3)); OUT(R "[%d,", r); bcstr(&x->ret, b); OUT("]");}
OP(sev) {int v = -7, r = (int)rcutils_logging_severity_level_from_string(cx(c, 1), A, &v); OUT(R "[%d,%d]", r, v); rcutils_reset_error();}
OP(cli)
{
  char * argv[] = {cx(c, 1), cx(c, 2), cx(c, 3), cx(c, 4)};
  bool e = rcutils_cli_option_exist(argv, argv + 4, cx(c, 5));
  char * v = rcutils_cli_get_option(argv, argv + 4, cx(c, 5));
  OUT(R "[%d,", e); bcstr(&x->ret, v); OUT("]");
}
OP(tstr)   // HOW NS SIZE
{
  char b[64] = "";
  int64_t t = ci(c, 2);
  size_t n = (size_t)ci(c, 3);
  int r;
  switch (ci(c, 1)) {
    case 0: r = (int)rcutils_time_point_value_as_nanoseconds_string(&t, b, n); break;
    case 1: r = (int)rcutils_time_point_value_as_seconds_string(&t, b, n); break;
    default: r = (int)rcutils_time_point_value_as_date_string(&t, b, n);
  }
  OUT(R "[%d,", r); bcstr(&x->ret, b); OUT("]");
  rcutils_reset_error();
}
OP(now)
{
  int64_t a = 0, b = 0;
  x->now = ci(c, 1);
  int r = (int)rcutils_system_time_now(&a);
  x->now = ci(c, 2);
  int q = (int)rcutils_steady_time_now(&b);
  OUT(R "[%d,", r); blimbs(&x->ret, a); OUT(",%d,", q); blimbs(&x->ret, b); OUT("]");
}
OP(path)
{
  OUT(R "[");
  char * p = rcutils_join_path(cx(c, 1), cx(c, 2), A), * q = rcutils_to_native_path(cx(c, 1), A), * r = rcutils_expand_user(cx(c, 1), A);
  bcstr(&x->ret, p); OUT(","); bcstr(&x->ret, q); OUT(","); bcstr(&x->ret, r);
  OUT("]");
  free(p); free(q); free(r);
}
OP(fs)
{
  char b[512] = "";
  bool w = rcutils_get_cwd(b, sizeof(b));
  const char * p = cx(c, 1);
  OUT(R "[%d,", w); bcstr(&x->ret, b);
  OUT(",%d,%d,%d,%d,%zu]", rcutils_exists(p), rcutils_is_directory(p), rcutils_is_file(p), rcutils_is_readable(p), rcutils_get_file_size(p));
  rcutils_reset_error();
}
OP(env_) {const char * v = "?", * e = rcutils_get_env(cx(c, 1), &v); OUT(R "["); bcstr(&x->ret, e); OUT(","); bcstr(&x->ret, v); OUT("]");}
OP(exe) {(void)c; OUT(R "["); char * p = rcutils_get_executable_name(A); bcstr(&x->ret, p); free(p); OUT(",%d]", rcutils_get_pid() == (int)getpid());}
OP(serr)
{
  char b[128] = "";
  errno = (int)ci(c, 1);
  rcutils_strerror(b, (size_t)ci(c, 2));
  OUT(R); bcstr(&x->ret, b);
}
OP(order)   // numbers sorted by rcutils_qsort
{
  unsigned char v[12];
  size_t n = strlen(cx(c, 1));
  if (n > sizeof(v)) {n = sizeof(v);}
  memcpy(v, cx(c, 1), n);
  int r = (int)rcutils_qsort(v, n, 1, cmp_);
  OUT(R "[%d,", r); bbytes(&x->ret, v, n); OUT("]");
}
static void es_out(th_t * x)
{
  const rcutils_error_state_t * s = rcutils_get_error_state();
  bool set = rcutils_error_is_set();
  OUT(R "[%d,", set);
  bcstr(&x->ret, set && s ? s->message : NULL); OUT(",");
  bcstr(&x->ret, set && s ? s->file : NULL);
  OUT(",%lld,", set && s ? (long long)s->line_number : 0LL);
  rcutils_error_string_t t = rcutils_get_error_string();
  bcstr(&x->ret, t.str); OUT("]");
}
OP(es_set) {rcutils_set_error_state(cx(c, 1), cx(c, 2), (size_t)ci(c, 3)); es_out(x);}
OP(es_fmt)   // the file and line recorded are the harness's own
{
  RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s:%d", cx(c, 1), (int)ci(c, 2));
  es_out(x);
}
OP(es_get) {(void)c; es_out(x);}
OP(es_reset) {(void)c; rcutils_reset_error(); es_out(x);}
OP(es_tls) {(void)c; OUT(R "%d", (int)rcutils_initialize_error_handling_thread_local_storage(A));}
void ops_thread_end(th_t * x)
{
  if (x->obj[HM]) {if (rcutils_hash_map_fini(x->obj[HM]) != RCUTILS_RET_OK) {rcutils_reset_error();} free(x->obj[HM]);}
  if (x->obj[SM]) {if (rcutils_string_map_fini(x->obj[SM]) != RCUTILS_RET_OK) {rcutils_reset_error();} free(x->obj[SM]);}
  if (x->obj[AL]) {if (rcutils_array_list_fini(x->obj[AL]) != RCUTILS_RET_OK) {rcutils_reset_error();} free(x->obj[AL]);}
  if (x->obj[CA]) {if (rcutils_char_array_fini(x->obj[CA]) != RCUTILS_RET_OK) {rcutils_reset_error();} free(x->obj[CA]);}
  if (x->obj[UA]) {if (rcutils_uint8_array_fini(x->obj[UA]) != RCUTILS_RET_OK) {rcutils_reset_error();} free(x->obj[UA]);}
  free(x->obj[SHA]);
  memset(x->obj, 0, sizeof(x->obj));
}
const cop_t g_cops[] = {
  {"fi_set", fi_set_call, fi_set}, {"fi_get", fi_get_call, fi_get}, {"fi_maybe", fi_maybe_call, fi_maybe},
  {"fi_done", fi_done_call, fi_done}, {"fi_test", fi_test_call, fi_test}, {"fi_lib", fi_lib_call, fi_lib},
  {"lg", lg_call, lg_run},
  {"hm_init", 0, hm_init}, {"hm_set", 0, hm_set}, {"hm_unset", 0, hm_unset}, {"hm_get", 0, hm_get}, {"hm_all", 0, hm_all},
  {"sm_set", 0, sm_set}, {"sm_get", 0, sm_get}, {"sm_unset", 0, sm_unset}, {"al_add", 0, al_add}, {"al_remove", 0, al_remove},
  {"al_get", 0, al_get}, {"ca_printf", 0, ca_printf}, {"ca_strcat", 0, ca_strcat}, {"ca_strcpy", 0, ca_strcpy},
  {"ua_resize", 0, ua_resize}, {"sha_add", 0, sha_add}, {"sha_end", 0, sha_end}, {"split", 0, split}, {"sort", 0, sort},
  {"repl", 0, repl}, {"fmt", 0, fmt}, {"dup", 0, dup_}, {"find", 0, find}, {"icase", 0, icase}, {"snp", 0, snp}, {"sev", 0, sev},
  {"cli", 0, cli}, {"tstr", 0, tstr}, {"now", 0, now}, {"path", 0, path}, {"fs", 0, fs}, {"env", 0, env_}, {"exe", 0, exe},
  {"serr", 0, serr}, {"order", 0, order}, {"es_set", 0, es_set}, {"es_fmt", 0, es_fmt}, {"es_get", 0, es_get}, {"es_reset", 0, es_reset},
  {"es_tls", 0, es_tls}, {0, 0, 0}};
