// String utilities, command line and severity text.
#include "core.h"
#include <errno.h>
#include <stdarg.h>
#include "rcutils/cmdline_parser.h"
#include "rcutils/error_handling.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/logging.h"
#include "rcutils/repl_str.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/types/string_array.h"

static void out_str(const char * op, char * r)
{
  ev_begin(op);
  ev_bool("owned", r == NULL || led_owns(r));
  ev_bool("fits", r == NULL || (led_owns(r) && led_size(r) > strlen(r)));
  ev_cstr("out", r);
  led_release(r);
  rcutils_reset_error();
}
static void split_(const char * op, rcutils_ret_t (* fn)(const char *, char, rcutils_allocator_t, rcutils_string_array_t *))
{
  char * s = argx(1);
  char * d = argx(2);
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  rcutils_ret_t r = fn(s, d[0], led_allocator(), &a);
  ev_begin(op);
  ev_cstr("str", s); ev_int("delim", (unsigned char)d[0]); ev_int("ret", r);
  ev_arr_begin("out");
  if (r == RCUTILS_RET_OK) {for (size_t i = 0; i < a.size; i++) {ev_arr_cstr(a.data[i]);}}
  ev_arr_end();
  rcutils_reset_error();
  rcutils_ret_t f = rcutils_string_array_fini(&a);
  ev_int("fini", f);
  ev_end();
}
static void st_split(void) {split_("Split", rcutils_split);}
static void st_splitlast(void) {split_("SplitLast", rcutils_split_last);}
static void st_splitnull(void)
{
  char * s = argx(1);
  rcutils_ret_t r = rcutils_split(s, '/', led_allocator(), NULL);
  ev_begin("SplitNull"); ev_int("ret", r); rcutils_reset_error(); ev_end();
}
static long long pos(size_t p) {return p == SIZE_MAX ? -1 : (long long)p;}
static void st_find(void)   // STR CHAR : both directions, terminated
{
  char * s = argx(1);
  size_t dl;
  char * d = argx_noterm(2, &dl);
  size_t a = rcutils_find(s, d[0]), b = rcutils_find_last(s, d[0]);
  ev_begin("Find"); ev_cstr("str", s); ev_int("c", (unsigned char)d[0]); ev_int("first", pos(a)); ev_int("last", pos(b));
  ev_end();
}
static void st_findn(void)  // BYTES CHAR N : only the first N bytes exist
{
  size_t n, dl;
  char * s = argx_noterm(1, &n);
  char * d = argx_noterm(2, &dl);
  size_t a = rcutils_findn(s, d[0], n), b = rcutils_find_lastn(s, d[0], n);
  ev_begin("FindN");
  if (s) {ev_bytes("str", s, n);} else {ev_cstr("str", NULL);}
  ev_int("c", (unsigned char)d[0]); ev_int("first", pos(a)); ev_int("last", pos(b));
  ev_end();
}
static void st_repl(void)
{
  char * s = argx(1), * f = argx(2), * t = argx(3);
  rcutils_allocator_t a = led_allocator();
  char * r = rcutils_repl_str(s, f, t, &a);
  out_str("Repl", r);
  ev_cstr("str", s); ev_cstr("from", f); ev_cstr("to", t);
  ev_end();
}
static void st_dup(void)
{
  char * s = argx(1);
  char * r = rcutils_strdup(s, led_allocator());
  out_str("Dup", r);
  ev_cstr("str", s);
  ev_end();
}
static void st_ndup(void)   // BYTES N ; the source is not terminated when it has at least N bytes
{
  size_t len, n = (size_t)argll(2);
  char * raw = argx_noterm(1, &len);
  char * s = (raw && n <= len) ? raw : argx(1);
  char * r = rcutils_strndup(s, n, led_allocator());
  out_str("NDup", r);
  if (raw) {ev_bytes("str", raw, len);} else {ev_cstr("str", NULL);}
  ev_int("n", (long long)n);
  ev_end();
}
static void st_fmt(void)    // LIMIT A N B ; LIMIT -1 uses the default limit
{
  long long lim = argll(1);
  char * a = argx(2), * b = argx(4);
  int n = argi(3);
  int k = g_argc > 5 ? argi(5) : 0;   // which format
  rcutils_allocator_t al = led_allocator();
#define FMT(...) (lim < 0 ? rcutils_format_string(al, __VA_ARGS__) : rcutils_format_string_limit(al, (size_t)lim, __VA_ARGS__))
  char * r = k == 0 ? FMT("%s|%d|%s", a, n, b) : k == 1 ? FMT("%s%s", a, b) : k == 2 ? FMT("%.0s", a) : k == 3 ? FMT("%s%%", a) :
    FMT("%d", n);
#undef FMT
  out_str("Fmt", r);
  ev_int("lim", lim); ev_int("k", k); ev_cstr("a", a); ev_int("num", n); ev_cstr("b", b);
  ev_end();
}
static void st_fmtnull(void)
{
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  char * r1 = rcutils_format_string_limit(led_allocator(), 10, NULL);
  char * r2 = rcutils_format_string_limit(z, 10, "%d", 1);
  char * r3 = rcutils_strdup("x", z);
  char * r4 = rcutils_repl_str("x", "x", "y", &z);
  char b[4];
  int r5 = rcutils_snprintf(b, 4, NULL);
  int r6 = rcutils_snprintf(NULL, 4, "%d", 1);
  int r7 = rcutils_snprintf(b, 0, "%d", 1);
  ev_begin("FmtNull");
  ev_bool("ok", !r1 && !r2 && !r3 && !r4 && r5 == -1 && r6 == -1 && r7 == -1);
  ev_end();
}
static void st_snp(void)    // SIZE A N ; size 0 measures
{
  size_t n = (size_t)argll(1);
  char * a = argx(2);
  int k = argi(3);
  char * b = n ? scratch(n) : NULL;
  if (b) {memset(b, 0x7E, n);}
  int f = g_argc > 4 ? argi(4) : 0;   // which format
  int r = f == 0 ? rcutils_snprintf(b, n, "%s:%d", a, k) : f == 1 ? rcutils_snprintf(b, n, "%s", a) : rcutils_snprintf(b, n, "%.0s", a);
  ev_begin("Snp"); ev_int("k", f);
  ev_int("n", (long long)n); ev_cstr("a", a); ev_int("num", k); ev_int("ret", r);
  ev_bool("term", n == 0 || memchr(b, 0, n) != NULL);
  if (n && memchr(b, 0, n)) {ev_cstr("out", b);} else {ev_cstr("out", NULL);}
  ev_end();
}
static int sgn(int x) {return (x > 0) - (x < 0);}
static void st_case(void)
{
  char * a = argx(1), * b = argx(2);
  int v = 77;
  int r = rcutils_strcasecmp(a, b, &v);
  ev_begin("Case"); ev_cstr("a", a); ev_cstr("b", b); ev_int("ret", r); ev_int("v", r == 0 ? sgn(v) : v - 77); ev_end();
}
static void st_casen(void)
{
  size_t n = (size_t)argll(3), la, lb;
  char * ra = argx_noterm(1, &la), * rb = argx_noterm(2, &lb);
  char * a = ra && n <= la ? ra : argx(1), * b = rb && n <= lb ? rb : argx(2);
  int v = 77;
  int r = rcutils_strncasecmp(a, b, n, &v);
  ev_begin("CaseN");
  if (ra) {ev_bytes("a", ra, la);} else {ev_cstr("a", NULL);}
  if (rb) {ev_bytes("b", rb, lb);} else {ev_cstr("b", NULL);}
  ev_int("n", (long long)n); ev_int("ret", r); ev_int("v", r == 0 ? sgn(v) : v - 77); ev_end();
}
static void st_casenull(void)
{
  int a = rcutils_strcasecmp("a", "a", NULL), b = rcutils_strncasecmp("a", "a", 1, NULL);
  ev_begin("CaseNull"); ev_int("ret", a); ev_int("ret2", b); ev_end();
}
static void st_alnum(void)
{
  char * s = argx(1);
  ev_begin("Alnum"); ev_int("c", (unsigned char)s[0]); ev_bool("out", rcutils_isalnum_no_locale(s[0])); ev_end();
}
static void st_strerror(void)   // ERRNO BUFLEN
{
  int e = argi(1);
  size_t n = (size_t)argll(2);
  char * b = scratch(n);
  memset(b, 0x7E, n);
  errno = e;
  rcutils_strerror(b, n);
  char full[256];
  char * f = strerror_r(e, full, sizeof full);
  ev_begin("StrError");
  ev_int("n", (long long)n);
  ev_bool("term", memchr(b, 0, n) != NULL);
  if (memchr(b, 0, n)) {ev_cstr("out", b);} else {ev_cstr("out", NULL);}
  ev_cstr("full", f);
  ev_end();
}
static void st_cli(void)    // OPTION ARGS...
{
  char * opt = argx(1);
  int n = g_argc - 2;
  char ** v = scratch(sizeof(char *) * (size_t)n);   // exactly n pointers
  for (int i = 0; i < n; i++) {v[i] = argx(i + 2);}
  bool ex = rcutils_cli_option_exist(v, v + n, opt);
  char * val = rcutils_cli_get_option(v, v + n, opt);
  int which = -1;
  for (int i = 0; i < n; i++) {if (val && val == v[i]) {which = i; break;}}
  ev_begin("Cli");
  ev_cstr("opt", opt);
  ev_arr_begin("args"); for (int i = 0; i < n; i++) {ev_arr_cstr(v[i]);} ev_arr_end();
  ev_bool("ex", ex); ev_cstr("val", val); ev_int("which", which);
  ev_end();
}
static void st_sev(void)    // TEXT
{
  char * t = argx(1);
  int sv = 1234;
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(t, led_allocator(), &sv);
  ev_begin("Severity"); ev_cstr("str", t); ev_int("ret", r); ev_int("sev", sv);
  rcutils_reset_error(); ev_end();
}
static void st_sevnull(void)
{
  int sv = 5;
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  int a = rcutils_logging_severity_level_from_string("INFO", led_allocator(), NULL);
  int b = rcutils_logging_severity_level_from_string("INFO", z, &sv);
  ev_begin("SevNull"); ev_int("ret", a); ev_int("ret2", b); ev_int("sev", sv); rcutils_reset_error(); ev_end();
}
const op_t g_ops_str[] = {
  {"st_split", st_split}, {"st_splitlast", st_splitlast}, {"st_splitnull", st_splitnull},
  {"st_find", st_find}, {"st_findn", st_findn}, {"st_repl", st_repl}, {"st_dup", st_dup},
  {"st_ndup", st_ndup}, {"st_fmt", st_fmt}, {"st_fmtnull", st_fmtnull}, {"st_snp", st_snp},
  {"st_case", st_case}, {"st_casen", st_casen}, {"st_casenull", st_casenull}, {"st_alnum", st_alnum},
  {"st_strerror", st_strerror}, {"st_cli", st_cli}, {"st_sev", st_sev}, {"st_sevnull", st_sevnull}, {0, 0}};
