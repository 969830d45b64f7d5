// Growable character buffer and byte buffer operations (one of each).
#include "core.h"
#include <stdarg.h>
#include "rcutils/types/char_array.h"
#include "rcutils/types/uint8_array.h"
#include "rcutils/error_handling.h"
static rcutils_char_array_t g_ca_[NSEL];
#define g_ca g_ca_[g_sel]
static rcutils_uint8_array_t g_ua_[NSEL];
#define g_ua g_ua_[g_sel]
static char * g_user_[NSEL];
#define g_user g_user_[g_sel]       // storage supplied by the caller
static size_t g_user_n_[NSEL];
#define g_user_n g_user_n_[g_sel]
void * __real_malloc(size_t);
void __real_free(void *);

static void obs(void)
{
  ev_bool("owned", g_ca.owns_buffer);
  ev_int("cap", (long long)g_ca.buffer_capacity);
  ev_int("len", (long long)g_ca.buffer_length);
  ev_bool("null", g_ca.buffer == NULL);
  ev_bool("user", g_user != NULL && g_ca.buffer == g_user);
  // the content, but never more than the capacity says is there
  size_t n = g_ca.buffer_length < g_ca.buffer_capacity ? g_ca.buffer_length : g_ca.buffer_capacity;
  if (!g_ca.buffer) {n = 0;}
  bool ledgered = g_ca.buffer && (g_ca.buffer == g_user ? g_user_n >= g_ca.buffer_capacity :
    led_owns(g_ca.buffer) && led_size(g_ca.buffer) >= g_ca.buffer_capacity);
  ev_bool("backed", g_ca.buffer ? ledgered : true);   // storage really has that capacity
  ev_bytes("buf", g_ca.buffer, ledgered ? n : 0);
  ev_int("first", ledgered && g_ca.buffer_capacity ? (unsigned char)g_ca.buffer[0] : -1);
  rcutils_reset_error();
}
static void fin(int r) {ev_int("ret", r); obs(); ev_end();}
static void ca_init(void)
{
  size_t n = strtoull(args(1), NULL, 10);
  rcutils_allocator_t a = led_allocator();
  g_ca = rcutils_get_zero_initialized_char_array();
  rcutils_ret_t r = rcutils_char_array_init(&g_ca, n, &a);
  op_made(r == RCUTILS_RET_OK);
  ev_begin("CaInit"); ev_int("n", n > 1000000000 ? -1 : (long long)n); fin(r);
}
static void ca_wrap(void)   // CAP TEXT : storage of CAP bytes supplied by the caller holding TEXT
{
  size_t n = strtoull(args(1), NULL, 10);
  char * t = argx(2);
  __real_free(g_user);
  g_user_n = n;
  g_user = __real_malloc(n ? n : 1);
  size_t l = t ? strlen(t) + 1 : 0;
  if (l) {memcpy(g_user, t, l);} else if (n) {g_user[0] = 0;}
  g_ca = rcutils_get_zero_initialized_char_array();
  g_ca.buffer = n ? g_user : NULL;
  g_ca.owns_buffer = false;
  g_ca.buffer_capacity = n;
  g_ca.buffer_length = l;
  g_ca.allocator = led_allocator();
  ev_begin("CaWrap"); ev_int("n", (long long)n); ev_cstr("text", t); fin(0);
}
static void ca_fini(void)
{
  rcutils_ret_t r = rcutils_char_array_fini(&g_ca);
  ev_begin("CaFini"); fin(r);
}
static void ca_resize(void)
{
  size_t n = strtoull(args(1), NULL, 10);
  rcutils_ret_t r = rcutils_char_array_resize(&g_ca, n);
  ev_begin("CaResize"); ev_int("n", n > 1000000000 ? -1 : (long long)n); fin(r);
}
static void ca_expand(void)
{
  size_t n = strtoull(args(1), NULL, 10);
  rcutils_ret_t r = rcutils_char_array_expand_as_needed(&g_ca, n);
  ev_begin("CaExpand"); ev_int("n", n > 1000000000 ? -1 : (long long)n); fin(r);
}
static rcutils_ret_t pr(const char * f, ...)
{
  va_list a;
  va_start(a, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(&g_ca, f, a);
  va_end(a);
  return r;
}
static void ca_printf(void)  // A N B : prints A, the number N and B
{
  char * a = argx(1), * b = argx(3);
  int n = argi(2);
  rcutils_ret_t r = pr("%s%d%s", a, n, b);
  ev_begin("CaPrintf"); ev_cstr("a", a); ev_int("num", n); ev_cstr("b", b); fin(r);
}
static void ca_strcpy(void)
{
  char * t = argx(1);
  rcutils_ret_t r = rcutils_char_array_strcpy(&g_ca, t);
  ev_begin("CaStrcpy"); ev_cstr("str", t); fin(r);
}
static void ca_strcat(void)
{
  char * t = argx(1);
  rcutils_ret_t r = rcutils_char_array_strcat(&g_ca, t);
  ev_begin("CaStrcat"); ev_cstr("str", t); fin(r);
}
static void ca_strncat(void)  // STR N ; the source is not terminated when it has at least N bytes
{
  size_t len, n = (size_t)argll(2);
  char * raw = argx_noterm(1, &len);
  char * t = n <= len ? raw : argx(1);
  rcutils_ret_t r = rcutils_char_array_strncat(&g_ca, t, n);
  ev_begin("CaStrncat"); ev_bytes("str", raw, len); ev_int("n", (long long)n); fin(r);
}
static void ca_memcpy(void)
{
  size_t len;
  char * t = argx_noterm(1, &len);
  rcutils_ret_t r = rcutils_char_array_memcpy(&g_ca, t, len);
  ev_begin("CaMemcpy"); ev_bytes("str", t, len); fin(r);
}
static void ca_nulls(void)
{
  rcutils_allocator_t a = led_allocator(), z = rcutils_get_zero_initialized_allocator();
  rcutils_char_array_t t = rcutils_get_zero_initialized_char_array();
  int r[8], i = 0;
  r[i++] = rcutils_char_array_init(NULL, 1, &a);
  r[i++] = rcutils_char_array_init(&t, 1, NULL);
  r[i++] = rcutils_char_array_init(&t, 1, &z);
  r[i++] = rcutils_char_array_fini(NULL);
  r[i++] = rcutils_char_array_resize(NULL, 1);
  r[i++] = rcutils_char_array_expand_as_needed(NULL, 1);
  ev_begin("CaNulls");
  ev_arr_begin("rets"); for (int j = 0; j < i; j++) {ev_arr_int(r[j]);} ev_arr_end();
  fin(0);
}
// ---- bytes
static void uobs(void)
{
  ev_int("cap", (long long)g_ua.buffer_capacity);
  ev_int("len", (long long)g_ua.buffer_length);
  ev_bool("null", g_ua.buffer == NULL);
  bool backed = g_ua.buffer ? led_owns(g_ua.buffer) && led_size(g_ua.buffer) >= g_ua.buffer_capacity : true;
  ev_bool("backed", backed);
  size_t n = g_ua.buffer_length < g_ua.buffer_capacity ? g_ua.buffer_length : g_ua.buffer_capacity;
  ev_bytes("buf", g_ua.buffer, g_ua.buffer && backed ? n : 0);
  rcutils_reset_error();
}
static void ufin(int r) {ev_int("ret", r); uobs(); ev_end();}
static void ua_init(void)
{
  size_t n = strtoull(args(1), NULL, 10);
  rcutils_allocator_t a = led_allocator();
  g_ua = rcutils_get_zero_initialized_uint8_array();
  rcutils_ret_t r = rcutils_uint8_array_init(&g_ua, n, &a);
  op_made(r == RCUTILS_RET_OK);
  ev_begin("UaInit"); ev_int("n", n > 1000000000 ? -1 : (long long)n); ufin(r);
}
static void ua_fill(void)   // BYTES : the user writes them (up to the capacity) and sets the length
{
  size_t n;
  char * t = argx_noterm(1, &n);
  if (n > g_ua.buffer_capacity) {n = g_ua.buffer_capacity;}
  if (g_ua.buffer && n) {memcpy(g_ua.buffer, t, n); g_ua.buffer_length = n;} else {n = 0; g_ua.buffer_length = 0;}
  ev_begin("UaFill"); ev_bytes("str", t, n); ufin(0);
}
static void ua_resize(void)
{
  size_t n = strtoull(args(1), NULL, 10);
  rcutils_ret_t r = rcutils_uint8_array_resize(&g_ua, n);
  ev_begin("UaResize"); ev_int("n", n > 1000000000 ? -1 : (long long)n); ufin(r);
}
static void ua_fini(void)
{
  rcutils_ret_t r = rcutils_uint8_array_fini(&g_ua);
  ev_begin("UaFini"); ufin(r);
}
static void ua_nulls(void)
{
  rcutils_allocator_t a = led_allocator(), z = rcutils_get_zero_initialized_allocator();
  rcutils_uint8_array_t t = rcutils_get_zero_initialized_uint8_array();
  int r[8], i = 0;
  r[i++] = rcutils_uint8_array_init(NULL, 1, &a);
  r[i++] = rcutils_uint8_array_init(&t, 1, NULL);
  r[i++] = rcutils_uint8_array_init(&t, 1, &z);
  r[i++] = rcutils_uint8_array_fini(NULL);
  r[i++] = rcutils_uint8_array_resize(NULL, 1);
  ev_begin("UaNulls");
  ev_arr_begin("rets"); for (int j = 0; j < i; j++) {ev_arr_int(r[j]);} ev_arr_end();
  ufin(0);
}
void ca_reset(void)
{
  g_ca = rcutils_get_zero_initialized_char_array();
  g_ua = rcutils_get_zero_initialized_uint8_array();
  __real_free(g_user);
  g_user = NULL;
}
const op_t g_ops_ca[] = {
  {"ca_init", ca_init}, {"ca_wrap", ca_wrap}, {"ca_fini", ca_fini}, {"ca_resize", ca_resize},
  {"ca_expand", ca_expand}, {"ca_printf", ca_printf}, {"ca_strcpy", ca_strcpy},
  {"ca_strcat", ca_strcat}, {"ca_strncat", ca_strncat}, {"ca_memcpy", ca_memcpy},
  {"ca_nulls", ca_nulls}, {"ua_init", ua_init}, {"ua_fill", ua_fill}, {"ua_resize", ua_resize},
  {"ua_fini", ua_fini}, {"ua_nulls", ua_nulls}, {0, 0}};
