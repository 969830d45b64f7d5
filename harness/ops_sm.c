// String map operations on two maps (slots 0 and 1).
#include "core.h"
#include "rcutils/types/string_map.h"
#include "rcutils/error_handling.h"
static rcutils_string_map_t g_sm[2];
static void obs(int s)
{
  rcutils_string_map_t * m = &g_sm[s];
  size_t n = 0;
  rcutils_ret_t r = rcutils_string_map_get_size(m, &n);
  ev_int("size", r == RCUTILS_RET_OK ? (long long)n : -(long long)r);
  r = rcutils_string_map_get_capacity(m, &n);
  ev_int("cap", r == RCUTILS_RET_OK ? (long long)n : -(long long)r);
  // the whole content: keys by iteration, values by lookup
  ev_arr_begin("ent");
  const char * k = rcutils_string_map_get_next_key(m, NULL);
  for (int i = 0; k && i < 20000; i++) {
    ev_arr_open();
    ev_arr_cstr(k);
    ev_arr_cstr(rcutils_string_map_get(m, k));
    ev_arr_close();
    k = rcutils_string_map_get_next_key(m, k);
  }
  ev_arr_end();
  rcutils_reset_error();
}
static void fin(int s) {ev_int("slot", s); obs(s); ev_end();}
static void sm_init(void)   // SLOT CAP (or HUGE)
{
  int s = argi(1);
  size_t cap = strtoull(args(2), NULL, 10);
  rcutils_ret_t r = rcutils_string_map_init(&g_sm[s], cap, led_allocator());
  op_made(r == RCUTILS_RET_OK);
  ev_begin("SmInit"); ev_int("capreq", cap > 1000000000 ? -1 : (long long)cap); ev_int("ret", r); fin(s);
}
static void sm_fini(void)
{
  int s = argi(1);
  rcutils_ret_t r = rcutils_string_map_fini(&g_sm[s]);
  ev_begin("SmFini"); ev_int("ret", r); ev_bool("isnull", g_sm[s].impl == NULL); fin(s);
}
static void sm_reserve(void)
{
  int s = argi(1);
  size_t cap = strtoull(args(2), NULL, 10);
  rcutils_ret_t r = rcutils_string_map_reserve(&g_sm[s], cap);
  ev_begin("SmReserve"); ev_int("capreq", cap > 1000000000 ? -1 : (long long)cap); ev_int("ret", r); fin(s);
}
static void sm_clear(void)
{
  int s = argi(1);
  rcutils_ret_t r = rcutils_string_map_clear(&g_sm[s]);
  ev_begin("SmClear"); ev_int("ret", r); fin(s);
}
static void set_(const char * op, rcutils_ret_t (* fn)(rcutils_string_map_t *, const char *, const char *))
{
  int s = argi(1);
  char * k = argx(2), * v = argx(3);
  rcutils_ret_t r = fn(&g_sm[s], k, v);
  ev_begin(op);
  ev_cstr("key", k); ev_cstr("val", v); ev_int("ret", r);
  if (k) {memset(k, 'Z', strlen(k));}   // the map has its own copies
  if (v) {memset(v, 'Z', strlen(v));}
  fin(s);
}
static void sm_set(void) {set_("SmSet", rcutils_string_map_set);}
static void sm_setn(void) {set_("SmSetNR", rcutils_string_map_set_no_resize);}
static void sm_unset(void)
{
  int s = argi(1);
  char * k = argx(2);
  rcutils_ret_t r = rcutils_string_map_unset(&g_sm[s], k);
  ev_begin("SmUnset"); ev_cstr("key", k); ev_int("ret", r); fin(s);
}
static void sm_get(void)   // SLOT KEY
{
  int s = argi(1);
  char * k = argx(2);
  const char * v = rcutils_string_map_get(&g_sm[s], k);
  bool e = rcutils_string_map_key_exists(&g_sm[s], k);
  ev_begin("SmGet"); ev_cstr("key", k); ev_cstr("out", v); ev_bool("ex", e); fin(s);
}
static void sm_getl(void)  // SLOT BYTES LEN : lookup by explicit length; BYTES need not be terminated
{
  int s = argi(1);
  size_t n;
  char * k = argx_noterm(2, &n);
  size_t len = (size_t)argi(3);
  const char * v = rcutils_string_map_getn(&g_sm[s], k, len);
  bool e = rcutils_string_map_key_existsn(&g_sm[s], k, len);
  ev_begin("SmGetN");
  if (k) {ev_bytes("key", k, n);} else {ev_cstr("key", NULL);}
  ev_int("len", (long long)len); ev_cstr("out", v); ev_bool("ex", e); fin(s);
}
static void sm_next(void)  // SLOT KEY : next key after a pointer which is not one of the map's keys
{
  int s = argi(1);
  char * k = argx(2);
  const char * n = rcutils_string_map_get_next_key(&g_sm[s], k);
  ev_begin("SmNextForeign"); ev_cstr("out", n); fin(s);
}
static void sm_copy(void)  // SRC DST
{
  int a = argi(1), b = argi(2);
  rcutils_ret_t r = rcutils_string_map_copy(&g_sm[a], &g_sm[b]);
  ev_begin("SmCopy"); ev_int("src", a); ev_int("ret", r); fin(b);
}
// SLOT FROM N STEP : sets (or unsets) k<i> -> v<7i> for i = FROM, FROM+STEP, ... (N of them); stops at a failure
static void bulk(bool set)
{
  int s = argi(1), from = argi(2), n = argi(3), step = argi(4);
  rcutils_ret_t r = RCUTILS_RET_OK;
  for (int i = 0; i < n && r == RCUTILS_RET_OK; i++) {
    char k[32], v[32];
    snprintf(k, sizeof k, "k%d", from + i * step);
    snprintf(v, sizeof v, "v%d", (from + i * step) * 7);
    r = set ? rcutils_string_map_set(&g_sm[s], k, v) : rcutils_string_map_unset(&g_sm[s], k);
  }
  ev_begin(set ? "SmBulk" : "SmBulkDel");
  ev_int("from", from); ev_int("n", n); ev_int("step", step); ev_int("ret", r); fin(s);
}
static void sm_bulk(void) {bulk(true);}
static void sm_bulkdel(void) {bulk(false);}
static void sm_look(void) {int s = argi(1); ev_begin("SmLook"); fin(s);}
static void sm_nulls(void)
{
  int s = argi(1), i = 0;
  size_t n;
  int r[24];
  rcutils_allocator_t bad = rcutils_get_zero_initialized_allocator();
  rcutils_string_map_t z = rcutils_get_zero_initialized_string_map();
  r[i++] = rcutils_string_map_init(NULL, 1, led_allocator());
  r[i++] = rcutils_string_map_init(&z, 1, bad);
  r[i++] = rcutils_string_map_fini(NULL);
  r[i++] = rcutils_string_map_get_capacity(NULL, &n);
  r[i++] = rcutils_string_map_get_size(NULL, &n);
  r[i++] = rcutils_string_map_reserve(NULL, 1);
  r[i++] = rcutils_string_map_clear(NULL);
  r[i++] = rcutils_string_map_set(NULL, "a", "b");
  r[i++] = rcutils_string_map_set_no_resize(NULL, "a", "b");
  r[i++] = rcutils_string_map_unset(NULL, "a");
  r[i++] = rcutils_string_map_copy(NULL, &g_sm[s]);
  r[i++] = rcutils_string_map_copy(&g_sm[s], NULL);
  r[i++] = rcutils_string_map_key_exists(NULL, "a");
  r[i++] = rcutils_string_map_get(NULL, "a") != NULL;
  r[i++] = rcutils_string_map_get_next_key(NULL, NULL) != NULL;
  // dependent on the state
  int d = i;
  r[i++] = rcutils_string_map_get_capacity(&g_sm[s], NULL);
  r[i++] = rcutils_string_map_get_size(&g_sm[s], NULL);
  r[i++] = rcutils_string_map_set(&g_sm[s], NULL, "b");
  r[i++] = rcutils_string_map_set(&g_sm[s], "a", NULL);
  r[i++] = rcutils_string_map_set_no_resize(&g_sm[s], "a", NULL);
  r[i++] = rcutils_string_map_unset(&g_sm[s], NULL);
  r[i++] = rcutils_string_map_key_exists(&g_sm[s], NULL);
  ev_begin("SmNulls");
  ev_arr_begin("rets"); for (int j = 0; j < d; j++) {ev_arr_int(r[j]);} ev_arr_end();
  ev_arr_begin("srets"); for (int j = d; j < i; j++) {ev_arr_int(r[j]);} ev_arr_end();
  fin(s);
}
void sm_reset(void) {g_sm[0] = g_sm[1] = rcutils_get_zero_initialized_string_map();}
const op_t g_ops_sm[] = {
  {"sm_init", sm_init}, {"sm_fini", sm_fini}, {"sm_reserve", sm_reserve}, {"sm_clear", sm_clear},
  {"sm_set", sm_set}, {"sm_setn", sm_setn}, {"sm_unset", sm_unset}, {"sm_get", sm_get},
  {"sm_getl", sm_getl}, {"sm_next", sm_next}, {"sm_copy", sm_copy}, {"sm_look", sm_look},
  {"sm_nulls", sm_nulls}, {"sm_bulk", sm_bulk}, {"sm_bulkdel", sm_bulkdel}, {0, 0}};
