// Array list operations (one list); elements are patterned blocks identified by a small id.
#include "core.h"
#include "rcutils/types/array_list.h"
#include "rcutils/error_handling.h"
static rcutils_array_list_t g_al_[NSEL];
#define g_al g_al_[g_sel]
static size_t g_es_[NSEL];
#define g_es g_es_[g_sel]
static void * mk(int v)
{
  unsigned char * p = scratch(g_es);
  for (size_t i = 0; i < g_es; i++) {p[i] = (unsigned char)(v + (int)i * 11);}
  return p;
}
static int id_of(const void * q)
{
  const unsigned char * p = q;
  for (size_t i = 1; i < g_es; i++) {if (p[i] != (unsigned char)(p[0] + (int)i * 11)) {return -2;}}
  return p[0];
}
static size_t idx(int i)
{
  const char * s = args(i);
  if (!strcmp(s, "max")) {return (size_t)-1;}
  if (!strcmp(s, "half")) {return (size_t)1 << 63;}
  if (!strcmp(s, "wrap")) {return ((size_t)-1) / g_es + 1;}   // index * element size overflows to 0
  return strtoull(s, NULL, 10);
}
static void ev_idx(const char * k, size_t n) {ev_int(k, n > 1000000000 ? -1 : (long long)n);}
static void obs(void)
{
  size_t n = 0;
  rcutils_ret_t r = rcutils_array_list_get_size(&g_al, &n);
  ev_int("size", r == RCUTILS_RET_OK ? (long long)n : -(long long)r);
  ev_arr_begin("obs");
  for (size_t i = 0; r == RCUTILS_RET_OK && i < n && i < 70000; i++) {
    void * o = scratch(g_es);
    rcutils_ret_t g = rcutils_array_list_get(&g_al, i, o);
    ev_arr_int(g == RCUTILS_RET_OK ? id_of(o) : -10 - g);
  }
  ev_arr_end();
  rcutils_reset_error();
}
static void fin(rcutils_ret_t r) {ev_int("ret", r); obs(); ev_end();}
static void al_init(void)  // CAP ESIZE NULLS
{
  size_t cap = strtoull(args(1), NULL, 10), es = strtoull(args(2), NULL, 10);
  const char * nul = args(3);
  rcutils_allocator_t a = led_allocator();
  rcutils_ret_t r = rcutils_array_list_init(
    strchr(nul, 'm') ? NULL : &g_al, cap, es, strchr(nul, 'a') ? NULL : &a);
  if (r == RCUTILS_RET_OK) {g_es = es;}
  op_made(r == RCUTILS_RET_OK);
  ev_begin("AlInit");
  ev_bool("badargs", strcmp(nul, ".") != 0 || cap == 0 || es == 0);
  ev_bool("huge", cap > 1000000000 || es > 1000000000);
  fin(r);
}
static void al_fini(void) {rcutils_ret_t r = rcutils_array_list_fini(&g_al); ev_begin("AlFini"); fin(r);}
static void al_add(void)
{
  int v = argi(1);
  void * d = mk(v);
  rcutils_ret_t r = rcutils_array_list_add(&g_al, d);
  memset(d, 0xEE, g_es);
  ev_begin("AlAdd"); ev_int("v", v); fin(r);
}
static void al_set(void)
{
  size_t i = idx(1);
  int v = argi(2);
  void * d = mk(v);
  rcutils_ret_t r = rcutils_array_list_set(&g_al, i, d);
  memset(d, 0xEE, g_es);
  ev_begin("AlSet"); ev_idx("i", i); ev_int("v", v); fin(r);
}
static void al_remove(void)
{
  size_t i = idx(1);
  rcutils_ret_t r = rcutils_array_list_remove(&g_al, i);
  ev_begin("AlRemove"); ev_idx("i", i); fin(r);
}
static void al_get(void)
{
  size_t i = idx(1);
  void * o = scratch(g_es);
  rcutils_ret_t r = rcutils_array_list_get(&g_al, i, o);
  ev_begin("AlGet"); ev_idx("i", i); ev_int("v", r == RCUTILS_RET_OK ? id_of(o) : -1); fin(r);
}
static void al_bulk(void)   // N A B : adds N elements, the i-th with id (A * i + B) % 251
{
  int n = argi(1), a = argi(2), b = argi(3);
  rcutils_ret_t r = RCUTILS_RET_OK;
  for (int i = 0; i < n && r == RCUTILS_RET_OK; i++) {r = rcutils_array_list_add(&g_al, mk((a * i + b) % 251));}
  ev_begin("AlBulk"); ev_int("n", n); ev_int("a", a); ev_int("b", b); fin(r);
}
static void al_cut(void)    // I N : removes the element at I, N times
{
  int i = argi(1), n = argi(2);
  rcutils_ret_t r = RCUTILS_RET_OK;
  for (int k = 0; k < n && r == RCUTILS_RET_OK; k++) {r = rcutils_array_list_remove(&g_al, (size_t)i);}
  ev_begin("AlCut"); ev_int("i", i); ev_int("n", n); fin(r);
}
static void al_nulls(void)
{
  void * d = mk(0);
  size_t n;
  int r[16], i = 0;
  r[i++] = rcutils_array_list_fini(NULL);
  r[i++] = rcutils_array_list_add(NULL, d);
  r[i++] = rcutils_array_list_set(NULL, 0, d);
  r[i++] = rcutils_array_list_remove(NULL, 0);
  r[i++] = rcutils_array_list_get(NULL, 0, d);
  r[i++] = rcutils_array_list_get_size(NULL, &n);
  int s = i;
  r[i++] = rcutils_array_list_add(&g_al, NULL);
  r[i++] = rcutils_array_list_set(&g_al, 0, NULL);
  r[i++] = rcutils_array_list_get(&g_al, 0, NULL);
  r[i++] = rcutils_array_list_get_size(&g_al, NULL);
  ev_begin("AlNulls");
  ev_arr_begin("rets"); for (int j = 0; j < s; j++) {ev_arr_int(r[j]);} ev_arr_end();
  ev_arr_begin("srets"); for (int j = s; j < i; j++) {ev_arr_int(r[j]);} ev_arr_end();
  fin(0);
}
void al_reset(void) {g_al = rcutils_get_zero_initialized_array_list(); g_es = 1;}
const op_t g_ops_al[] = {
  {"al_init", al_init}, {"al_fini", al_fini}, {"al_add", al_add}, {"al_set", al_set},
  {"al_remove", al_remove}, {"al_get", al_get}, {"al_nulls", al_nulls}, {"al_bulk", al_bulk}, {"al_cut", al_cut}, {0, 0}};
