// String array operations on two arrays (slots 0 and 1).
#include "core.h"
#include "rcutils/types/string_array.h"
#include "rcutils/error_handling.h"
#include "rcutils/strdup.h"
#include "rcutils/qsort.h"
static rcutils_string_array_t g_sa[2];
static void obs(int s)
{
  ev_int("slot", s);
  ev_int("size", (long long)g_sa[s].size);
  ev_bool("nodata", g_sa[s].data == NULL);
  ev_arr_begin("ent");
  for (size_t i = 0; g_sa[s].data && i < g_sa[s].size && i < 20000; i++) {ev_arr_cstr(g_sa[s].data[i]);}
  ev_arr_end();
  rcutils_reset_error();
}
static void fin(int s, int ret) {ev_int("ret", ret); obs(s); ev_end();}
static void sa_init(void)
{
  int s = argi(1);
  size_t n = strtoull(args(2), NULL, 10);
  rcutils_allocator_t a = led_allocator();
  rcutils_ret_t r = rcutils_string_array_init(&g_sa[s], n, &a);
  op_made(r == RCUTILS_RET_OK);
  if (r != RCUTILS_RET_OK) {   // a failed initialisation leaves nothing; start again from nothing
    bool left = g_sa[s].data != NULL;
    g_sa[s] = rcutils_get_zero_initialized_string_array();
    ev_begin("SaInit"); ev_int("n", n > 1000000000 ? -1 : (long long)n); ev_bool("left", left);
    fin(s, r);
    return;
  }
  ev_begin("SaInit"); ev_int("n", n > 1000000000 ? -1 : (long long)n); ev_bool("left", false); fin(s, r);
}
static void sa_put(void)   // SLOT I STR
{
  int s = argi(1), i = argi(2);
  char * t = argx(3);
  ev_begin("SaPut");
  ev_int("i", i); ev_cstr("str", t);
  if ((size_t)i < g_sa[s].size && g_sa[s].data) {
    rcutils_allocator_t a = g_sa[s].allocator;
    led_release(g_sa[s].data[i]);
    g_sa[s].data[i] = NULL;
    if (t) {
      size_t n = strlen(t) + 1;
      g_sa[s].data[i] = a.allocate(n, a.state);
      memcpy(g_sa[s].data[i], t, n);
    }
    fin(s, 0);
  } else {
    fin(s, -1);
  }
}
static void sa_bulk(void)   // SLOT A B C : entry i becomes s<(A*i+B)%C>
{
  int s = argi(1), a = argi(2), b = argi(3), c = argi(4);
  rcutils_allocator_t al = g_sa[s].allocator;
  for (size_t i = 0; i < g_sa[s].size; i++) {
    char t[32];
    snprintf(t, sizeof t, "s%d", (int)((a * i + b) % c));
    led_release(g_sa[s].data[i]);
    g_sa[s].data[i] = al.allocate(strlen(t) + 1, al.state);
    memcpy(g_sa[s].data[i], t, strlen(t) + 1);
  }
  ev_begin("SaBulk"); ev_int("a", a); ev_int("b", b); ev_int("c", c); fin(s, 0);
}
static void sa_resize(void)
{
  int s = argi(1);
  size_t n = strtoull(args(2), NULL, 10);
  rcutils_ret_t r = rcutils_string_array_resize(&g_sa[s], n);
  ev_begin("SaResize"); ev_int("n", n > 1000000000 ? -1 : (long long)n); fin(s, r);
}
static void sa_fini(void)
{
  int s = argi(1);
  rcutils_ret_t r = rcutils_string_array_fini(&g_sa[s]);
  ev_begin("SaFini"); fin(s, r);
}
static int sgn(int x) {return (x > 0) - (x < 0);}
static void sa_cmp(void)   // A B : compares both ways
{
  int a = argi(1), b = argi(2);
  int x = 77, y = 77;
  rcutils_ret_t r = rcutils_string_array_cmp(&g_sa[a], &g_sa[b], &x);
  rcutils_ret_t q = rcutils_string_array_cmp(&g_sa[b], &g_sa[a], &y);
  ev_begin("SaCmp");
  ev_int("a", a); ev_int("b", b);
  ev_int("res", r == RCUTILS_RET_OK ? sgn(x) : 0);
  ev_int("ret2", q); ev_int("res2", q == RCUTILS_RET_OK ? sgn(y) : 0);
  fin(a, r);
}
static void sa_sort(void)
{
  int s = argi(1);
  rcutils_ret_t r = rcutils_qsort(
    g_sa[s].data, g_sa[s].size, sizeof(char *), rcutils_string_array_sort_compare);
  ev_begin("SaSort"); fin(s, r);
}
static void sa_scmp(void)   // the sort comparator itself on two entries (by value)
{
  char * x = argx(1), * y = argx(2);
  int r = rcutils_string_array_sort_compare(&x, &y);
  ev_begin("SaSortCmp"); ev_cstr("x", x); ev_cstr("y", y); ev_int("res", sgn(r)); fin(0, 0);
}
static void sa_nulls(void)
{
  rcutils_allocator_t a = led_allocator();
  int r[16], i = 0, x;
  rcutils_string_array_t e = rcutils_get_zero_initialized_string_array();
  rcutils_string_array_t nodata = e;
  nodata.size = 1;
  char * one[1] = {"a"};
  rcutils_string_array_t full = e;
  full.size = 1;
  full.data = one;
  r[i++] = rcutils_string_array_init(NULL, 1, &a);
  r[i++] = rcutils_string_array_init(&e, 1, NULL);
  r[i++] = rcutils_string_array_fini(NULL);
  r[i++] = rcutils_string_array_cmp(NULL, &g_sa[0], &x);
  r[i++] = rcutils_string_array_cmp(&g_sa[0], NULL, &x);
  r[i++] = rcutils_string_array_cmp(&g_sa[0], &g_sa[0], NULL);
  r[i++] = rcutils_string_array_cmp(&nodata, &full, &x);
  r[i++] = rcutils_string_array_cmp(&full, &nodata, &x);
  r[i++] = rcutils_string_array_resize(NULL, 1);
  r[i++] = rcutils_string_array_resize(&e, 1);       // no valid allocator
  r[i++] = rcutils_qsort(NULL, 2, sizeof(char *), rcutils_string_array_sort_compare);
  r[i++] = rcutils_qsort(one, 1, sizeof(char *), NULL);
  r[i++] = rcutils_string_array_fini(&e);            // zero initialised: nothing to do
  ev_begin("SaNulls");
  ev_arr_begin("rets"); for (int j = 0; j < i; j++) {ev_arr_int(r[j]);} ev_arr_end();
  fin(0, 0);
}
// rcutils_qsort on elements of any size: key, position in the input (where there is room), then padding made of both
static int g_qs_dir;
static int qs_cmp(const void * a, const void * b)
{
  return g_qs_dir * ((int)*(const unsigned char *)a - (int)*(const unsigned char *)b);
}
static void sa_qs(void)   // SIZE DIR NULLS KEY...   (NULLS: 0 none, 1 no elements, 2 no comparison)
{
  size_t size = (size_t)argi(1);
  int nulls = argi(3), n = g_argc - 4;
  g_qs_dir = argi(2);
  size_t guard = 64;
  static unsigned char b[1 << 20];
  unsigned char * v = b + guard;
  if ((size_t)n * size + 2 * guard > sizeof b) {return;}
  memset(b, 0xC3, (size_t)n * size + 2 * guard);
  for (int i = 0; i < n; i++) {
    unsigned char * e = v + (size_t)i * size;
    e[0] = (unsigned char)argi(4 + i);
    if (size >= 3) {e[1] = (unsigned char)i; e[2] = (unsigned char)(i >> 8);}
    for (size_t j = 3; j < size; j++) {e[j] = (unsigned char)(e[0] + 7 * i + (int)j);}
  }
  rcutils_ret_t r = rcutils_qsort(nulls == 1 ? NULL : v, (size_t)n, size, nulls == 2 ? NULL : qs_cmp);
  rcutils_reset_error();
  bool intact = true;
  for (size_t i = 0; i < guard; i++) {intact &= b[i] == 0xC3 && v[(size_t)n * size + i] == 0xC3;}
  ev_begin("SaQs");
  ev_int("esize", (long long)size); ev_int("dir", g_qs_dir); ev_int("nulls", nulls);
  ev_arr_begin("in"); for (int i = 0; i < n; i++) {ev_arr_int(argi(4 + i) & 255);} ev_arr_end();
  ev_arr_begin("out"); for (int i = 0; i < n; i++) {ev_arr_int(v[(size_t)i * size]);} ev_arr_end();
  ev_arr_begin("idx");
  for (int i = 0; i < n; i++) {
    unsigned char * e = v + (size_t)i * size;
    int x = size >= 3 ? e[1] + 256 * e[2] : i;
    for (size_t j = 3; j < size; j++) {intact &= e[j] == (unsigned char)(e[0] + 7 * x + (int)j);}
    ev_arr_int(x + 1);
  }
  ev_arr_end();
  ev_bool("intact", intact);
  fin(0, r);
}
void sa_reset(void) {g_sa[0] = g_sa[1] = rcutils_get_zero_initialized_string_array();}
const op_t g_ops_sa[] = {
  {"sa_init", sa_init}, {"sa_put", sa_put}, {"sa_resize", sa_resize}, {"sa_fini", sa_fini},
  {"sa_cmp", sa_cmp}, {"sa_sort", sa_sort}, {"sa_scmp", sa_scmp}, {"sa_nulls", sa_nulls},
  {"sa_qs", sa_qs}, {"sa_bulk", sa_bulk}, {0, 0}};
