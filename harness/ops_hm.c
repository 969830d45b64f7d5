// Hash map operations. Keys are small ids; byte 0 of a key is the id (with byte 1 when there are four), the last byte (when the key has
// at least two) is a "variant" which the comparison ignores, so equal keys need not be identical.
#include "core.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/error_handling.h"

// several maps; the commands act on the one selected
static rcutils_hash_map_t g_hm_[NSEL];
#define g_hm g_hm_[g_sel]
static size_t g_ks_[NSEL], g_ds_[NSEL];
#define g_ks g_ks_[g_sel]
#define g_ds g_ds_[g_sel]
static int g_hash_[NSEL], g_nkeys_[NSEL];
#define g_hash g_hash_[g_sel]
#define g_nkeys g_nkeys_[g_sel]
static int g_window_[NSEL];
#define g_window g_window_[g_sel]             // keys observed after a call: 0 all, else those around the last key used
static int g_last_[NSEL];
#define g_last g_last_[g_sel]
#define MAXK 16384
static char * g_strs[MAXK][2];   // string keys (hash mode 5)
static char * g_long[MAXK][2];   // the same with a long common beginning (hash mode 8)
static bool strings(void) {return g_hash == 5 || g_hash == 8;}

static void str_init(void)
{
  if (g_strs[0][0]) {return;}
  for (int i = 0; i < MAXK; i++) {
    for (int v = 0; v < 2; v++) {
      char t[32];
      // prefixes of each other, empty string included
      if (i == 0) {t[0] = 0;} else {snprintf(t, sizeof t, "%.*s%d", i % 5, "abcde", i / 3);}
      if (i % 3 == 1) {strcat(t, "\xc3\xa9");}   // bytes above 127
      if (i % 3 == 2) {strcat(t, ".");}
      size_t n = strlen(t) + 1;
      g_strs[i][v] = malloc(n);
      memcpy(g_strs[i][v], t, n);
      if (i < 64) {
        size_t pre = 60u << (i % 8);
        g_long[i][v] = malloc(pre + n);
        memset(g_long[i][v], 'p', pre);
        memcpy(g_long[i][v] + pre, t, n);
      }
    }
  }
}
static void * mk_key(int id, int var)
{
  unsigned char * p = scratch(g_ks);
  g_last = id;
  if (strings()) {
    char * s = g_hash == 8 ? g_long[id][var] : g_strs[id][var];
    memcpy(p, &s, sizeof s);
    return p;
  }
  p[0] = (unsigned char)id;
  for (size_t i = 1; i < g_ks; i++) {p[i] = (unsigned char)(id * 7 + (int)i);}
  if (g_ks > 3) {p[1] = (unsigned char)(id >> 8);}
  if (g_ks > 1) {p[g_ks - 1] = (unsigned char)var;}
  return p;
}
static int key_id(const void * kp, int * var)
{
  const unsigned char * p = kp;
  *var = 0;
  if (strings()) {
    char * s;
    memcpy(&s, p, sizeof s);
    for (int i = 0; i < MAXK; i++) {
      for (int v = 0; v < 2; v++) {if ((g_hash == 8 ? g_long : g_strs)[i][v] == s) {*var = v; return i;}}
    }
    return -2;
  }
  int id = p[0] + (g_ks > 3 ? 256 * p[1] : 0);
  for (size_t i = g_ks > 3 ? 2 : 1; i + 1 < g_ks; i++) {if (p[i] != (unsigned char)(id * 7 + (int)i)) {return -2;}}
  if (g_ks > 1) {*var = p[g_ks - 1];}
  return id;
}
static void * mk_val(int v)
{
  unsigned char * p = scratch(g_ds);
  for (size_t i = 0; i < g_ds; i++) {p[i] = (unsigned char)(v + (int)i * 13);}
  return p;
}
static int val_id(const void * vp)
{
  const unsigned char * p = vp;
  int v = p[0];
  for (size_t i = 1; i < g_ds; i++) {if (p[i] != (unsigned char)(v + (int)i * 13)) {return -2;}}
  return v;
}
static size_t hash_fn(const void * k)
{
  const unsigned char * p = k;
  size_t id = p[0] + (g_ks > 3 ? 256u * p[1] : 0);
  switch (g_hash) {
    case 0: return 7;
    case 1: return id;
    case 2: return id % 2;
    case 3: return id << 40;
    case 4: return id * (size_t)0x9E3779B97F4A7C15ULL;
    case 6: return id / 2;
    case 7: return ~(size_t)0 - id;
    default: return id;
  }
}
static int cmp_fn(const void * a, const void * b)
{
  const unsigned char * x = a, * y = b;
  size_t n = g_ks > 1 ? g_ks - 1 : 1;
  for (size_t i = 0; i < n; i++) {
    if (x[i] != y[i]) {return x[i] < y[i] ? -3 : 5;}
  }
  return 0;
}

static void obs(void)
{
  size_t n = 0;
  rcutils_ret_t r = rcutils_hash_map_get_size(&g_hm, &n);
  ev_int("size", r == RCUTILS_RET_OK ? (long long)n : -(long long)r);
  r = rcutils_hash_map_get_capacity(&g_hm, &n);
  ev_int("cap", r == RCUTILS_RET_OK ? (long long)n : -(long long)r);
  int at = g_last;
  int lo = g_window ? (at < g_window ? 0 : at - g_window) : 0;
  int hi = g_window && at + g_window < g_nkeys ? at + g_window : g_nkeys;
  ev_int("lo", lo); ev_int("nkeys", g_nkeys);
  ev_arr_begin("obs");
  for (int i = lo; i < hi; i++) {
    int res = -1;
    void * out = scratch(g_ds);
    void * k = mk_key(i, 1);
    rcutils_ret_t g = rcutils_hash_map_get(&g_hm, k, out);
    bool ex = rcutils_hash_map_key_exists(&g_hm, k);
    if (g == RCUTILS_RET_OK) {res = ex ? val_id(out) : -4;} else if (ex) {res = -5;} else if (
      g != RCUTILS_RET_NOT_FOUND && g != RCUTILS_RET_NOT_INITIALIZED)
    {
      res = -6;
    }
    ev_arr_int(res);
  }
  ev_arr_end();
  g_last = at;
  rcutils_reset_error();
}
// hm_window N : observe only N keys on either side of the one a call was about (0: all)
static void hm_window(void) {g_window = argi(1);}
// hm_init CAP KSIZE DSIZE HASH NKEYS NULLS   (NULLS: letters m h c a = pass NULL for that argument; . none)
static void hm_init(void)
{
  size_t cap = strtoull(args(1), NULL, 10);
  g_ks = strtoull(args(2), NULL, 10);
  g_ds = strtoull(args(3), NULL, 10);
  size_t ks = g_ks, ds = g_ds;
  g_hash = argi(4);
  g_nkeys = argi(5);
  const char * nul = args(6);
  rcutils_allocator_t a = led_allocator();
  rcutils_hash_map_t z = rcutils_get_zero_initialized_hash_map();
  if (!strchr(nul, 'z')) {g_hm = z;}
  rcutils_ret_t r = rcutils_hash_map_init(
    strchr(nul, 'm') ? NULL : &g_hm, cap, ks, ds,
    strchr(nul, 'h') ? NULL : strings() ? rcutils_hash_map_string_hash_func : hash_fn,
    strchr(nul, 'c') ? NULL : strings() ? rcutils_hash_map_string_cmp_func : cmp_fn,
    strchr(nul, 'a') ? NULL : &a);
  op_made(r == RCUTILS_RET_OK);
  ev_begin("HmInit");
  ev_int("capreq", cap > 1000000000 ? -1 : (long long)cap);   // -1: not representable
  ev_int("ks", (long long)ks); ev_int("ds", (long long)ds);
  ev_bool("nul", strcmp(nul, ".") != 0);
  ev_int("ret", r);
  ev_bool("err", rcutils_error_is_set());
  if (g_ks == 0 || g_ks > 4096) {g_ks = 1;}
  if (g_ds == 0 || g_ds > 4096) {g_ds = 1;}
  if (r != RCUTILS_RET_OK && strchr(nul, 'm') == NULL) {ev_bool("left", g_hm.impl != NULL);} else {
    ev_bool("left", false);
  }
  obs();
  ev_end();
}
static void hm_set(void)
{
  int k = argi(1), var = argi(2), v = argi(3);
  void * kp = mk_key(k, var), * vp = mk_val(v);
  rcutils_ret_t r = rcutils_hash_map_set(&g_hm, kp, vp);
  // the map must hold copies: destroy the caller's
  if (!strings()) {memset(kp, 0xEE, g_ks);}
  memset(vp, 0xEE, g_ds);
  ev_begin("HmSet");
  ev_int("k", k); ev_int("var", g_ks > 1 ? var : 0); ev_int("v", v); ev_int("ret", r);
  obs();
  ev_end();
}
static void hm_unset(void)
{
  int k = argi(1), var = argi(2);
  rcutils_ret_t r = rcutils_hash_map_unset(&g_hm, mk_key(k, var));
  ev_begin("HmUnset");
  ev_int("k", k); ev_int("ret", r);
  obs();
  ev_end();
}
static void hm_get(void)
{
  int k = argi(1), var = argi(2);
  void * out = scratch(g_ds);
  rcutils_ret_t r = rcutils_hash_map_get(&g_hm, mk_key(k, var), out);
  ev_begin("HmGet");
  ev_int("k", k); ev_int("ret", r); ev_int("v", r == RCUTILS_RET_OK ? val_id(out) : -1);
  ev_bool("ex", rcutils_hash_map_key_exists(&g_hm, mk_key(k, 1 - var)));
  obs();
  ev_end();
}
// hm_next K VAR : entry after K (-1: no previous key)
static void hm_next(void)
{
  int k = argi(1), var = argi(2);
  void * ko = scratch(g_ks), * vo = scratch(g_ds);
  rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(
    &g_hm, k < 0 ? NULL : mk_key(k, var), ko, vo);
  ev_begin("HmNext");
  ev_int("k", k); ev_int("ret", r);
  int ov = 0, ok = -1, od = -1;
  if (r == RCUTILS_RET_OK) {ok = key_id(ko, &ov); od = val_id(vo);}
  ev_int("nk", ok); ev_int("nvar", ov); ev_int("nv", od);
  obs();
  ev_end();
}
// hm_iter ALIAS : whole iteration; with ALIAS the same buffer is previous key and output
static void hm_iter(void)
{
  int alias = argi(1);
  unsigned char * prev = NULL;
  void * buf = scratch(g_ks), * vo = scratch(g_ds);
  static long long res[3 * MAXK + 3];
  int n = 0;
  rcutils_ret_t r;
  while (1) {
    void * ko = alias ? buf : scratch(g_ks);
    r = rcutils_hash_map_get_next_key_and_data(&g_hm, prev, ko, vo);
    if (r != RCUTILS_RET_OK || n >= MAXK) {break;}
    int var = 0;
    res[3 * n] = key_id(ko, &var);
    res[3 * n + 1] = var;
    res[3 * n + 2] = val_id(vo);
    n++;
    prev = ko;
  }
  ev_begin("HmIter");
  ev_int("ret", r);
  ev_arr_begin("seq");
  for (int i = 0; i < n; i++) {
    ev_arr_open();
    for (int j = 0; j < 3; j++) {ev_arr_int(res[3 * i + j]);}
    ev_arr_close();
  }
  ev_arr_end();
  obs();
  ev_end();
}
// every documented rejection of a missing argument, in the current state
static void hm_nulls(void)
{
  void * k = mk_key(0, 0), * v = mk_val(0), * o = scratch(g_ds), * ko = scratch(g_ks);
  size_t n;
  int r[16], i = 0;
  r[i++] = rcutils_hash_map_set(NULL, k, v);
  r[i++] = rcutils_hash_map_unset(NULL, k);
  r[i++] = rcutils_hash_map_get(NULL, k, o);
  r[i++] = rcutils_hash_map_get_next_key_and_data(NULL, NULL, ko, o);
  r[i++] = rcutils_hash_map_get_size(NULL, &n);
  r[i++] = rcutils_hash_map_get_capacity(NULL, &n);
  r[i++] = rcutils_hash_map_fini(NULL);
  r[i++] = rcutils_hash_map_key_exists(NULL, k);
  // these depend on the state
  r[i++] = rcutils_hash_map_set(&g_hm, NULL, v);
  r[i++] = rcutils_hash_map_set(&g_hm, k, NULL);
  r[i++] = rcutils_hash_map_unset(&g_hm, NULL);
  r[i++] = rcutils_hash_map_get(&g_hm, NULL, o);
  r[i++] = rcutils_hash_map_get(&g_hm, k, NULL);
  r[i++] = rcutils_hash_map_get_size(&g_hm, NULL);
  r[i++] = rcutils_hash_map_get_capacity(&g_hm, NULL);
  bool e = rcutils_hash_map_key_exists(&g_hm, NULL);
  int n1 = rcutils_hash_map_get_next_key_and_data(&g_hm, NULL, NULL, o);
  int n2 = rcutils_hash_map_get_next_key_and_data(&g_hm, NULL, ko, NULL);
  ev_begin("HmNulls");
  ev_arr_begin("rets");
  for (int j = 0; j < i; j++) {ev_arr_int(r[j]);}
  ev_arr_int(e); ev_arr_int(n1); ev_arr_int(n2);
  ev_arr_end();
  obs();
  ev_end();
}
static void hm_fini(void)
{
  rcutils_ret_t r = rcutils_hash_map_fini(&g_hm);
  ev_begin("HmFini");
  ev_int("ret", r);
  obs();
  ev_end();
}
void hm_reset(void) {str_init(); g_hm = rcutils_get_zero_initialized_hash_map(); g_ks = g_ds = 1; g_hash = 1; g_nkeys = 0; g_window = 0; g_last = 0;}
const op_t g_ops_hm[] = {
  {"hm_init", hm_init}, {"hm_set", hm_set}, {"hm_unset", hm_unset}, {"hm_get", hm_get},
  {"hm_next", hm_next}, {"hm_iter", hm_iter}, {"hm_nulls", hm_nulls}, {"hm_fini", hm_fini},
  {"hm_window", hm_window}, {0, 0}};
