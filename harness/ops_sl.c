// Shared library handles. The test libraries are in $VLIBDIR.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/stat.h>
#include <unistd.h>
#include "rcutils/error_handling.h"
#include "rcutils/shared_library.h"
#define NH 3
static rcutils_shared_library_t g_h[NH];
static const char * LIBS[] = {"liba.so", "libb.so", "libc2.so"};
#define NL 3
static int g_fail_info, g_fail_close;
int __real_dlinfo(void *, int, void *);
int __wrap_dlinfo(void * h, int r, void * p) {if (g_fail_info) {g_fail_info = 0; return -1;} return __real_dlinfo(h, r, p);}
int __real_dlclose(void *);
int __wrap_dlclose(void * h) {int r = __real_dlclose(h); if (g_fail_close) {g_fail_close = 0; return 1;} return r;}
static char * path(const char * lib)
{
  const char * d = getenv("VLIBDIR");
  char * p = scratch(strlen(d ? d : "") + strlen(lib) + 2);
  sprintf(p, "%s/%s", d ? d : "", lib);
  return p;
}
void sl_reset(void)
{
  g_fail_info = g_fail_close = 0;
  for (int i = 0; i < NH; i++) {
    if (g_h[i].lib_pointer) {__real_dlclose(g_h[i].lib_pointer);}
    g_h[i] = rcutils_get_zero_initialized_shared_library();
  }
}
static bool same(const char * a, const char * b)
{
  struct stat x, y;
  return !stat(a, &x) && !stat(b, &y) && x.st_ino == y.st_ino && x.st_dev == y.st_dev;
}
static void obs(void)
{
  ev_arr_begin("loaded");
  for (int i = 0; i < NH; i++) {ev_arr_int(rcutils_is_shared_library_loaded(&g_h[i]));}
  ev_arr_end();
  ev_arr_begin("path");   // which library the path of the handle names: 0 none, -1 unknown, -2 not from the allocator
  for (int i = 0; i < NH; i++) {
    int w = 0;
    if (g_h[i].library_path) {
      w = -1;
      for (int l = 0; l < NL; l++) {if (same(g_h[i].library_path, path(LIBS[l]))) {w = l + 1;}}
      if (!led_owns(g_h[i].library_path)) {w = -2;}
    }
    ev_arr_int(w);
  }
  ev_arr_end();
  ev_arr_begin("resident");
  for (int l = 0; l < NL; l++) {
    void * h = dlopen(path(LIBS[l]), RTLD_LAZY | RTLD_NOLOAD);
    if (h) {__real_dlclose(h);}
    ev_arr_int(h != NULL);
  }
  ev_arr_end();
  rcutils_reset_error();
  ev_end();
}
static void l_load(void)   // HANDLE LIB(1..3, 0 missing file, -1 not a library, 9 NULL) FORM(0 absolute 1 relative) [noalloc]
{
  int h = argi(1), l = argi(2), form = argi(3);
  char * p = l == 9 ? NULL : l == 0 ? path("nothing.so") : l == -1 ? path("notalib.so") : path(LIBS[l - 1]);
  if (form == 1 && l >= 1 && l <= NL) {
    // relative to the working directory
    char * q = scratch(4096);
    char cwd[2048];
    if (!getcwd(cwd, sizeof cwd)) {exit(5);}
    q[0] = 0;
    for (char * c = cwd; *c; c++) {if (*c == '/' && c[1]) {strcat(q, "../");}}
    strcat(q, p + 1);
    p = q;
  }
  bool va = !(g_argc > 4 && argi(4));
  rcutils_allocator_t a = va ? led_allocator() : rcutils_get_zero_initialized_allocator();
  bool isnull = p == NULL;
  if (p) {char * c = scratch(strlen(p) + 1); p = strcpy(c, p);}
  bool fi = g_fail_info;
  rcutils_ret_t r = rcutils_load_shared_library(h < NH ? &g_h[h] : NULL, p, a);
  fi = fi && !g_fail_info;      // whether the failure was met
  g_fail_info = 0;
  op_made(r == RCUTILS_RET_OK);
  ev_begin("SlLoad");
  if (p) {memset(p, 'Q', strlen(p));}
  ev_int("h", h); ev_int("lib", l); ev_bool("given", !isnull); ev_bool("valid", va); ev_bool("infofail", fi); ev_int("ret", r);
  obs();
}
static void l_unload(void)
{
  int h = argi(1);
  bool fc = g_fail_close;
  rcutils_ret_t r = rcutils_unload_shared_library(h < NH ? &g_h[h] : NULL);
  fc = fc && !g_fail_close;
  g_fail_close = 0;
  ev_begin("SlUnload");
  rcutils_shared_library_t z = rcutils_get_zero_initialized_shared_library();
  ev_int("h", h); ev_bool("closefail", fc); ev_int("ret", r);
  ev_bool("zero", h < NH ? g_h[h].lib_pointer == z.lib_pointer && g_h[h].library_path == z.library_path &&
    g_h[h].allocator.allocate == NULL && g_h[h].allocator.deallocate == NULL : false);
  obs();
}
static void l_sym(void)    // HANDLE NAME
{
  int h = argi(1);
  char * n = argx(2);
  bool stale = g_argc > 3 && argi(3);
  if (stale) {(void)!dlopen("/nonexistent/x.so", RTLD_LAZY);}
  bool has = rcutils_has_symbol(h < NH ? &g_h[h] : NULL, n);
  if (stale) {(void)!dlopen("/nonexistent/x.so", RTLD_LAZY);}
  void * s = rcutils_get_symbol(h < NH ? &g_h[h] : NULL, n);
  bool has2 = rcutils_has_symbol(h < NH ? &g_h[h] : NULL, n);
  ev_begin("SlSym");
  rcutils_reset_error();
  int val = 0;
  if (s && n && n[0] == 'f') {val = ((int (*)(void))s)();}
  if (s && n && n[0] == 'd') {val = *(int *)s;}
  ev_int("h", h); ev_cstr("n", n); ev_bool("has", has); ev_bool("has2", has2); ev_bool("got", s != NULL); ev_int("val", val);
  obs();
}
static void l_infofail(void) {g_fail_info = 1;}
static void l_closefail(void) {g_fail_close = 1;}
static void l_name(void)   // NAME SIZE DEBUG
{
  char * n = argx(1);
  long long sz = argll(2);
  char * b = sz < 0 ? NULL : scratch((size_t)sz);
  if (b) {memset(b, 0x7E, sz ? (size_t)sz : 1);}
  rcutils_ret_t r = rcutils_get_platform_library_name(n, b, sz < 0 ? 64 : (unsigned)sz, argi(3));
  ev_begin("SlName");
  rcutils_reset_error();
  ev_cstr("n", n); ev_bool("buf", b != NULL); ev_int("sz", sz); ev_bool("debug", argi(3)); ev_int("ret", r);
  bool term = b && sz > 0 && memchr(b, 0, (size_t)sz);
  ev_cstr("out", term ? b : NULL);
  ev_end();
}
const op_t g_ops_sl[] = {
  {"sl_load", l_load}, {"sl_unload", l_unload}, {"sl_sym", l_sym}, {"sl_name", l_name}, {"sl_infofail", l_infofail},
  {"sl_closefail", l_closefail}, {0, 0}};
