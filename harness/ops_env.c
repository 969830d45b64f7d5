// Environment access. The observed variables are those of the fixed list NAMES; `rest` says that
// everything else in the environment is what it was when the session started.
#include "core.h"
#include <errno.h>
#include "rcutils/env.h"
#include "rcutils/error_handling.h"

extern char ** environ;
static char g_long[4201];
static const char * NAMES[] = {"VA", "VB", "VAB", "V", "HOME", "v a.x", g_long};
#define NN (sizeof NAMES / sizeof NAMES[0])
static int g_fail;     // the next setenv/unsetenv of the library fails
int __real_setenv(const char *, const char *, int);
int __real_unsetenv(const char *);
int __wrap_setenv(const char * a, const char * b, int c)
{
  if (g_fail) {errno = ENOMEM; return -1;}
  return __real_setenv(a, b, c);
}
int __wrap_unsetenv(const char * a)
{
  if (g_fail) {errno = ENOMEM; return -1;}
  return __real_unsetenv(a);
}
static bool mine(const char * e)
{
  for (size_t i = 0; i < NN; i++) {
    size_t n = strlen(NAMES[i]);
    if (!strncmp(e, NAMES[i], n) && e[n] == '=') {return true;}
  }
  return false;
}
static char * g_rest;
static char * rest(void)
{
  size_t n = 1;
  for (char ** e = environ; e && *e; e++) {if (!mine(*e)) {n += strlen(*e) + 1;}}
  char * r = malloc(n), * p = r;
  for (char ** e = environ; e && *e; e++) {if (!mine(*e)) {p = stpcpy(p, *e); *p++ = '\n';}}
  *p = 0;
  return r;
}
void env_reset(void)
{
  memset(g_long, 'L', 4200);
  for (size_t i = 0; i < NN; i++) {__real_unsetenv(NAMES[i]);}
  free(g_rest);
  g_rest = rest();
}
static const char * look(const char * n)   // straight from the process environment
{
  size_t k = strlen(n);
  for (char ** e = environ; e && *e; e++) {if (!strncmp(*e, n, k) && (*e)[k] == '=') {return *e + k + 1;}}
  return NULL;
}
static void obs(void)
{
  ev_arr_begin("obs");
  for (size_t i = 0; i < NN; i++) {ev_arr_cstr(look(NAMES[i]));}
  ev_arr_end();
  if (!g_rest) {env_reset();}
  char * r = rest();
  ev_bool("rest", !strcmp(r, g_rest));
  free(r);
  ev_end();
}
// name argument: #i is the i-th observed name, otherwise a byte string
static char * name(int i)
{
  if (args(i)[0] == '#') {
    const char * s = NAMES[atoi(args(i) + 1)];
    char * b = scratch(strlen(s) + 1);
    return strcpy(b, s);
  }
  return argx(i);
}
static void set_(const char * op, int how)
{
  char * n = name(1), * v = argx(2);
  bool ow = how == 0 || how == 1;
  bool r = how == 0 ? rcutils_set_env(n, v) : rcutils_set_env_overwrite(n, v, ow);
  g_fail = 0;
  ev_begin(op);
  rcutils_reset_error();
  ev_cstr("n", n); ev_cstr("v", v); ev_bool("ow", ow); ev_bool("ret", r);
  // the environment must not refer to the caller's strings
  if (n) {memset(n, 'Q', strlen(n));}
  if (v) {memset(v, 'Q', strlen(v));}
}
static void v_set(void) {bool f = g_fail; set_("EvSet", 0); ev_bool("sysfail", f); obs();}
static void v_setow(void) {bool f = g_fail; set_("EvSet", argi(3) ? 1 : 2); ev_bool("sysfail", f); obs();}
static void v_copy(void)   // DST SRC : the value is a pointer into the environment itself
{
  char * d = name(1), * s = name(2);
  const char * v = NULL;
  const char * err = rcutils_get_env(s, &v);
  char * keep = strcpy(scratch(strlen(err ? "" : v) + 1), err ? "" : v);
  bool r = err ? false : rcutils_set_env(d, v);
  ev_begin("EvCopy");
  rcutils_reset_error();
  ev_cstr("n", d); ev_cstr("src", s); ev_cstr("v", keep); ev_bool("ret", r);
  obs();
}
static void v_get(void)
{
  char * n = name(1);
  const char * v = "unchanged";
  const char * err = rcutils_get_env(n, argi(2) ? &v : NULL);
  ev_begin("EvGet");
  ev_cstr("n", n); ev_bool("outp", argi(2) != 0); ev_bool("err", err != NULL); ev_cstr("v", v);
  obs();
}
static void v_home(void)
{
  const char * v = rcutils_get_home_dir();
  ev_begin("EvHome");
  ev_cstr("v", v);
  obs();
}
static void v_ext(void)   // the program itself changes the environment
{
  char * n = name(1), * v = argx(2);
  if (v) {__real_setenv(n, v, 1);} else {__real_unsetenv(n);}
  ev_begin("EvExt");
  ev_cstr("n", n); ev_cstr("v", v);
  obs();
}
static void v_sysfail(void) {g_fail = 1;}
const op_t g_ops_env[] = {
  {"ev_set", v_set}, {"ev_setow", v_setow}, {"ev_copy", v_copy}, {"ev_get", v_get}, {"ev_home", v_home},
  {"ev_ext", v_ext}, {"ev_sysfail", v_sysfail}, {0, 0}};
