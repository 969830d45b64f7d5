// The allocator itself and what is known about the process.
#include "core.h"
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/process.h"

#define NS 3
static struct {unsigned char * p; size_t n; bool mine;} g_s[NS];   // mine: from the driver's allocator
void mem_reset(void)
{
  for (int i = 0; i < NS; i++) {
    if (g_s[i].p && !g_s[i].mine) {free(g_s[i].p);}
    g_s[i].p = NULL; g_s[i].n = 0;
  }
  program_invocation_name = "driver";
}
static rcutils_allocator_t masked(int mask)   // which of the four functions are there
{
  rcutils_allocator_t a = led_allocator();
  if (!(mask & 1)) {a.allocate = NULL;}
  if (!(mask & 2)) {a.deallocate = NULL;}
  if (!(mask & 4)) {a.reallocate = NULL;}
  if (!(mask & 8)) {a.zero_allocate = NULL;}
  return a;
}
static void obs(void)
{
  ev_arr_begin("blk");
  for (int i = 0; i < NS; i++) {
    if (g_s[i].p) {ev_arr_bytes(g_s[i].p, g_s[i].n < 300 ? g_s[i].n : 300);} else {ev_arr_cstr(NULL);}
  }
  ev_arr_end();
  ev_end();
}
static void a_valid(void)   // MASK (-1: NULL)
{
  int m = argi(1);
  rcutils_allocator_t a = masked(m < 0 ? 0 : m);
  if (argi(2)) {a.state = NULL;}
  bool r = rcutils_allocator_is_valid(m < 0 ? NULL : &a);
  ev_begin("AmValid");
  ev_int("mask", m); ev_bool("ret", r);
  obs();
}
static void a_known(void)
{
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator(), d = rcutils_get_default_allocator();
  ev_begin("AmKnown");
  ev_bool("zero", !z.allocate && !z.deallocate && !z.reallocate && !z.zero_allocate && !z.state);
  ev_bool("def", rcutils_allocator_is_valid(&d) && !rcutils_allocator_is_valid(&z) && d.state == NULL);
  obs();
}
static void fill(int i, size_t from) {for (size_t k = from; k < g_s[i].n; k++) {g_s[i].p[k] = (unsigned char)(k * 7 + i + 1);}}
static size_t size_arg(int i) {return strtoull(args(i), NULL, 10);}
static void ev_size(const char * k, size_t n) {ev_int(k, n > 1000000000 ? -1 : (long long)n);}
// DEF SLOT N : allocate
static void a_new(void)
{
  int i = argi(2);
  size_t n = size_arg(3);
  if (g_s[i].p) {lib_leave(); return;}
  rcutils_allocator_t a = argi(1) ? rcutils_get_default_allocator() : led_allocator();
  g_s[i].p = a.allocate(n, a.state);
  g_s[i].n = g_s[i].p ? n : 0; g_s[i].mine = !argi(1);
  op_made(g_s[i].p != NULL);
  fill(i, 0);
  ev_begin("AmNew");
  ev_bool("def", argi(1)); ev_int("i", i); ev_size("n", n); ev_bool("ret", g_s[i].p != NULL);
  obs();
}
static void a_zero(void)   // DEF SLOT A B
{
  int i = argi(2);
  size_t x = size_arg(3), y = size_arg(4);
  if (g_s[i].p) {lib_leave(); return;}
  rcutils_allocator_t a = argi(1) ? rcutils_get_default_allocator() : led_allocator();
  g_s[i].p = a.zero_allocate(x, y, a.state);
  g_s[i].n = g_s[i].p ? x * y : 0; g_s[i].mine = !argi(1);
  op_made(g_s[i].p != NULL);
  ev_begin("AmZero");
  ev_bool("def", argi(1)); ev_int("i", i); ev_size("a", x); ev_size("b", y); ev_bool("ret", g_s[i].p != NULL);
  obs();
}
static void a_free(void)   // SLOT
{
  int i = argi(1);
  rcutils_allocator_t a = g_s[i].mine ? led_allocator_of(g_s[i].p) : rcutils_get_default_allocator();
  a.deallocate(g_s[i].p, a.state);
  g_s[i].p = NULL; g_s[i].n = 0;
  ev_begin("AmFree");
  ev_int("i", i); ev_bool("ret", true);
  obs();
}
// F SLOT N MASK : reallocate (F 0) or reallocate and release on failure (F 1)
static void a_re(void)
{
  int f = argi(1), i = argi(2), mask = argi(4);
  size_t n = size_arg(3), old = g_s[i].n;
  bool def = g_s[i].p && !g_s[i].mine;
  rcutils_allocator_t a = def ? rcutils_get_default_allocator() : led_allocator_of(g_s[i].p);
  rcutils_allocator_t m = masked(mask < 0 ? 0 : mask);
  m.state = a.state;
  if (mask == 15) {m = a;}
  unsigned char * before = g_s[i].p;
  unsigned char * p = f ? rcutils_reallocf(before, n, mask < 0 ? NULL : &m) : a.reallocate(before, n, a.state);
  lib_leave();
  if (!before && p) {g_s[i].mine = !def;}
  if (p) {
    g_s[i].p = p; g_s[i].n = n;
    fill(i, old < n ? old : n);
  } else if (n == 0 && (mask == 15 || !f)) {
    g_s[i].p = NULL; g_s[i].n = 0;
  } else if (f && mask == 15) {
    g_s[i].p = NULL; g_s[i].n = 0;     // released by the call
  }
  ev_begin("AmRe");
  ev_bool("f", f); ev_int("i", i); ev_size("n", n); ev_int("mask", mask); ev_bool("ret", p != NULL);
  obs();
}
static void a_exe(void)   // NAME VALID
{
  char * n = argx(1);
  lib_leave();
  program_invocation_name = strcpy(scratch(strlen(n) + 1), n);
  lib_enter();
  rcutils_allocator_t a = argi(2) ? led_allocator() : rcutils_get_zero_initialized_allocator();
  char * r = rcutils_get_executable_name(a);
  ev_begin("PrExe");
  ev_bool("same", !strcmp(program_invocation_name, n));
  program_invocation_name = "driver";
  ev_cstr("n", n); ev_bool("valid", argi(2)); ev_cstr("out", r);
  rcutils_reset_error();
  if (r) {led_release(r);}
  ev_end();
}
static void a_pid(void)   // FORKS : asked in this process, or in a child of a child ...
{
  int depth = argi(1), ok = rcutils_get_pid() == (int)getpid();
  for (int d = 0; d < depth && ok; d++) {
    pid_t c = fork();
    if (c == 0) {
      if (rcutils_get_pid() != (int)getpid()) {_exit(1);}
      if (d + 1 == depth) {_exit(0);}
      continue;
    }
    int s = 0;
    if (c < 0 || waitpid(c, &s, 0) != c) {_exit(5);}
    ok = WIFEXITED(s) && WEXITSTATUS(s) == 0;
    if (d > 0) {_exit(ok ? 0 : 1);}
    break;
  }
  ev_begin("PrPid");
  ev_int("forks", depth); ev_bool("ok", ok != 0);
  ev_end();
}
const op_t g_ops_mem[] = {
  {"am_valid", a_valid}, {"am_known", a_known}, {"am_new", a_new}, {"am_zero", a_zero}, {"am_free", a_free}, {"am_re", a_re},
  {"pr_exe", a_exe}, {"pr_pid", a_pid}, {0, 0}};
