#include "core.h"
#include "rcutils/testing/fault_injection.h"
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <locale.h>
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"

// ------------------------------------------------------------------ wrapped C allocator
// The library objects and this driver are linked with --wrap, so every malloc/calloc/realloc/free
// (and strdup family) call in them arrives here; calls from libc itself do not.
void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void __real_free(void *);
char * __real_strdup(const char *);
char * __real_strndup(const char *, size_t);
static int g_in_lib = 0;   // > 0 while a library call is running
long g_raw_live = 0;       // blocks taken from and not returned to the C library by library calls
void lib_enter(void)
{
  // nor is what errno happens to say when a call begins
  static const int before[] = {0, EEXIST, ENOENT, ERANGE, EINTR, 0, ENOMEM, EINVAL};
  static unsigned calls;
  errno = before[calls++ % 8];
  g_in_lib = 1;
}
void lib_leave(void) {g_in_lib = 0;}
// what each command does to the ledger, in order, when a script asked for it: [kind, block]
//   1 obtained, 2 released, 3 refused, 4 release of something that is not outstanding,
//   5 C library memory used directly, 6 called with another allocator's state
static bool g_rec;
static int (* g_mem)[2];
static size_t g_nmem, g_cmem;
static int g_ids;
static void mem_op(int kind, int id)
{
  if (!g_rec) {return;}
  if (g_nmem == g_cmem) {g_cmem = g_cmem * 2 + 256; g_mem = __real_realloc(g_mem, g_cmem * sizeof *g_mem);}
  g_mem[g_nmem][0] = kind; g_mem[g_nmem++][1] = id;
}
static void * taken(void * p) {if (g_in_lib) {mem_op(5, 0); g_led.raw++; if (p) {g_raw_live++;}} return p;}
void * __wrap_malloc(size_t n) {return taken(__real_malloc(n));}
void * __wrap_calloc(size_t a, size_t b) {return taken(__real_calloc(a, b));}
void * __wrap_realloc(void * p, size_t n)
{
  if (g_in_lib) {
    g_led.raw++;
    mem_op(5, 0);
    if (p && led_owns(p)) {mem_op(4, 0); g_led.bad++;}
    if (!p) {g_raw_live++;}
  }
  return __real_realloc(p, n);
}
void __wrap_free(void * p)
{
  if (g_in_lib && p) {
    g_led.raw++;
    mem_op(5, 0);
    if (led_owns(p)) {mem_op(4, 0); g_led.bad++; return;}
    g_raw_live--;
  }
  __real_free(p);
}
char * __wrap_strdup(const char * s) {return taken(__real_strdup(s));}
char * __wrap_strndup(const char * s, size_t n) {return taken(__real_strndup(s, n));}

// ------------------------------------------------------------------ ledger
ledger_t g_led;
int g_sel;
static long g_lives[NSEL];   // blocks obtained for the objects which are not selected
long g_fail_from = 0;
bool g_fail_sticky = false;
// many allocators which differ in their state only: a block belongs to the one it was obtained from
#define NALLOC 61
static char g_states[NALLOC];
static bool known(const void * s) {return (const char *)s >= g_states && (const char *)s < g_states + NALLOC;}
#define NB 65536
typedef struct blk_s { void * p; size_t n; int id, sel; void * from; struct blk_s * next; } blk_t;
static blk_t * g_tab[NB];
static unsigned hp(const void * p) {uintptr_t x = (uintptr_t)p; x ^= x >> 17; return (unsigned)(x >> 4) % NB;}
static blk_t * find_blk(const void * p)
{
  for (blk_t * b = g_tab[hp(p)]; b; b = b->next) {if (b->p == p) {return b;}}
  return NULL;
}
static void add_blk(void * p, size_t n, void * from)
{
  blk_t * b = __real_malloc(sizeof(*b));
  b->p = p; b->n = n; b->from = from; b->sel = g_sel; b->id = ++g_ids; b->next = g_tab[hp(p)]; g_tab[hp(p)] = b;
  mem_op(1, b->id);
  g_led.live++;
}
void led_forget(void)
{
  for (int i = 0; i < NB; i++) {
    while (g_tab[i]) {blk_t * b = g_tab[i]; g_tab[i] = b->next; __real_free(b);}
  }
  g_led.live = 0;
  memset(g_lives, 0, sizeof g_lives);
  g_led.bad = 0;
}
static void del_blk(void * p)
{
  blk_t ** q = &g_tab[hp(p)];
  while (*q && (*q)->p != p) {q = &(*q)->next;}
  if (*q) {blk_t * b = *q; *q = b->next; mem_op(2, b->id); --*(b->sel == g_sel ? &g_led.live : &g_lives[b->sel]); __real_free(b);}
}
bool led_owns(const void * p) {return find_blk(p) != NULL;}
size_t led_size(const void * p) {blk_t * b = find_blk(p); return b ? b->n : 0;}
// requests beyond any reason, although the command asked for nothing large
static long g_absurd;
static bool g_asked;
static bool refuse(size_t n)
{
  g_led.calls++;
  if (n > (g_asked ? (size_t)1 << 31 : (size_t)1 << 26)) {mem_op(3, 0); g_led.refused++; g_absurd += !g_asked; return true;}
  if (g_fail_from > 0 &&
    (g_led.calls == g_fail_from || (g_fail_sticky && g_led.calls > g_fail_from)))
  {
    mem_op(3, 0);
    g_led.refused++;
    return true;
  }
  return false;
}
static void * la(size_t n, void * s)
{
  if (!known(s)) {mem_op(6, 0); g_led.bad++;}
  if (refuse(n)) {return NULL;}
  void * p = __real_malloc(n);
  memset(p, 0xA5, n);
  add_blk(p, n, s);
  return p;
}
static void * lz(size_t a, size_t b, void * s)
{
  if (!known(s)) {mem_op(6, 0); g_led.bad++;}
  if (b && a > SIZE_MAX / b) {mem_op(3, 0); g_led.calls++; g_led.refused++; g_absurd += !g_asked; return NULL;}
  if (refuse(a * b)) {return NULL;}
  void * p = __real_calloc(a, b);
  add_blk(p, a * b, s);
  return p;
}
static void ld(void * p, void * s)
{
  if (!known(s)) {mem_op(6, 0); g_led.bad++;}
  if (!p) {return;}
  blk_t * b = find_blk(p);
  if (!b) {mem_op(4, 0); g_led.bad++; return;}
  if (b->from != s) {mem_op(4, 0); g_led.bad++;}
  del_blk(p);
  __real_free(p);
}
static void * lr(void * p, size_t n, void * s)
{
  if (!known(s)) {mem_op(6, 0); g_led.bad++;}
  if (!p) {return la(n, s);}
  blk_t * b = find_blk(p);
  if (!b) {mem_op(4, 0); g_led.bad++; return NULL;}
  if (b->from != s) {mem_op(4, 0); g_led.bad++;}
  if (n == 0) {
    // the C library's behaviour: release and return NULL
    g_led.calls++;
    ld(p, s);
    return NULL;
  }
  if (refuse(n)) {return NULL;}
  void * q = __real_malloc(n);   // always moves
  memset(q, 0xA5, n);
  memcpy(q, p, b->n < n ? b->n : n);
  del_blk(p);
  __real_free(p);
  add_blk(q, n, s);
  return q;
}
rcutils_allocator_t led_allocator(void)
{
  rcutils_allocator_t a = {
    .allocate = la, .deallocate = ld, .reallocate = lr, .zero_allocate = lz,
    .state = NULL
  };
  static unsigned n;
  a.state = &g_states[n++ % NALLOC];
  return a;
}
rcutils_allocator_t led_allocator_of(const void * p)
{
  rcutils_allocator_t a = led_allocator();
  blk_t * b = find_blk(p);
  if (b) {a.state = b->from;}
  return a;
}
void led_release(void * p) {if (p) {rcutils_allocator_t a = led_allocator_of(p); ld(p, a.state);}}

// ------------------------------------------------------------------ scratch
static void * g_scr[1 << 18];
static size_t g_nscr;
void * scratch(size_t n)
{
  void * p = __real_malloc(n ? n : 1);
  g_scr[g_nscr++] = p;
  return p;
}
static void scratch_free(void) {for (size_t i = 0; i < g_nscr; i++) {__real_free(g_scr[i]);} g_nscr = 0;}

// ------------------------------------------------------------------ arguments
int g_argc;
char ** g_argv;
static void need(int i) {if (i >= g_argc) {fprintf(stderr, "driver: missing argument %d of %s\n", i, g_argv[0]); exit(3);}}
int argi(int i) {need(i); return (int)strtol(g_argv[i], NULL, 10);}
long long argll(int i) {need(i); return strtoll(g_argv[i], NULL, 10);}
const char * args(int i) {need(i); return g_argv[i];}
static int hv(char c) {return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;}
size_t argxlen(int i)
{
  need(i);
  if (!strcmp(g_argv[i], "-") || !strcmp(g_argv[i], ".")) {return 0;}
  return strlen(g_argv[i]) / 2;
}
char * argx(int i)
{
  need(i);
  const char * s = g_argv[i];
  if (!strcmp(s, "-")) {return NULL;}
  size_t n = argxlen(i);
  char * b = scratch(n + 1);
  for (size_t k = 0; k < n; k++) {b[k] = (char)(hv(s[2 * k]) * 16 + hv(s[2 * k + 1]));}
  b[n] = 0;
  return b;
}
char * argx_noterm(int i, size_t * len)
{
  need(i);
  const char * s = g_argv[i];
  size_t n = argxlen(i);
  *len = n;
  if (!strcmp(s, "-")) {return NULL;}
  char * b = scratch(n);
  for (size_t k = 0; k < n; k++) {b[k] = (char)(hv(s[2 * k]) * 16 + hv(s[2 * k + 1]));}
  return b;
}

// ------------------------------------------------------------------ events
static char * g_buf;
static size_t g_len, g_cap;
static int g_out = 1;
static bool g_first, g_afirst[8];
static int g_depth;
static void put(const char * s, size_t n)
{
  if (g_len + n + 1 > g_cap) {
    g_cap = (g_len + n + 1) * 2 + 4096;
    g_buf = __real_realloc(g_buf, g_cap);
  }
  memcpy(g_buf + g_len, s, n);
  g_len += n;
}
static void puts_(const char * s) {put(s, strlen(s));}
static void key(const char * k)
{
  if (!g_first) {puts_(",");}
  g_first = false;
  puts_("\""); puts_(k); puts_("\":");
}
static void num(long long v)
{
  char t[32];
  if (v > 2147483647LL || v < -2147483647LL) {v = 2147483646;}  // TLC integers are 32 bits
  int n = snprintf(t, sizeof t, "%lld", v);
  put(t, (size_t)n);
}
static ledger_t g_snap;   // per-command counters as they were when the library call returned
// injected failures (J): the count the next command starts with, and whether its failure has happened
static long g_inj_next = -1;
static bool g_inj_on, g_inj_hit, g_inj_used;
static void inj_stop(void)
{
  if (!g_inj_on) {return;}
  g_inj_on = false;
  g_inj_hit = rcutils_fault_injection_get_count() < 0;
  rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
}
void ev_begin(const char * op)
{
  g_in_lib = 0;
  inj_stop();
  g_snap = g_led;
  g_fail_from = 0;
  g_len = 0;
  puts_("{\"op\":\""); puts_(op); puts_("\"");
  g_first = false;
}
void ev_int(const char * k, long long v) {key(k); num(v);}
void ev_bool(const char * k, bool v) {key(k); puts_(v ? "true" : "false");}
void ev_str(const char * k, const char * s) {key(k); puts_("\""); puts_(s); puts_("\"");}
static void raw_bytes(const void * p, size_t n)
{
  const unsigned char * c = p;
  puts_("[");
  for (size_t i = 0; i < n; i++) {if (i) {puts_(",");} num(c[i]);}
  puts_("]");
}
void ev_bytes(const char * k, const void * p, size_t n) {key(k); raw_bytes(p, n);}
void ev_cstr(const char * k, const char * s)
{
  key(k);
  if (!s) {puts_("[-1]");} else {raw_bytes(s, strlen(s));}
}
void ev_arr_begin(const char * k) {key(k); puts_("["); g_depth = 0; g_afirst[0] = true;}
static void sep(void) {if (!g_afirst[g_depth]) {puts_(",");} g_afirst[g_depth] = false;}
void ev_arr_int(long long v) {sep(); num(v);}
void ev_arr_bytes(const void * p, size_t n) {sep(); raw_bytes(p, n);}
void ev_arr_cstr(const char * s) {sep(); if (!s) {puts_("[-1]");} else {raw_bytes(s, strlen(s));}}
void ev_arr_open(void) {sep(); puts_("["); g_depth++; g_afirst[g_depth] = true;}
void ev_arr_close(void) {puts_("]"); g_depth--;}
void ev_arr_end(void) {puts_("]");}
static void wr(const char * p, size_t n)
{
  while (n) {
    ssize_t k = write(g_out, p, n);
    if (k <= 0) {_exit(4);}
    p += k; n -= (size_t)k;
  }
}
void ev_end(void)
{
  ev_int("live", g_led.live);
  ev_int("bad", g_led.bad);
  ev_int("refused", g_snap.refused + g_inj_hit);   // an injected failure is a refusal too
  ev_int("inj", g_inj_hit);
  ev_int("calls", g_snap.calls);
  ev_int("raw", g_snap.raw);
  ev_int("absurd", g_absurd);
  if (g_rec) {
    ev_arr_begin("mem");
    for (size_t i = 0; i < g_nmem; i++) {ev_arr_open(); ev_arr_int(g_mem[i][0]); ev_arr_int(g_mem[i][1]); ev_arr_close();}
    ev_arr_end();
  }
  g_nmem = 0;
  puts_("}\n");
  wr(g_buf, g_len);
}

// ------------------------------------------------------------------ capture of stdout/stderr
static int g_save[3] = {-1, -1, -1}, g_tmp[3] = {-1, -1, -1};
char g_scratch_dir[512];
void cap_begin(void)
{
  for (int f = 1; f <= 2; f++) {
    fflush(f == 1 ? stdout : stderr);
    if (g_tmp[f] < 0) {
      char t[600];
      snprintf(t, sizeof t, "%s/cap%d.%d", g_scratch_dir, f, (int)getpid());
      g_tmp[f] = open(t, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      if (g_tmp[f] < 0) {_exit(5);}
      unlink(t);
    }
    if (ftruncate(g_tmp[f], 0) != 0) {_exit(5);}
    lseek(g_tmp[f], 0, SEEK_SET);
    g_save[f] = dup(f);
    dup2(g_tmp[f], f);
  }
}
// how much has reached the file without flushing
size_t cap_reached(int which) {off_t n = lseek(g_tmp[which], 0, SEEK_END); return n < 0 ? 0 : (size_t)n;}
// takes out of captured output what fault injection itself prints
size_t inj_strip(char * b, size_t n)
{
  char * f = b;
  while (g_inj_used && (f = strstr(f, " Injecting fault and ")) != NULL) {
    char * e = strchr(f, '\n');
    e = e ? e + 1 : b + n;
    while (f > b && f[-1] != '\n') {f--;}
    memmove(f, e, (size_t)(b + n - e) + 1);
    n -= (size_t)(e - f);
  }
  return n;
}
// restores both streams on the first call after cap_begin, then returns the captured bytes
size_t cap_end(int which, char ** out)
{
  int keep = g_in_lib;
  g_in_lib = 0;
  if (g_save[1] >= 0) {
    fflush(stdout); fflush(stderr);
    for (int f = 1; f <= 2; f++) {dup2(g_save[f], f); close(g_save[f]); g_save[f] = -1;}
  }
  off_t n = lseek(g_tmp[which], 0, SEEK_END);
  char * b = scratch((size_t)n + 1);
  ssize_t k = pread(g_tmp[which], b, (size_t)n, 0);
  if (k != n) {_exit(5);}
  b[n] = 0;
  if (which == 1) {n = (off_t)inj_strip(b, (size_t)n);}
  *out = b;
  g_in_lib = keep;
  return (size_t)n;
}

// ------------------------------------------------------------------ main
static const op_t * g_tables[] = {g_ops_hm, g_ops_sm, g_ops_al, g_ops_sa, g_ops_ca, g_ops_str,
  g_ops_err, g_ops_log, g_ops_fs, g_ops_time, g_ops_env, g_ops_sl, g_ops_sha, g_ops_mem};

void log_leave(void);
bool g_stop;   // set by constructors that succeeded: the failure sweep of FF must not repeat them
void op_made(bool made) {g_stop = made;}

// memory of the logging system, which is not part of any object's ledger
static void * pa(size_t n, void * s) {(void)s; return __real_malloc(n);}
static void * pz(size_t a, size_t b, void * s) {(void)s; return __real_calloc(a, b);}
static void * pr(void * p, size_t n, void * s) {(void)s; return __real_realloc(p, n);}
static void pd(void * p, void * s) {(void)s; __real_free(p);}
rcutils_allocator_t plain_allocator(void)
{
  rcutils_allocator_t a = {.allocate = pa, .deallocate = pd, .reallocate = pr, .zero_allocate = pz};
  return a;
}
// An operation that never ends is a failure. The limit is processor time, which a busy machine does not use up;
// the wall-clock limit, for an operation that waits for ever, is far larger.
static void limit_time(int cpu, int wall)
{
  struct itimerval v = {{0, 0}, {cpu, 0}};
  setitimer(ITIMER_PROF, &v, NULL);
  alarm(wall);
}
// What a call finds on the stack is no part of its inputs: fill it with something no result is made of, so
// that a variable which is used without having been set shows.
static __attribute__((noinline)) void dirty_stack(int byte)
{
  volatile unsigned char b[48 * 1024];
  memset((void *)b, byte, sizeof b);
  __asm__ volatile ("" : : "r" (b) : "memory");
}
static void exec_op(const op_t * o)
{
  static unsigned ops;
  dirty_stack(ops++ % 2 ? 0xA5 : 0x31);
  g_led.refused = g_led.calls = g_led.raw = 0;
  g_stop = false;
  g_absurd = 0;
  g_asked = false;
  for (int i = 1; i < g_argc; i++) {
    const char * w = g_argv[i];
    g_asked |= strspn(w, "0123456789") == strlen(w) && strtoull(w, NULL, 10) >= 1 << 24;
  }
  limit_time(40, 200);
  g_inj_hit = false;
  g_inj_on = g_inj_used = g_inj_next >= 0;
  if (g_inj_on) {rcutils_fault_injection_set_count(g_inj_next);}
  lib_enter();
  o->fn();
  g_in_lib = 0;
  inj_stop();
  g_inj_next = -1;
  limit_time(0, 0);
  g_fail_from = 0;
  scratch_free();
}

static void run_line(char * line)
{
  static char * words[70000];
  int n = 0;
  for (char * t = strtok(line, " \n"); t && n < 69999; t = strtok(NULL, " \n")) {words[n++] = t;}
  if (n == 0) {return;}
  g_argc = n; g_argv = words;
  if (!strcmp(words[0], "F")) {         // F k : refuse the k-th allocation of the next command
    g_fail_from = strtol(words[1], NULL, 10);
    g_fail_sticky = false;
    return;
  }
  if (!strcmp(words[0], "F+")) {        // F+ k : refuse the k-th and all later ones
    g_fail_from = strtol(words[1], NULL, 10);
    g_fail_sticky = true;
    return;
  }
  // FF cmd..., FF+ cmd... : run the command refusing its 1st allocation, its 2nd, ... until it
  // completes without a refusal
  int sweep = !strcmp(words[0], "FF") ? 1 : !strcmp(words[0], "FF+") ? 2 : 0;
  // J cmd... : the same with the failures that the library can be told to inject
  bool inject = !strcmp(words[0], "J");
  if (sweep || inject) {g_argc--; g_argv++;}
  for (size_t t = 0; t < sizeof g_tables / sizeof g_tables[0]; t++) {
    for (const op_t * o = g_tables[t]; o->name; o++) {
      if (!strcmp(o->name, g_argv[0])) {
        if (inject) {
          for (long k = 0; k < 400; k++) {
            g_inj_next = k;
            exec_op(o);
            bool hit = g_inj_hit;
            g_inj_hit = false;
            if (!hit || g_stop) {break;}
          }
          return;
        }
        if (!sweep) {
          exec_op(o);
          g_fail_sticky = false;
          return;
        }
        for (long k = 1; k < 400; k++) {
          g_fail_from = k;
          g_fail_sticky = sweep == 2;
          exec_op(o);
          if (g_snap.refused == 0 || g_stop) {break;}
        }
        g_fail_sticky = false;
        return;
      }
    }
  }
  if (!strcmp(words[0], "mem")) {       // record what happens to the ledger for the rest of the session
    g_rec = true;
    g_nmem = 0;
    return;
  }
  if (!strcmp(words[0], "quiet")) {     // the script has finalised everything
    log_leave();
    g_led.refused = g_led.calls = g_led.raw = 0;
    ev_begin("Quiet");
    ev_end();
    return;
  }
  if (!strcmp(words[0], "sel")) {
    g_lives[g_sel] = g_led.live;
    g_sel = atoi(words[1]) % NSEL;
    g_led.live = g_lives[g_sel];
    ev_begin("Sel");
    ev_int("k", g_sel);
    ev_end();
    return;
  }
  if (!strcmp(words[0], "locale")) {
    (void)setlocale(LC_ALL, words[1]);
    return;
  }
  if (!strcmp(words[0], "session")) {
    g_rec = false;
    log_leave();
    setlocale(LC_ALL, "C");
    led_forget();
    sess_reset_cont();
    g_led.refused = g_led.calls = g_led.raw = 0;
    ev_begin("Session");
    ev_str("tag", n > 1 ? words[1] : "");
    ev_end();
    return;
  }
  fprintf(stderr, "driver: unknown command %s\n", words[0]);
  exit(3);
}

int main(int argc, char ** argv)
{
  if (argc < 4) {fprintf(stderr, "usage: driver SCRIPT OUT SCRATCHDIR\n"); return 3;}
  FILE * f = fopen(argv[1], "r");
  if (!f) {perror(argv[1]); return 3;}
  g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (g_out < 0) {perror(argv[2]); return 3;}
  snprintf(g_scratch_dir, sizeof g_scratch_dir, "%s", argv[3]);
  if (rcutils_logging_initialize_with_allocator(plain_allocator()) != RCUTILS_RET_OK) {return 3;}
  char * line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {run_line(line);}
  g_led.refused = g_led.calls = g_led.raw = 0;
  ev_begin("Done");
  ev_end();
  // stop here: objects deliberately left alive by a script are not leaks of the library
  _exit(0);
}
