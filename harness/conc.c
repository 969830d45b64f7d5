// Runs scenarios of several threads under every schedule asked for, and records each distinct history.
// The library is compiled with -fsanitize=thread; the functions its instrumentation calls are defined
// here and are the points at which another thread may be scheduled.
#include "conc.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>

// ---------------------------------------------------------------- text
void bput(buf_t * b, const char * fmt, ...)
{
  va_list a;
  for (;;) {
    va_start(a, fmt);
    int n = vsnprintf(b->p ? b->p + b->n : NULL, b->p ? b->cap - b->n : 0, fmt, a);
    va_end(a);
    if (b->p && b->n + n < b->cap) {b->n += n; return;}
    b->cap = (b->cap + n + 1) * 2;
    b->p = realloc(b->p, b->cap);
  }
}
void bbytes(buf_t * b, const void * p, size_t n)
{
  bput(b, "[");
  for (size_t i = 0; i < n; i++) {bput(b, i ? ",%d" : "%d", ((const unsigned char *)p)[i]);}
  bput(b, "]");
}
void bcstr(buf_t * b, const char * s) {if (s) {bbytes(b, s, strlen(s));} else {bput(b, "[-1]");}}
void blimbs(buf_t * b, int64_t v)
{
  int64_t q = v / 1000000, c = v % 1000000;
  if (c < 0) {c += 1000000; q--;}
  int64_t a = q / 1000000, m = q % 1000000;
  if (m < 0) {m += 1000000; a--;}
  bput(b, "[%lld,%lld,%lld]", (long long)a, (long long)m, (long long)c);
}
static char * unhex(const char * w)
{
  if (!strcmp(w, "-")) {return NULL;}
  size_t n = !strcmp(w, ".") ? 0 : strlen(w) / 2;
  char * r = malloc(n + 1);
  for (size_t i = 0; i < n; i++) {unsigned x; sscanf(w + 2 * i, "%2x", &x); r[i] = (char)x;}
  r[n] = 0;
  return r;
}
// decoded words are kept with the command: odd storage, done once per scenario
typedef struct {const char * w; char * v;} memo_t;
static memo_t g_memo[4096];
static int g_nmemo;
char * cx(const cmd_t * c, int i)
{
  for (int k = 0; k < g_nmemo; k++) {if (g_memo[k].w == c->w[i]) {return g_memo[k].v;}}
  fprintf(stderr, "word not decoded\n");
  _exit(3);
}
long long ci(const cmd_t * c, int i)
{
  if (i >= c->n) {fprintf(stderr, "missing word %d of %s\n", i, c->w[0]); _exit(3);}
  return strtoll(c->w[i], NULL, 10);
}

// ---------------------------------------------------------------- scenario
#define MAXOPS 40
static cmd_t g_init[64], g_ops[MAXT][MAXOPS];
static int g_ninit, g_nops[MAXT], g_nt;
static char g_tag[64];
static FILE * g_out;
static int g_errfd;
static const cop_t * find_op(const char * n)
{
  const cop_t * tabs[] = {g_cops, g_cops_at};
  for (int t = 0; t < 2; t++) {for (const cop_t * o = tabs[t]; o->name; o++) {if (!strcmp(o->name, n)) {return o;}}}
  dprintf(g_errfd, "unknown operation %s\n", n);
  _exit(3);
}

// ---------------------------------------------------------------- events of one execution
typedef struct {int kind, t, i; char * text;} event_t;   // 0 call, 1 return
static event_t g_ev[MAXT * MAXOPS * 2 + 8];
static int g_nev;
static pthread_mutex_t g_evlock = PTHREAD_MUTEX_INITIALIZER;
static int g_capfd = -1;
static off_t g_capoff;
static bool g_watch;      // the output is part of what is observed
static void new_output(buf_t * b)
{
  char tmp[65536];
  bput(b, ",\"out\":");
  ssize_t n = g_watch ? pread(g_capfd, tmp, sizeof(tmp), g_capoff) : 0;
  if (n < 0) {n = 0;}
  g_capoff += n;
  bbytes(b, tmp, (size_t)n);
}
static bool g_free;
static void record(int kind, int t, int i, buf_t * fields)
{
  if (g_free) {pthread_mutex_lock(&g_evlock);}
  buf_t b = {0};
  bput(&b, "{\"op\":\"%s\",\"t\":%d,\"i\":%d%.*s", kind ? "Ret" : "Call", t, i, (int)fields->n, fields->p ? fields->p : "");
  if (kind && g_watch) {new_output(&b);}
  bput(&b, "}");
  g_ev[g_nev].kind = kind; g_ev[g_nev].t = t; g_ev[g_nev].i = i; g_ev[g_nev].text = b.p;
  g_nev++;
  if (g_free) {pthread_mutex_unlock(&g_evlock);}
}

// ---------------------------------------------------------------- scheduler
typedef struct {th_t th; pthread_t p; sem_t sem; bool done; char * lo, * hi;} thread_t;
static thread_t g_th[MAXT];
static sem_t g_main;
static volatile bool g_active;
__thread th_t * t_me;
static __thread int t_id = -1;
static __thread bool t_lib;
static long g_steps, g_consec;
#define STACK (512 * 1024)
// how schedules are chosen
static int g_perm[MAXT];
static struct {long step; int rank;} g_pre[8];
static int g_npre, g_ipre;
static bool g_dfs;
static int g_bound, g_used;   // preemptions allowed (-1: any number) and made
static struct {unsigned char c, n;} g_stack[20000];
static int g_depth, g_top;
static int runnable(int * r, int first)   // runnable threads, `first` first if it can go on
{
  int n = 0;
  if (first >= 0 && !g_th[first].done) {r[n++] = first;}
  for (int k = 0; k < g_nt; k++) {
    int t = g_perm[k];
    if (t != first && !g_th[t].done) {r[n++] = t;}
  }
  return n;
}
static int pick(int cur)
{
  int r[MAXT], n = runnable(r, cur);
  if (n == 0) {return -1;}
  if (n == 1) {return r[0];}
  if (g_dfs) {
    bool going = cur >= 0 && !g_th[cur].done;
    if (going && g_bound >= 0 && g_used >= g_bound) {return cur;}
    if (g_depth >= (int)(sizeof(g_stack) / sizeof(g_stack[0]))) {return r[0];}
    if (g_depth >= g_top) {g_stack[g_top].c = 0; g_stack[g_top].n = (unsigned char)n; g_top++;}
    int to = r[g_stack[g_depth++].c % n];
    if (going && to != cur) {g_used++;}
    return to;
  }
  if (cur >= 0 && !g_th[cur].done) {
    while (g_ipre < g_npre && g_pre[g_ipre].step < g_steps) {g_ipre++;}
    if (g_ipre < g_npre && g_pre[g_ipre].step == g_steps) {return r[1 + g_pre[g_ipre++].rank % (n - 1)];}
  }
  return r[0];
}
static void hand_over(int to)
{
  int me = t_id;
  g_consec = 0;
  sem_post(&g_th[to].sem);
  while (sem_wait(&g_th[me].sem) != 0) {}
}
void sched_point(void)
{
  if (t_id < 0 || !t_lib || !g_active) {return;}
  g_steps++;
  int to = pick(t_id);
  if (to == t_id && ++g_consec > 200000) {       // it may be waiting for another thread
    int r[MAXT], n = runnable(r, t_id);
    if (n > 1) {to = r[1 + (g_steps % (n - 1))];}
    g_consec = 0;
  }
  if (to != t_id) {hand_over(to);}
}
static void yield_now(void)       // it is waiting for another thread
{
  if (t_id < 0 || !g_active) {sched_yield(); return;}
  int r[MAXT], n = runnable(r, t_id);
  g_steps++;
  if (n > 1) {hand_over(r[1 + (g_steps % (n - 1))]);}
}
void sched_lib(bool in) {t_lib = in;}
static void * body(void * a)
{
  thread_t * x = a;
  t_id = x->th.id;
  t_me = &x->th;
  if (!g_free) {while (sem_wait(&x->sem) != 0) {}}
  else {sem_post(&g_main); while (!g_active) {}}
  for (int i = 0; i < g_nops[t_id]; i++) {
    const cmd_t * c = &g_ops[t_id][i];
    const cop_t * o = find_op(c->w[0]);
    x->th.call.n = x->th.ret.n = x->th.dl.n = 0;
    if (o->call) {o->call(&x->th, c);}
    t_lib = !g_free;
    sched_point();
    t_lib = false;
    record(0, t_id, i + 1, &x->th.call);
    t_lib = !g_free;
    o->run(&x->th, c);
    t_lib = false;
    record(1, t_id, i + 1, &x->th.ret);
  }
  ops_thread_end(&x->th);
  x->done = true;
  if (!g_free) {
    int to = pick(-1);
    sem_post(to < 0 ? &g_main : &g_th[to].sem);
  }
  return NULL;
}
static void limit_time(int cpu, int wall)   // processor time and, for threads that wait for ever, wall-clock time
{
  struct itimerval v = {{0, 0}, {cpu, 0}};
  setitimer(ITIMER_PROF, &v, NULL);
  alarm(wall);
}
static void one_execution(void)
{
  for (int i = 0; i < g_nev; i++) {free(g_ev[i].text);}
  g_nev = 0; g_steps = g_consec = 0; g_depth = g_ipre = g_used = 0;
  limit_time(60, 200);
  g_setup.n = 0;
  ftruncate(g_capfd, 0);
  lseek(g_capfd, 0, SEEK_SET);
  g_capoff = 0;
  for (int i = 0; i < g_ninit; i++) {ops_setup(&g_init[i]);}
  fflush(stdout); fflush(stderr);
  if (g_watch) {g_capoff = lseek(g_capfd, 0, SEEK_END);}
  int n = 0;
  for (int t = 0; t < g_nt; t++) {
    thread_t * x = &g_th[t];
    sem_init(&x->sem, 0, 0);
    x->done = g_nops[t] == 0;
    x->th.id = t;
    if (x->done) {continue;}
    n++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, x->lo, STACK);
    if (pthread_create(&x->p, &at, body, x) != 0) {dprintf(g_errfd, "no thread\n"); _exit(5);}
    pthread_attr_destroy(&at);
  }
  if (g_free) {
    for (int k = 0; k < n; k++) {while (sem_wait(&g_main) != 0) {}}
    g_active = true;
  } else if (n) {
    g_active = true;
    int to = pick(-1);
    sem_post(&g_th[to].sem);
    while (sem_wait(&g_main) != 0) {}
  }
  for (int t = 0; t < g_nt; t++) {if (g_nops[t]) {pthread_join(g_th[t].p, NULL);}}
  g_active = false;
  for (int t = 0; t < g_nt; t++) {sem_destroy(&g_th[t].sem);}
  fflush(stdout); fflush(stderr);
  buf_t b = {0};
  bput(&b, "{\"op\":\"End\"");
  new_output(&b);
  bput(&b, "}");
  g_ev[g_nev].kind = 2; g_ev[g_nev].t = 0; g_ev[g_nev].i = 0; g_ev[g_nev].text = b.p;
  g_nev++;
  ops_teardown();
  limit_time(0, 0);
}

// ---------------------------------------------------------------- distinct histories
static uint64_t * g_seen;
static size_t g_nseen, g_capseen;
static long g_execs, g_kept;
static bool g_alone;      // each thread's results are compared with those it has by itself
static bool is_new(uint64_t h)
{
  if (g_nseen * 2 >= g_capseen) {
    size_t oc = g_capseen;
    uint64_t * o = g_seen;
    g_capseen = oc ? oc * 2 : 1024;
    g_seen = calloc(g_capseen, sizeof(*g_seen));
    for (size_t i = 0; i < oc; i++) {
      if (o[i]) {size_t k = o[i] % g_capseen; while (g_seen[k]) {k = (k + 1) % g_capseen;} g_seen[k] = o[i];}
    }
    free(o);
  }
  if (!h) {h = 1;}
  size_t k = h % g_capseen;
  while (g_seen[k]) {if (g_seen[k] == h) {return false;} k = (k + 1) % g_capseen;}
  g_seen[k] = h; g_nseen++;
  return true;
}
static int by_thread(const void * a, const void * b)
{
  const event_t * x = a, * y = b;
  return x->kind != y->kind ? x->kind - y->kind : x->t != y->t ? x->t - y->t : x->i - y->i;
}
static void keep(long cap)
{
  g_execs++;
  if (g_alone) {
    int n = 0;
    for (int i = 0; i < g_nev; i++) {if (g_ev[i].kind == 1) {g_ev[n++] = g_ev[i];} else {free(g_ev[i].text);}}
    g_nev = n;
    qsort(g_ev, (size_t)n, sizeof(g_ev[0]), by_thread);
  }
  uint64_t h = 1469598103934665603u;
  for (int i = 0; i < g_nev; i++) {for (char * s = g_ev[i].text; *s; s++) {h = (h ^ (unsigned char)*s) * 1099511628211u;}}
  if (g_kept >= cap || !is_new(h)) {return;}
  g_kept++;
  if (!g_alone) {fprintf(g_out, "{\"op\":\"Session\",\"tag\":\"%s\"}\n", g_tag);}
  if (g_setup.n) {fprintf(g_out, "{\"op\":\"Setup\"%.*s}\n", (int)g_setup.n, g_setup.p);}
  for (int i = 0; i < g_nev; i++) {fprintf(g_out, "%s\n", g_ev[i].text);}
}
static uint64_t g_seed = 1;
static uint64_t rnd(void) {g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17; return g_seed;}
static double now_s(void)
{
  struct timespec t;
  extern int __real_clock_gettime(clockid_t, struct timespec *);
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static void shuffle_perm(void)
{
  for (int i = g_nt - 1; i > 0; i--) {int j = (int)(rnd() % (i + 1)), x = g_perm[i]; g_perm[i] = g_perm[j]; g_perm[j] = x;}
}
// run LIN|OUT|ALONE STRATEGY LIMIT CAP SEED SECONDS
static void run(const cmd_t * c)
{
  const char * kind = c->w[1], * how = c->w[2];
  long limit = (long)ci(c, 3), cap = (long)ci(c, 4);
  g_seed = (uint64_t)ci(c, 5) * 2654435761u + 88172645463325252u;
  double end = now_s() + (double)ci(c, 6);
  g_alone = !strcmp(kind, "ALONE");
  g_watch = !strcmp(kind, "OUT");
  g_nseen = 0; g_execs = g_kept = 0;
  free(g_seen); g_seen = NULL; g_capseen = 0;
  g_dfs = false; g_free = false; g_npre = 0;
  for (int i = 0; i < MAXT; i++) {g_perm[i] = i;}
  int done = 0;
  if (g_alone) {
    int nops[MAXT];
    memcpy(nops, g_nops, sizeof(nops));
    buf_t ref = {0};
    for (int t = 0; t < g_nt; t++) {
      memset(g_nops, 0, sizeof(g_nops));
      g_nops[t] = nops[t];
      one_execution();
      for (int i = 0; i < g_nev; i++) {
        if (g_ev[i].kind == 1) {bput(&ref, "%s%s", ref.n ? "," : "", g_ev[i].text);}
      }
    }
    memcpy(g_nops, nops, sizeof(nops));
    fprintf(g_out, "{\"op\":\"Session\",\"tag\":\"%s\"}\n{\"op\":\"Alone\",\"all\":[%.*s]}\n", g_tag, (int)ref.n, ref.p ? ref.p : "");
    free(ref.p);
  }
  if (!strcmp(how, "dfs") || !strncmp(how, "pb", 2)) {    // every schedule, or those with so many preemptions
    g_dfs = true; g_top = 0; g_bound = how[0] == 'p' ? atoi(how + 2) : -1;
    while (g_execs < limit && now_s() < end) {
      one_execution();
      keep(cap);
      while (g_top > 0 && g_stack[g_top - 1].c + 1 >= g_stack[g_top - 1].n) {g_top--;}
      if (g_top == 0) {done = 1; break;}
      g_stack[g_top - 1].c++;
    }
  } else if (!strcmp(how, "free")) {
    g_free = true;
    while (g_execs < limit && now_s() < end) {one_execution(); keep(cap);}
  } else {
    // no preemption: every order of the threads (at most 24)
    long most = 0;
    for (int k = 0; k < 24 && g_execs < limit; k++) {
      int x = k, pool[MAXT], n = g_nt;
      for (int i = 0; i < g_nt; i++) {pool[i] = i;}
      for (int i = 0; i < g_nt; i++) {int j = x % n; x /= n; g_perm[i] = pool[j]; pool[j] = pool[--n];}
      one_execution();
      if (g_steps > most) {most = g_steps;}
      keep(cap);
    }
    // one preemption: everywhere if that is affordable, otherwise at random positions
    long all = most * g_nt * (g_nt - 1), n1 = all < limit / 2 ? all : limit / 2;
    for (long k = 0; k < n1 && now_s() < end; k++) {
      long x = all <= limit / 2 ? k : (long)(rnd() % (uint64_t)all);
      int first = (int)(x / (most * (g_nt - 1)));
      for (int i = 0; i < g_nt; i++) {g_perm[i] = (first + i) % g_nt;}
      g_npre = 1; g_pre[0].step = 1 + x % most; g_pre[0].rank = (int)(x / most % (g_nt - 1));
      one_execution();
      keep(cap);
    }
    // two to four preemptions at random positions
    while (g_execs < limit && now_s() < end && g_nt > 1) {
      shuffle_perm();
      g_npre = 2 + (int)(rnd() % 3);
      for (int i = 0; i < g_npre; i++) {g_pre[i].step = 1 + (long)(rnd() % (uint64_t)(most + 1)); g_pre[i].rank = (int)(rnd() % 3);}
      if (rnd() % 3 == 0) {for (int i = 1; i < g_npre; i++) {g_pre[i].step = g_pre[i - 1].step + 1 + (long)(rnd() % 60);}}
      for (int i = 1; i < g_npre; i++) {
        for (int j = i; j > 0 && g_pre[j].step < g_pre[j - 1].step; j--) {
          long s = g_pre[j].step; int r = g_pre[j].rank;
          g_pre[j] = g_pre[j - 1]; g_pre[j - 1].step = s; g_pre[j - 1].rank = r;
        }
      }
      one_execution();
      keep(cap);
    }
  }
  fprintf(g_out, "{\"op\":\"Ran\",\"execs\":%ld,\"histories\":%ld,\"steps\":%ld,\"complete\":%d}\n", g_execs, (long)g_nseen, g_steps, done);
  fflush(g_out);
  for (int i = 0; i < g_nev; i++) {free(g_ev[i].text);}
  g_nev = 0;
}

// ---------------------------------------------------------------- instrumentation
static bool mine(const void * p)   // on the stack of the running thread
{
  return t_id >= 0 && (const char *)p >= g_th[t_id].lo && (const char *)p < g_th[t_id].hi;
}
static void access_(const void * p) {if (t_lib && !mine(p)) {sched_point();}}
void __tsan_init(void) {}
void __tsan_func_entry(void * a) {(void)a;}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read ## n(void * p) {access_(p);} void __tsan_write ## n(void * p) {access_(p);} \
  void __tsan_unaligned_read ## n(void * p) {access_(p);} void __tsan_unaligned_write ## n(void * p) {access_(p);} \
  void __tsan_volatile_read ## n(void * p) {access_(p);} void __tsan_volatile_write ## n(void * p) {access_(p);} \
  void __tsan_unaligned_volatile_read ## n(void * p) {access_(p);} void __tsan_unaligned_volatile_write ## n(void * p) {access_(p);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) {(void)n; access_(p);}
void __tsan_write_range(void * p, size_t n) {(void)n; access_(p);}
void __tsan_vptr_update(void * p, void * q) {(void)q; access_(p);}
void __tsan_vptr_read(void * p) {access_(p);}
#define AT(b, T) \
  T __tsan_atomic ## b ## _load(const volatile T * p, int m) {(void)m; sched_point(); return __atomic_load_n(p, 5);} \
  void __tsan_atomic ## b ## _store(volatile T * p, T v, int m) {(void)m; sched_point(); __atomic_store_n(p, v, 5);} \
  T __tsan_atomic ## b ## _exchange(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_exchange_n(p, v, 5);} \
  T __tsan_atomic ## b ## _fetch_add(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_fetch_add(p, v, 5);} \
  T __tsan_atomic ## b ## _fetch_sub(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_fetch_sub(p, v, 5);} \
  T __tsan_atomic ## b ## _fetch_and(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_fetch_and(p, v, 5);} \
  T __tsan_atomic ## b ## _fetch_or(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_fetch_or(p, v, 5);} \
  T __tsan_atomic ## b ## _fetch_xor(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_fetch_xor(p, v, 5);} \
  T __tsan_atomic ## b ## _fetch_nand(volatile T * p, T v, int m) {(void)m; sched_point(); return __atomic_fetch_nand(p, v, 5);} \
  int __tsan_atomic ## b ## _compare_exchange_strong(volatile T * p, T * e, T v, int m, int f) \
  {(void)m; (void)f; sched_point(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);} \
  int __tsan_atomic ## b ## _compare_exchange_weak(volatile T * p, T * e, T v, int m, int f) \
  {(void)m; (void)f; sched_point(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);} \
  T __tsan_atomic ## b ## _compare_exchange_val(volatile T * p, T e, T v, int m, int f) \
  {(void)m; (void)f; sched_point(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e;}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) {(void)m; sched_point(); __atomic_thread_fence(5);}
void __tsan_atomic_signal_fence(int m) {(void)m;}

// library functions: another thread may run before and after each
#define PT sched_point()
#define W1(R, N, A) extern R __real_ ## N(A); R __wrap_ ## N(A a) {PT; R r = __real_ ## N(a); PT; return r;}
#define W2(R, N, A, B) extern R __real_ ## N(A, B); R __wrap_ ## N(A a, B b) {PT; R r = __real_ ## N(a, b); PT; return r;}
#define W3(R, N, A, B, C) extern R __real_ ## N(A, B, C); R __wrap_ ## N(A a, B b, C c) {PT; R r = __real_ ## N(a, b, c); PT; return r;}
#define W4(R, N, A, B, C, D) extern R __real_ ## N(A, B, C, D); R __wrap_ ## N(A a, B b, C c, D d) {PT; R r = __real_ ## N(a, b, c, d); PT; return r;}
typedef const char * cs;
W4(size_t, fwrite, const void *, size_t, size_t, FILE *)
W2(int, fputs, cs, FILE *) W2(int, fputc, int, FILE *) W2(int, putc, int, FILE *) W1(int, puts, cs) W1(int, putchar, int)
W1(int, fflush, FILE *)
W3(int, vfprintf, FILE *, cs, va_list) W3(int, vsprintf, char *, cs, va_list)
W4(int, vsnprintf, char *, size_t, cs, va_list) W2(int, vprintf, cs, va_list)
int __wrap_fprintf(FILE * f, cs m, ...) {va_list a; va_start(a, m); int r = __wrap_vfprintf(f, m, a); va_end(a); return r;}
int __wrap_printf(cs m, ...) {va_list a; va_start(a, m); int r = __wrap_vprintf(m, a); va_end(a); return r;}
int __wrap_sprintf(char * s, cs m, ...) {va_list a; va_start(a, m); int r = __wrap_vsprintf(s, m, a); va_end(a); return r;}
int __wrap_snprintf(char * s, size_t n, cs m, ...) {va_list a; va_start(a, m); int r = __wrap_vsnprintf(s, n, m, a); va_end(a); return r;}
typedef struct tm tm_t;
W2(tm_t *, localtime_r, const time_t *, tm_t *) W1(tm_t *, localtime, const time_t *)
W2(tm_t *, gmtime_r, const time_t *, tm_t *) W1(tm_t *, gmtime, const time_t *)
W4(size_t, strftime, char *, size_t, cs, const tm_t *)
W1(char *, strerror, int) W3(char *, strerror_r, int, char *, size_t) W3(int, __xpg_strerror_r, int, char *, size_t)
W1(char *, getenv, cs) W1(int, isatty, int)
W2(char *, strtok, char *, cs) W3(char *, strtok_r, char *, cs, char **)
W1(char *, __xpg_basename, char *) W1(char *, basename, cs) W1(char *, dirname, char *)
static bool out_of(const void * p) {return t_lib && !mine(p);}
#define M3(R, N, A, B, C) extern R __real_ ## N(A, B, C); R __wrap_ ## N(A a, B b, C c) \
  {if (out_of(a)) {PT;} R r = __real_ ## N(a, b, c); if (out_of(a)) {PT;} return r;}
#define M2(R, N, A, B) extern R __real_ ## N(A, B); R __wrap_ ## N(A a, B b) \
  {if (out_of(a)) {PT;} R r = __real_ ## N(a, b); if (out_of(a)) {PT;} return r;}
M3(void *, memcpy, void *, const void *, size_t) M3(void *, memmove, void *, const void *, size_t)
M3(void *, memset, void *, int, size_t) M2(char *, strcpy, char *, cs) M2(char *, strcat, char *, cs)
M3(char *, strncpy, char *, cs, size_t) M3(char *, strncat, char *, cs, size_t) M2(char *, stpcpy, char *, cs)
extern int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t k, struct timespec * t)
{
  if (!t_lib && !(g_free && t_me)) {return __real_clock_gettime(k, t);}
  PT;
  t->tv_sec = t_me->now / 1000000000;
  t->tv_nsec = t_me->now % 1000000000;
  PT;
  return 0;
}
extern int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  if (!t_lib) {return __real_pthread_mutex_lock(m);}
  PT;
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) {yield_now();}
  return r;
}
extern int __real_mtx_lock(void *), __real_mtx_trylock(void *);
int __wrap_mtx_lock(void * m)
{
  if (!t_lib) {return __real_mtx_lock(m);}
  PT;
  int r;
  while ((r = __real_mtx_trylock(m)) == 1) {yield_now();}   // thrd_busy
  return r;
}
int __wrap_mtx_trylock(void * m) {PT; return __real_mtx_trylock(m);}
extern int __real_pthread_rwlock_rdlock(pthread_rwlock_t *), __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  if (!t_lib) {return __real_pthread_rwlock_rdlock(m);}
  PT;
  int r;
  while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) {yield_now();}
  return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  if (!t_lib) {return __real_pthread_rwlock_wrlock(m);}
  PT;
  int r;
  while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) {yield_now();}
  return r;
}
extern void __real_flockfile(FILE *);
void __wrap_flockfile(FILE * f)
{
  if (!t_lib) {__real_flockfile(f); return;}
  PT;
  while (ftrylockfile(f) != 0) {yield_now();}
}
int __wrap_sched_yield(void) {yield_now(); return 0;}
int __wrap_thrd_yield(void) {yield_now(); return 0;}

// ---------------------------------------------------------------- script
static void parse(char * s, cmd_t * c)
{
  c->n = 0;
  for (char * w = strtok(s, " "); w; w = strtok(NULL, " ")) {
    if (c->n == 16) {_exit(3);}
    c->w[c->n++] = strdup(w);
    if (g_nmemo == 4096) {_exit(3);}
    g_memo[g_nmemo].w = c->w[c->n - 1];
    size_t n = strlen(w);
    bool hex = !strcmp(w, "-") || !strcmp(w, ".") || (n % 2 == 0 && strspn(w, "0123456789abcdef") == n);
    g_memo[g_nmemo++].v = hex ? unhex(w) : NULL;
  }
}
static void clear(void)
{
  g_ninit = g_nt = 0;
  memset(g_nops, 0, sizeof(g_nops));
  for (int i = 0; i < g_nmemo; i++) {free(g_memo[i].v); free((char *)g_memo[i].w);}
  g_nmemo = 0;
}
int main(int argc, char ** argv)
{
  if (argc < 3) {return 3;}
  FILE * f = fopen(argv[1], "r");
  g_out = fopen(argv[2], "w");
  if (!f || !g_out) {return 3;}
  g_errfd = dup(2);
  g_capfd = memfd_create("out", 0);
  if (g_capfd < 0) {return 5;}
  int flags = fcntl(g_capfd, F_GETFL);
  fcntl(g_capfd, F_SETFL, flags | O_APPEND);
  dup2(g_capfd, 1);
  dup2(g_capfd, 2);
  sem_init(&g_main, 0, 0);
  for (int i = 0; i < MAXT; i++) {
    g_th[i].lo = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g_th[i].lo == MAP_FAILED) {return 5;}
    g_th[i].hi = g_th[i].lo + STACK;
  }
  // one processor: only one thread runs at a time anyway, and handing over is cheaper
  cpu_set_t all, one;
  sched_getaffinity(0, sizeof(all), &all);
  int k = (getenv("CONC_CPU") ? atoi(getenv("CONC_CPU")) : (int)getpid()) % (CPU_COUNT(&all) ? CPU_COUNT(&all) : 1);
  CPU_ZERO(&one);
  for (int i = 0; i < CPU_SETSIZE; i++) {if (CPU_ISSET(i, &all) && k-- == 0) {CPU_SET(i, &one);}}
  static char line[1 << 16];
  while (fgets(line, sizeof(line), f)) {
    line[strcspn(line, "\n")] = 0;
    if (!*line) {continue;}
    char * rest = strchr(line, ' ');
    rest = rest ? rest + 1 : line + strlen(line);
    if (!strncmp(line, "session", 7)) {
      clear();
      snprintf(g_tag, sizeof(g_tag), "%s", rest);
    } else if (!strncmp(line, "init ", 5)) {
      if (g_ninit == 64) {return 3;}
      parse(rest, &g_init[g_ninit++]);
    } else if (!strncmp(line, "t", 1) && line[1] >= '0' && line[1] < '0' + MAXT) {
      int t = line[1] - '0';
      if (t >= g_nt) {g_nt = t + 1;}
      if (g_nops[t] == MAXOPS) {return 3;}
      parse(rest, &g_ops[t][g_nops[t]++]);
    } else if (!strncmp(line, "run ", 4)) {
      cmd_t c;
      char * copy = strdup(line);
      parse(copy, &c);
      sched_setaffinity(0, sizeof(one), strcmp(c.w[2], "free") ? &one : &all);
      run(&c);
      free(copy);
    } else {
      dprintf(g_errfd, "bad line %s\n", line);
      return 3;
    }
  }
  fprintf(g_out, "{\"op\":\"Done\"}\n");
  fclose(g_out);
  _exit(0);
}
