// Error state operations, each run on one of a few worker threads (0..3).
#include "core.h"
#include <inttypes.h>
#include <pthread.h>
#include "rcutils/error_handling.h"
#include "rcutils/allocator.h"
#include "rcutils/snprintf.h"

#define NT 4
typedef struct worker_s
{
  pthread_t th;
  bool alive, quit;
  void (* job)(void *);
  void * arg;
  pthread_mutex_t m;
  pthread_cond_t c;
} worker_t;
static worker_t g_w[NT];
static void * loop(void * p)
{
  worker_t * w = p;
  pthread_mutex_lock(&w->m);
  while (1) {
    while (!w->job && !w->quit) {pthread_cond_wait(&w->c, &w->m);}
    if (w->quit) {break;}
    w->job(w->arg);
    w->job = NULL;
    pthread_cond_broadcast(&w->c);
  }
  pthread_mutex_unlock(&w->m);
  return NULL;
}
static void start(int t)
{
  worker_t * w = &g_w[t];
  memset(w, 0, sizeof *w);
  pthread_mutex_init(&w->m, NULL);
  pthread_cond_init(&w->c, NULL);
  w->alive = true;
  if (pthread_create(&w->th, NULL, loop, w) != 0) {_exit(5);}
}
static void stop(int t)
{
  worker_t * w = &g_w[t];
  if (!w->alive) {return;}
  pthread_mutex_lock(&w->m);
  w->quit = true;
  pthread_cond_broadcast(&w->c);
  pthread_mutex_unlock(&w->m);
  pthread_join(w->th, NULL);
  w->alive = false;
}
static void on(int t, void (* f)(void *), void * arg)
{
  worker_t * w = &g_w[t];
  if (!w->alive) {start(t);}
  pthread_mutex_lock(&w->m);
  w->arg = arg;
  w->job = f;
  pthread_cond_broadcast(&w->c);
  while (w->job) {pthread_cond_wait(&w->c, &w->m);}
  pthread_mutex_unlock(&w->m);
}
// the error state of the calling thread, without formatting the error string
static void obs(void)
{
  ev_bool("isset", rcutils_error_is_set());
  const rcutils_error_state_t * s = rcutils_get_error_state();
  if (!s) {ev_cstr("m", NULL); ev_cstr("f", NULL); ev_cstr("ln", NULL); return;}
  ev_bytes("m", s->message, strnlen(s->message, sizeof s->message));
  ev_bytes("f", s->file, strnlen(s->file, sizeof s->file));
  ev_bool("term", memchr(s->message, 0, sizeof s->message) && memchr(s->file, 0, sizeof s->file));
  char t[32];
  snprintf(t, sizeof t, "%" PRIu64, s->line_number);
  ev_cstr("ln", t);
}
// what the call wrote on standard error; [-1] when that is not observed (er_cap)
static bool g_cap;
static char * g_err;
static size_t g_nerr;
static void before(void) {if (g_cap) {cap_begin();}}
static void after(void) {if (g_cap) {g_nerr = cap_end(2, &g_err);}}
static void ev_err(void) {if (g_cap) {ev_bytes("err", g_err, g_nerr);} else {ev_cstr("err", NULL);}}
static void er_cap(void) {g_cap = argi(1) != 0;}

typedef struct call_s {int t; char * a, * b; uint64_t line; int mode; int num;} call_t;
static void fin(call_t * c) {ev_int("t", c->t); obs(); ev_err(); ev_end();}
static void evline(const char * k, uint64_t v) {char t[32]; snprintf(t, sizeof t, "%" PRIu64, v); ev_cstr(k, t);}

static void j_set(void * p)
{
  call_t * c = p;
  before();
  rcutils_set_error_state(c->a, c->b, c->line);
  after();
  ev_begin("ErSet");
  ev_cstr("msg", c->a); ev_cstr("file", c->b); evline("line", c->line);
  fin(c);
}
static void er_set(void)   // T MSG FILE LINE
{
  call_t c = {argi(1), argx(2), argx(3), strtoull(args(4), NULL, 10)};
  on(c.t, j_set, &c);
}
// the current message (and file) of the thread set again: arguments that alias the error state
static void j_self(void * p)
{
  call_t * c = p;
  const rcutils_error_state_t * s = rcutils_get_error_state();
  before();
  rcutils_set_error_state(s->message, s->file, c->line);
  after();
  ev_begin("ErSelf"); evline("line", c->line);
  fin(c);
}
static void er_self(void) {call_t c = {argi(1), NULL, NULL, strtoull(args(2), NULL, 10)}; on(c.t, j_self, &c);}
// the setting macros; mode 0 plain, 1 format, 2 append to previous, 3 format and append
#define AT(expr) do {line = __LINE__; expr;} while (0)
static void j_mac(void * p)
{
  call_t * c = p;
  uint64_t line = 0;
  before();
  if (c->mode == 0) {AT(RCUTILS_SET_ERROR_MSG(c->a));}
  else if (c->mode == 1) {AT(RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s|%d", c->a, c->num));}
  else if (c->mode == 2) {AT(RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("head"));}
  else {
    AT(RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s|%d", c->a, c->num));
  }
  after();
  ev_begin("ErMacro");
  ev_int("mode", c->mode); ev_cstr("msg", c->a); ev_int("num", c->num);
  ev_cstr("file", __FILE__); evline("line", line);
  fin(c);
}
static void er_macro(void)  // T MODE MSG NUM
{
  call_t c = {argi(1), argx(3), NULL, 0, argi(2), argi(4)};
  on(c.t, j_mac, &c);
}
// the argument checking macros; kind 0 argument, 1 value with message, 2 allocator, 3 allocator with message
#define CHK(n, expr) do {g_chk_line = __LINE__; expr;} while (0)
static int g_chk_line;
static rcutils_ret_t check(int kind, const char * x, const rcutils_allocator_t * a)
{
  switch (kind) {
    case 0: CHK(0, RCUTILS_CHECK_ARGUMENT_FOR_NULL(x, RCUTILS_RET_INVALID_ARGUMENT)); break;
    case 1: CHK(1, RCUTILS_CHECK_FOR_NULL_WITH_MSG(x, "nothing there", return RCUTILS_RET_ERROR)); break;
    case 2: CHK(2, RCUTILS_CHECK_ALLOCATOR(a, return RCUTILS_RET_BAD_ALLOC)); break;
    default: CHK(3, RCUTILS_CHECK_ALLOCATOR_WITH_MSG(a, "bad allocator", return RCUTILS_RET_ERROR)); break;
  }
  return RCUTILS_RET_OK;
}
static void j_chk(void * p)
{
  call_t * c = p;
  rcutils_allocator_t a = led_allocator();
  if (!c->a) {a.reallocate = NULL;}
  before();
  rcutils_ret_t r = check(c->mode, c->a, c->num && !c->a ? NULL : &a);
  after();
  ev_begin("ErCheck");
  ev_int("kind", c->mode);
  ev_bool("given", c->a != NULL); ev_int("ret", r);
  ev_cstr("file", __FILE__); evline("line", (uint64_t)g_chk_line);
  fin(c);
}
static void er_check(void)   // T STR [KIND [NULLALLOC]]
{
  call_t c = {argi(1), argx(2), NULL, 0, g_argc > 3 ? argi(3) : 0, g_argc > 4 ? argi(4) : 0};
  on(c.t, j_chk, &c);
}
// the macros which write on standard error; mode 0 plain, 1 format, 2 and previous error, 3 both
static void j_fw(void * p)
{
  call_t * c = p;
  cap_begin();
  if (c->mode == 0) {RCUTILS_SAFE_FWRITE_TO_STDERR(c->a);}
  else if (c->mode == 1) {RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("%s|%d", c->a, c->num);}
  else if (c->mode == 2) {RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(c->a);}
  else {RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s|%d", c->a, c->num);}
  char * o;
  size_t n = cap_end(2, &o);
  ev_begin("ErFw");
  ev_int("mode", c->mode); ev_cstr("msg", c->a); ev_int("num", c->num);
  ev_bytes("text", o, n);
  g_nerr = 0;
  fin(c);
}
static void er_fw(void) {call_t c = {argi(1), argx(3), NULL, 0, argi(2), argi(4)}; on(c.t, j_fw, &c);}  // T MODE MSG NUM
static void j_reset(void * p)
{
  call_t * c = p;
  before();
  rcutils_reset_error();
  after();
  ev_begin("ErReset");
  fin(c);
}
static void er_reset(void) {call_t c = {argi(1)}; on(c.t, j_reset, &c);}
static void j_read(void * p)
{
  call_t * c = p;
  before();
  rcutils_error_string_t s = rcutils_get_error_string();
  rcutils_error_string_t s2 = rcutils_get_error_string();
  after();
  ev_begin("ErRead");
  ev_bytes("str", s.str, strnlen(s.str, sizeof s.str));
  ev_bool("same", 0 == strncmp(s.str, s2.str, sizeof s.str));
  ev_bool("sterm", memchr(s.str, 0, sizeof s.str) != NULL);
  fin(c);
}
static void er_read(void) {call_t c = {argi(1)}; on(c.t, j_read, &c);}
static void j_init(void * p)
{
  call_t * c = p;
  rcutils_allocator_t a = led_allocator();
  if (!c->mode) {a = rcutils_get_zero_initialized_allocator();}
  before();
  rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(a);
  after();
  ev_begin("ErInit");
  ev_bool("valid", c->mode != 0); ev_int("ret", r);
  fin(c);
}
static void er_init(void) {call_t c = {argi(1), NULL, NULL, 0, argi(2)}; on(c.t, j_init, &c);}  // T VALID
static void j_look(void * p) {call_t * c = p; g_nerr = 0; ev_begin("ErLook"); fin(c);}
static void er_look(void) {call_t c = {argi(1)}; on(c.t, j_look, &c);}
static void er_exit(void)   // the thread ends; a later call with this number runs on a new thread
{
  int t = argi(1);
  stop(t);
  ev_begin("ErExit");
  ev_int("t", t);
  ev_end();
}
void err_reset(void) {g_cap = false; for (int t = 0; t < NT; t++) {stop(t);}}
const op_t g_ops_err[] = {
  {"er_set", er_set}, {"er_self", er_self}, {"er_macro", er_macro}, {"er_check", er_check},
  {"er_reset", er_reset}, {"er_read", er_read}, {"er_init", er_init}, {"er_look", er_look},
  {"er_exit", er_exit}, {"er_cap", er_cap}, {"er_fw", er_fw}, {0, 0}};
