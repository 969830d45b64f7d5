// File system queries, directory sizes and listings, path building. Everything happens below a
// directory of the session's own; what the program itself puts there is done directly.
#include "core.h"
#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"

DIR * __real_opendir(const char *);
struct dirent * __real_readdir(DIR *);
int __real_closedir(DIR *);
int __real_mkdir(const char *, mode_t);
int __real_setenv(const char *, const char *, int);
int __real_unsetenv(const char *);

void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void __real_free(void *);

static char g_root[PATH_MAX];      // empty: no session directory
static unsigned g_order;           // 0: as the system lists; otherwise a permutation
static bool g_nodots;              // the system lists neither . nor ..
static int g_failopen, g_failread; // the k-th opening / first read is refused during the next command
static int g_opens, g_refusals;

// ---- what the library sees of the system: the order of entries and failures are the script's choice
typedef struct listing_s {DIR * d; struct dirent * e; size_t n, i; bool fail; struct dirent * cur; struct listing_s * next;} listing_t;
static listing_t * g_listings;
static listing_t * listing(DIR * d)
{
  for (listing_t * l = g_listings; l; l = l->next) {if (l->d == d) {return l;}}
  return NULL;
}
static int by_name(const void * a, const void * b)
{
  return strcmp(((const struct dirent *)a)->d_name, ((const struct dirent *)b)->d_name);
}
DIR * __wrap_opendir(const char * p)
{
  g_opens++;
  if (g_failopen == g_opens) {g_refusals++; errno = EMFILE; return NULL;}
  DIR * d = __real_opendir(p);
  if (!d || !g_root[0]) {return d;}
  listing_t * l = __real_calloc(1, sizeof *l);
  struct dirent * e;
  while ((e = __real_readdir(d))) {
    bool dot = !strcmp(e->d_name, ".") || !strcmp(e->d_name, "..");
    if (dot && g_nodots) {continue;}
    l->e = __real_realloc(l->e, (l->n + 1) * sizeof *l->e);
    memcpy(&l->e[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
  }
  if (g_order) {
    qsort(l->e, l->n, sizeof *l->e, by_name);
    unsigned x = g_order * 2654435761u + (unsigned)g_opens * 40503u;
    for (size_t i = l->n; i > 1; i--) {
      x = x * 1664525u + 1013904223u;
      size_t j = (x >> 8) % i;
      struct dirent t = l->e[i - 1]; l->e[i - 1] = l->e[j]; l->e[j] = t;
    }
  }
  l->fail = g_failread == g_opens;
  l->d = d; l->next = g_listings; g_listings = l;
  return d;
}
struct dirent * __wrap_readdir(DIR * d)
{
  listing_t * l = listing(d);
  if (!l) {return __real_readdir(d);}
  if (l->fail) {l->fail = false; g_refusals++; errno = EIO; return NULL;}
  // what an earlier call returned is gone
  __real_free(l->cur);
  l->cur = NULL;
  if (l->i == l->n) {return NULL;}
  l->cur = __real_malloc(sizeof *l->cur);
  return memcpy(l->cur, &l->e[l->i++], sizeof *l->cur);
}
int __wrap_closedir(DIR * d)
{
  for (listing_t ** q = &g_listings; *q; q = &(*q)->next) {
    if ((*q)->d == d) {
      listing_t * l = *q;
      *q = l->next;
      __real_free(l->cur); __real_free(l->e); __real_free(l);
      break;
    }
  }
  return __real_closedir(d);
}
// nothing may be made outside the session's directory
int __wrap_mkdir(const char * p, mode_t m)
{
  size_t n = strlen(g_root);
  if (p && p[0] == '/' && !(n && !strncmp(p, g_root, n) && (p[n] == '/' || !p[n]))) {errno = EACCES; return -1;}
  return __real_mkdir(p, m);
}

// ---- the state of the session's directory
static char * g_seen;              // the last snapshot that was reported
typedef struct ent_s {char * path; int kind; unsigned mode; long long size; int abs; char * target;} ent_t;
static ent_t * g_ents;
static size_t g_nents, g_cents;
static void ents_free(void)
{
  for (size_t i = 0; i < g_nents; i++) {free(g_ents[i].path); free(g_ents[i].target);}
  g_nents = 0;
}
static void walk(const char * dir, size_t skip)
{
  DIR * d = __real_opendir(dir);
  if (!d) {return;}
  struct dirent * e;
  while ((e = __real_readdir(d))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {continue;}
    size_t n = strlen(dir) + strlen(e->d_name) + 2;
    char * p = malloc(n);
    snprintf(p, n, "%s/%s", dir, e->d_name);
    struct stat s;
    if (lstat(p, &s)) {free(p); continue;}
    if (g_nents == g_cents) {g_cents = g_cents * 2 + 64; g_ents = realloc(g_ents, g_cents * sizeof *g_ents);}
    ent_t * t = &g_ents[g_nents++];
    memset(t, 0, sizeof *t);
    t->path = strdup(p + skip + 1);
    t->mode = s.st_mode & 0777;
    if (S_ISDIR(s.st_mode)) {t->kind = 1;}
    else if (S_ISREG(s.st_mode)) {t->kind = 2; t->size = s.st_size;}
    else if (S_ISLNK(s.st_mode)) {
      t->kind = 3; t->mode = 0;
      char b[PATH_MAX];
      ssize_t k = readlink(p, b, sizeof b - 1);
      b[k < 0 ? 0 : k] = 0;
      size_t rl = strlen(g_root);
      t->abs = !strncmp(b, g_root, rl);
      t->target = strdup(t->abs ? b + rl : b);
    } else {t->kind = 4;}
    bool sub = t->kind == 1;
    if (sub) {walk(p, skip);}
    free(p);
  }
  __real_closedir(d);
}
static int ent_cmp(const void * a, const void * b) {return strcmp(((const ent_t *)a)->path, ((const ent_t *)b)->path);}
static char * snapshot(void)
{
  ents_free();
  if (g_root[0]) {walk(g_root, strlen(g_root));}
  qsort(g_ents, g_nents, sizeof *g_ents, ent_cmp);
  size_t n = 1;
  for (size_t i = 0; i < g_nents; i++) {n += strlen(g_ents[i].path) + 80 + (g_ents[i].target ? strlen(g_ents[i].target) : 0);}
  char * r = malloc(n), * p = r;
  *p = 0;
  for (size_t i = 0; i < g_nents; i++) {
    ent_t * t = &g_ents[i];
    p += sprintf(p, "%s\n%d %o %lld %d %s\n", t->path, t->kind, t->mode, t->size, t->abs, t->target ? t->target : "");
  }
  return r;
}
static void comps(const char * p)
{
  ev_arr_open();
  while (*p) {
    size_t n = strcspn(p, "/");
    if (n) {ev_arr_bytes(p, n);}
    p += n + (p[n] == '/');
  }
  ev_arr_close();
}
static int fds(void)
{
  int n = 0;
  DIR * d = __real_opendir("/proc/self/fd");
  if (!d) {return -1;}
  while (__real_readdir(d)) {n++;}
  __real_closedir(d);
  return n;
}
static int g_fds0;
static void obs(void)
{
  char * s = snapshot();
  bool chg = !g_seen || strcmp(s, g_seen);
  ev_bool("chg", chg);
  if (chg) {
    ev_arr_begin("tree");
    for (size_t i = 0; i < g_nents; i++) {
      ent_t * t = &g_ents[i];
      char b[32];
      int k = snprintf(b, sizeof b, "%lld", t->size);
      ev_arr_open();
      comps(t->path); ev_arr_int(t->kind); ev_arr_int(t->mode); ev_arr_bytes(b, (size_t)k); ev_arr_int(t->abs);
      ev_arr_cstr(t->target ? t->target : "");
      ev_arr_close();
    }
    ev_arr_end();
  }
  free(g_seen);
  g_seen = s;
  ev_int("fds", fds() - g_fds0);
  ev_int("sysref", g_refusals);
  ev_end();
  g_failopen = g_failread = 0;
}
static void wipe(const char * dir)   // never follows a link, never leaves the session's directory
{
  chmod(dir, 0700);
  DIR * d = __real_opendir(dir);
  if (d) {
    struct dirent * e;
    while ((e = __real_readdir(d))) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {continue;}
      size_t n = strlen(dir) + strlen(e->d_name) + 2;
      char * p = malloc(n);
      snprintf(p, n, "%s/%s", dir, e->d_name);
      struct stat s;
      if (!lstat(p, &s)) {if (S_ISDIR(s.st_mode)) {wipe(p);} else {unlink(p);}}
      free(p);
    }
    __real_closedir(d);
  }
  rmdir(dir);
}
#define NI 4
static rcutils_dir_iter_t * g_it[NI];
void fs_reset(void)
{
  for (int i = 0; i < NI; i++) {g_it[i] = NULL;}
  while (g_listings) {__wrap_closedir(g_listings->d);}
  if (g_root[0]) {
    if (chdir("/")) {_exit(5);}
    wipe(g_root);
    g_root[0] = 0;
  }
  g_order = 0; g_nodots = false; g_failopen = g_failread = 0;
  free(g_seen); g_seen = NULL;
}
static void f_new(void)
{
  lib_leave();
  if (g_root[0]) {fs_reset();}
  char t[PATH_MAX];
  snprintf(t, sizeof t, "%s/fsXXXXXX", g_scratch_dir);
  if (!mkdtemp(t) || !realpath(t, g_root) || chdir(g_root)) {_exit(5);}
  umask(022);
  g_fds0 = fds();
  ev_begin("FsNew");
  ev_cstr("root", g_root);
  obs();
}
// PATH relative to the session's directory
static char * at(int i)
{
  lib_leave();
  char * p = argx(i), * b = scratch(strlen(g_root) + strlen(p) + 2);
  sprintf(b, "%s/%s", g_root, p);
  return b;
}
static void done(const char * op, int bad, int i)
{
  int why = errno;
  if (bad && why != EEXIST && why != ENOENT && why != ENOTDIR) {
    fprintf(stderr, "driver: %s %s: %s\n", op, argx(i), strerror(why));
    _exit(5);
  }
  // the directory is not as the calls before have reported it: nothing allows this event
  ev_begin(bad ? "FsFailed" : op);
}
static void f_put(void)   // KIND PATH MODE SIZE
{
  char * p = at(2);
  int k = argi(1), bad = 0;
  unsigned mode = (unsigned)argi(3);
  if (k == 1) {bad = __real_mkdir(p, 0755);}
  else if (k == 2) {
    int fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0600);
    bad = fd < 0 || ftruncate(fd, argll(4));
    close(fd);
  } else {bad = mkfifo(p, 0600);}
  if (!bad) {bad = chmod(p, (mode_t)mode);}
  done("FsPut", bad, 2);
  obs();
}
static void f_fill(void)   // PATH N SIZE : files e0 .. e<N-1> in PATH, the i-th of SIZE + i bytes, every seventh a directory
{
  char * p = at(1);
  int bad = 0;
  for (int i = 0; i < argi(2); i++) {
    char b[PATH_MAX + 32];
    snprintf(b, sizeof b, "%s/e%d", p, i);
    if (i % 7 == 6) {bad |= __real_mkdir(b, 0755); continue;}
    int fd = open(b, O_CREAT | O_EXCL | O_WRONLY, 0644);
    bad |= fd < 0 || ftruncate(fd, argll(3) + i);
    close(fd);
  }
  done("FsPut", bad, 1);
  obs();
}
static void f_chain(void)  // N SIZE : N directories, each in the one before, with a file in each
{
  char b[PATH_MAX];
  size_t n = (size_t)snprintf(b, sizeof b, "%s", g_root);
  int bad = 0;
  for (int i = 0; i < argi(1); i++) {
    n += (size_t)snprintf(b + n, sizeof b - n, "/%c", 'a' + i % 26);
    bad |= __real_mkdir(b, 0755);
    snprintf(b + n, sizeof b - n, "/0");
    int fd = open(b, O_CREAT | O_EXCL | O_WRONLY, 0644);
    bad |= fd < 0 || ftruncate(fd, argll(2) + i);
    close(fd);
    b[n] = 0;
  }
  done("FsPut", bad, 1);
  obs();
}
static void f_sym(void)   // PATH ABS TARGET
{
  char * p = at(1), * t = argi(2) ? at(3) : argx(3);
  done("FsSym", symlink(t, p), 1);
  obs();
}
static void f_rm(void)
{
  char * p = at(1);
  struct stat s;
  done("FsRm", lstat(p, &s) || (S_ISDIR(s.st_mode) ? rmdir(p) : unlink(p)), 1);
  obs();
}
static void f_chmod(void) {char * p = at(1); done("FsChmod", chmod(p, (mode_t)argi(2)), 1); obs();}
static void f_cd(void)
{
  char * p = at(1);
  done("FsCd", chdir(p), 1);
  ev_arr_begin("at");
  char * q = argx(1);
  while (*q) {size_t n = strcspn(q, "/"); if (n) {ev_arr_bytes(q, n);} q += n + (q[n] == '/');}
  ev_arr_end();
  obs();
}
static void f_home(void)
{
  lib_leave();
  char * v = argx(1);
  if (v) {__real_setenv("HOME", v, 1);} else {__real_unsetenv("HOME");}
  ev_begin("FsHome");
  ev_cstr("v", v);
  obs();
}
static void f_order(void) {g_order = (unsigned)argi(1); g_nodots = argi(2) != 0;}
static void f_fail(void) {g_failopen = argi(1); g_failread = argi(2);}
// a path given to the library: ABS 0 as it is, 1 below the session's directory, 2 NULL
static char * path(int i)
{
  g_opens = g_refusals = 0;
  if (argi(i) == 2) {return NULL;}
  char * p = argx(i + 1);
  if (argi(i) == 0) {
    if (p[0] == '/') {fprintf(stderr, "driver: path outside of the session's directory\n"); exit(3);}
    return p;
  }
  char * b = scratch(strlen(g_root) + strlen(p) + 1);
  return strcat(strcpy(b, g_root), p);
}
static void ev_path(int i)
{
  rcutils_reset_error();
  ev_int("abs", argi(i)); ev_cstr("p", argi(i) == 2 ? NULL : argx(i + 1)); ev_int("rl", (long long)strlen(g_root));
}
static void f_q(void)
{
  char * p = path(1);
  bool ex = rcutils_exists(p), di = rcutils_is_directory(p), fi = rcutils_is_file(p), r = rcutils_is_readable(p),
    w = rcutils_is_writable(p), rw = rcutils_is_readable_and_writable(p);
  size_t n = p ? rcutils_get_file_size(p) : 0;
  ev_begin("FsQ");
  ev_path(1);
  char b[32];
  int k = snprintf(b, sizeof b, "%zu", n);
  ev_bool("ex", ex); ev_bool("di", di); ev_bool("fi", fi); ev_bool("r", r); ev_bool("w", w); ev_bool("rw", rw);
  ev_bytes("size", b, (size_t)k);
  obs();
}
static void f_mkdir(void)
{
  char * p = path(1);
  // what errno says beforehand is not the call's business
  errno = argi(3) ? EEXIST : 0;
  bool r = rcutils_mkdir(p);
  ev_begin("FsMkdir");
  ev_path(1);
  ev_bool("ret", r);
  obs();
}
static void f_size(void)   // ABS PATH DEPTH HOW : HOW 0 with recursion, 1 without, 2 no result, 3 invalid allocator
{
  char * p = path(1);
  int how = argi(4);
  uint64_t size = 77;
  rcutils_allocator_t a = led_allocator();
  if (how == 3) {a = rcutils_get_zero_initialized_allocator();}
  rcutils_ret_t r = how == 1 ? rcutils_calculate_directory_size(p, &size, a) :
    rcutils_calculate_directory_size_with_recursion(p, (size_t)argll(3), how == 2 ? NULL : &size, a);
  ev_begin("FsSize");
  ev_path(1);
  char b[32];
  int k = snprintf(b, sizeof b, "%llu", (unsigned long long)size);
  long long d = how == 1 ? 1 : argll(3);
  ev_int("depth", d < 0 ? 2147483646 : d); ev_int("how", how); ev_int("ret", r); ev_bytes("size", b, (size_t)k);
  obs();
}
static void f_iter(void)   // H ABS PATH HOW
{
  int h = argi(1);
  char * p = path(2);
  if (g_it[h]) {lib_leave(); return;}
  rcutils_allocator_t a = argi(4) == 3 ? rcutils_get_zero_initialized_allocator() : led_allocator();
  g_it[h] = rcutils_dir_iter_start(p, a);
  op_made(g_it[h] != NULL);
  ev_begin("FsIter");
  ev_int("h", h);
  ev_path(2);
  ev_int("how", argi(4)); ev_bool("ret", g_it[h] != NULL); ev_cstr("name", g_it[h] ? g_it[h]->entry_name : NULL);
  obs();
}
static void f_next(void)
{
  int h = argi(1);
  g_opens = g_refusals = 0;
  bool r = rcutils_dir_iter_next(g_it[h]);
  ev_begin("FsNext");
  rcutils_reset_error();
  ev_int("h", h); ev_bool("ret", r); ev_cstr("name", g_it[h] ? g_it[h]->entry_name : NULL);
  obs();
}
static void f_end(void)
{
  int h = argi(1);
  g_opens = g_refusals = 0;
  rcutils_dir_iter_end(g_it[h]);
  g_it[h] = NULL;
  ev_begin("FsEnd");
  rcutils_reset_error();
  ev_int("h", h);
  obs();
}
static void ret_str(char * s)
{
  ev_cstr("ret", s);
  if (s) {led_release(s);}
  rcutils_reset_error();
  obs();
}
static void f_join(void)
{
  g_refusals = 0;
  char * l = argx(1), * r = argx(2);
  char * s = rcutils_join_path(l, r, led_allocator());
  ev_begin("FsJoin");
  ev_cstr("l", l); ev_cstr("r", r);
  ret_str(s);
}
static void f_native(void)
{
  g_refusals = 0;
  char * l = argx(1);
  char * s = rcutils_to_native_path(l, led_allocator());
  ev_begin("FsNative");
  ev_cstr("p", l);
  ret_str(s);
}
static void f_expand(void)
{
  g_refusals = 0;
  char * l = argx(1);
  char * s = rcutils_expand_user(l, led_allocator());
  ev_begin("FsExpand");
  ev_cstr("p", l);
  ret_str(s);
}
static void f_cwd(void)   // N : a buffer of exactly N bytes (-1: NULL); N counted from the length needed if HOW
{
  g_refusals = 0;
  char now[PATH_MAX];
  if (!getcwd(now, sizeof now)) {_exit(5);}
  long n = argi(2) ? (long)strlen(now) + 1 + argi(1) : argi(1);
  char * b = n < 0 ? NULL : scratch((size_t)n);
  bool r = rcutils_get_cwd(b, n < 0 ? 10 : (size_t)n);
  ev_begin("FsCwd");
  ev_int("n", n); ev_bool("ret", r); ev_cstr("dir", r ? b : NULL); ev_cstr("root", g_root);
  obs();
}
const op_t g_ops_fs[] = {
  {"fs_new", f_new}, {"fs_put", f_put}, {"fs_fill", f_fill}, {"fs_chain", f_chain}, {"fs_sym", f_sym}, {"fs_rm", f_rm}, {"fs_chmod", f_chmod}, {"fs_cd", f_cd},
  {"fs_home", f_home}, {"fs_order", f_order}, {"fs_fail", f_fail}, {"fs_q", f_q}, {"fs_mkdir", f_mkdir}, {"fs_size", f_size},
  {"fs_iter", f_iter}, {"fs_next", f_next}, {"fs_end", f_end}, {"fs_join", f_join}, {"fs_native", f_native},
  {"fs_expand", f_expand}, {"fs_cwd", f_cwd}, {0, 0}};
