// Concurrency harness: threads of the real code under a scheduler of our own (or free running).
#ifndef CONC_H_
#define CONC_H_
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXT 4
typedef struct buf_s {char * p; size_t n, cap;} buf_t;
void bput(buf_t * b, const char * fmt, ...);
void bbytes(buf_t * b, const void * p, size_t n);   // [1,2,3]
void bcstr(buf_t * b, const char * s);              // [-1] for NULL
void blimbs(buf_t * b, int64_t v);                  // v = (a*10^6+b)*10^6+c as [a,b,c]
typedef struct cmd_s {int n; char * w[16];} cmd_t;
char * cx(const cmd_t * c, int i);                  // hex word as a string ("-" NULL, "." empty); static storage per command
long long ci(const cmd_t * c, int i);
typedef struct th_s
{
  int id;
  buf_t call, ret;          // JSON fields of the operation
  void * obj[12];           // objects of this thread
  int64_t now;              // what the clocks say to this thread
  buf_t dl;                 // messages delivered to the program's handler by this thread
} th_t;
extern __thread th_t * t_me;
typedef void (* cop_fn)(th_t *, const cmd_t *);
typedef struct {const char * name; cop_fn call, run;} cop_t;   // call: fields known beforehand
extern const cop_t g_cops[], g_cops_at[];
void ops_thread_end(th_t *);
extern buf_t g_setup;       // JSON of the set-up
void ops_setup(const cmd_t *);   // before each execution
void ops_teardown(void);
void sched_point(void);
void sched_lib(bool in);
#endif
