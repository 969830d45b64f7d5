// Shared core of the conformance driver: script reading, event recording, allocation ledger.
#ifndef CORE_H_
#define CORE_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rcutils/allocator.h"

// ---- script line ----
extern int g_argc;               // number of words on the current line
extern char ** g_argv;           // words
int argi(int i);                 // word i as int
long long argll(int i);
const char * args(int i);        // raw word
// hex-coded string argument; "-" is NULL, "." is empty. Result is an exact-size heap block
// (so that ASan sees over-reads); freed at the end of the command.
char * argx(int i);
size_t argxlen(int i);           // length of that byte string
char * argx_noterm(int i, size_t * len);  // exact bytes, no terminator
void * scratch(size_t n);        // block freed at the end of the command (real allocator)

// ---- event emission ----
void ev_begin(const char * op);
void ev_int(const char * k, long long v);
void ev_bool(const char * k, bool v);
void ev_str(const char * k, const char * s);           // as JSON string
void ev_bytes(const char * k, const void * p, size_t n);  // as array of byte codes
void ev_cstr(const char * k, const char * s);          // bytes of C string; NULL -> [-1]
void ev_arr_begin(const char * k);
void ev_arr_int(long long v);
void ev_arr_bytes(const void * p, size_t n);
void ev_arr_cstr(const char * s);
void ev_arr_open(void);
void ev_arr_close(void);
void ev_arr_end(void);
void ev_end(void);               // appends ledger fields and writes the line

// ---- allocation ledger ----
typedef struct ledger_s
{
  long live;        // outstanding blocks obtained through the user allocator
  long bad;         // foreign / repeated releases, wrong state pointer
  long refused;     // refusals during the current command
  long calls;       // allocating calls during the current command
  long raw;         // library calls that bypassed the supplied allocator during the command
} ledger_t;
extern ledger_t g_led;
#define NSEL 4
extern int g_sel;         // which of the objects of one kind the commands act on
rcutils_allocator_t led_allocator(void);   // another one each time
rcutils_allocator_t led_allocator_of(const void * p);
bool led_owns(const void * p);          // p is a live block of the ledger
size_t led_size(const void * p);
void led_forget(void);                   // start a new session: forget every live block
void led_release(void * p);              // release a result through the ledger allocator
extern long g_fail_from;   // refuse the allocation with this 1-based index in the next command; 0 none
extern bool g_fail_sticky; // and all later ones

void op_made(bool made);   // constructors report whether they made an object
rcutils_allocator_t plain_allocator(void);

// ---- stderr/stdout capture ----
void cap_begin(void);
size_t cap_reached(int which);
extern long g_raw_live;
void lib_enter(void);     // count what happens from here as done by the library
void lib_leave(void);
size_t inj_strip(char * b, size_t n);
size_t cap_end(int which, char ** out);  // which: 1 stdout, 2 stderr

typedef void (* op_fn)(void);
typedef struct op_s { const char * name; op_fn fn; } op_t;
extern const op_t g_ops_hm[], g_ops_sm[], g_ops_al[], g_ops_sa[], g_ops_ca[], g_ops_str[],
  g_ops_err[], g_ops_log[], g_ops_fs[], g_ops_time[], g_ops_env[], g_ops_sl[], g_ops_sha[], g_ops_mem[];
void sess_reset_cont(void);
extern char g_scratch_dir[];
#endif
