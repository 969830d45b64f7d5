// Call sites of every logging macro, in a library of their own so that their static state can be
// had afresh and so that they can be compiled for every minimum severity.
#ifndef SITES_H_
#define SITES_H_
#include <stdbool.h>
#include "rcutils/time.h"
typedef struct site_arg_s
{
  const char * name, * fmt, * s;
  int n;
  const char * func, * file;   // where the site is
  int line;
} site_arg_t;
typedef void (* site_fn_t)(site_arg_t *);
#ifdef __cplusplus
extern "C" {
#endif
bool site_expr(void);
bool site_filter(void);
rcutils_ret_t site_time(rcutils_time_point_value_t *);
// [severity][condition][named][copy]
extern const site_fn_t g_sites[5][7][2][2];
extern const int g_site_ms[2];
#ifdef __cplusplus
}
#endif
#endif
