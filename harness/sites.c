#include "sites.h"
#include "rcutils/logging_macros.h"

#define DUR0 100
#define DUR1 3000000
#define AT(call) a->func = __func__; a->file = __FILE__; a->line = __LINE__; call
#define F(SEV, C, N) static void SEV ## _ ## C ## _ ## N(site_arg_t * a)
#define COPY(S, N, DUR) \
  F(S, plain, N) {AT(RCUTILS_LOG_ ## S(a->fmt, a->s, a->n);)} \
  F(S, once, N) {AT(RCUTILS_LOG_ ## S ## _ONCE(a->fmt, a->s, a->n);)} \
  F(S, expr, N) {AT(RCUTILS_LOG_ ## S ## _EXPRESSION(site_expr(), a->fmt, a->s, a->n);)} \
  F(S, func, N) {AT(RCUTILS_LOG_ ## S ## _FUNCTION(&site_filter, a->fmt, a->s, a->n);)} \
  F(S, skip, N) {AT(RCUTILS_LOG_ ## S ## _SKIPFIRST(a->fmt, a->s, a->n);)} \
  F(S, thr, N) {AT(RCUTILS_LOG_ ## S ## _THROTTLE(site_time, DUR, a->fmt, a->s, a->n);)} \
  F(S, skthr, N) {AT(RCUTILS_LOG_ ## S ## _SKIPFIRST_THROTTLE(site_time, DUR, a->fmt, a->s, a->n);)} \
  F(S, plainn, N) {AT(RCUTILS_LOG_ ## S ## _NAMED(a->name, a->fmt, a->s, a->n);)} \
  F(S, oncen, N) {AT(RCUTILS_LOG_ ## S ## _ONCE_NAMED(a->name, a->fmt, a->s, a->n);)} \
  F(S, exprn, N) {AT(RCUTILS_LOG_ ## S ## _EXPRESSION_NAMED(site_expr(), a->name, a->fmt, a->s, a->n);)} \
  F(S, funcn, N) {AT(RCUTILS_LOG_ ## S ## _FUNCTION_NAMED(&site_filter, a->name, a->fmt, a->s, a->n);)} \
  F(S, skipn, N) {AT(RCUTILS_LOG_ ## S ## _SKIPFIRST_NAMED(a->name, a->fmt, a->s, a->n);)} \
  F(S, thrn, N) {AT(RCUTILS_LOG_ ## S ## _THROTTLE_NAMED(site_time, DUR, a->name, a->fmt, a->s, a->n);)} \
  F(S, skthrn, N) {AT(RCUTILS_LOG_ ## S ## _SKIPFIRST_THROTTLE_NAMED(site_time, DUR, a->name, a->fmt, a->s, a->n);)}
#define SEVERITY(S) COPY(S, 0, DUR0) COPY(S, 1, DUR1)
SEVERITY(DEBUG)
SEVERITY(INFO)
SEVERITY(WARN)
SEVERITY(ERROR)
SEVERITY(FATAL)

#define P(S, C) {{S ## _ ## C ## _0, S ## _ ## C ## _1}, {S ## _ ## C ## n_0, S ## _ ## C ## n_1}}
#define T(S) {P(S, plain), P(S, once), P(S, expr), P(S, func), P(S, skip), P(S, thr), P(S, skthr)}
const site_fn_t g_sites[5][7][2][2] = {T(DEBUG), T(INFO), T(WARN), T(ERROR), T(FATAL)};
const int g_site_ms[2] = {DUR0, DUR1};
