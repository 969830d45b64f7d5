// The atomic helpers, compiled like the library: each access is a scheduling point.
#include "conc.h"
#include "rcutils/stdatomic_helper.h"
static atomic_bool g_b;
static atomic_int_least64_t g_i;
static atomic_uint_least64_t g_u;
static atomic_uintptr_t g_p;
void cells_setup(const cmd_t * c)
{
  long long v = ci(c, 1);
  rcutils_atomic_store(&g_b, v != 0);
  rcutils_atomic_store(&g_i, v);
  rcutils_atomic_store(&g_u, (uint64_t)v);
  rcutils_atomic_store(&g_p, (uintptr_t)v);
  bput(&g_setup, ",\"v\":");
  blimbs(&g_setup, v);
}
// TYPE F A B : load, store A, exchange A, compare-exchange A with B, add A
static void at_call(th_t * x, const cmd_t * c)
{
  bput(&x->call, ",\"ty\":\"%s\",\"f\":\"%s\",\"a\":", c->w[1], c->w[2]);
  blimbs(&x->call, ci(c, 3));
  bput(&x->call, ",\"b\":");
  blimbs(&x->call, ci(c, 4));
}
static void at_run(th_t * x, const cmd_t * c)
{
  char f = c->w[2][0], t = c->w[1][0];
  long long a = ci(c, 3), b = ci(c, 4), r = 0, seen = 0;
  if (t == 'b') {
    switch (f) {
      case 'l': r = rcutils_atomic_load_bool(&g_b); break;
      case 's': rcutils_atomic_store(&g_b, a != 0); break;
      case 'x': r = rcutils_atomic_exchange_bool(&g_b, a != 0); break;
      default: {bool e = a != 0, ok; rcutils_atomic_compare_exchange_strong(&g_b, ok, &e, b != 0); r = ok; seen = e;}
    }
  } else if (t == 'i') {
    switch (f) {
      case 'l': r = rcutils_atomic_load_int64_t(&g_i); break;
      case 's': rcutils_atomic_store(&g_i, a); break;
      case 'x': r = rcutils_atomic_exchange_int64_t(&g_i, a); break;
      case 'c': {int_least64_t e = a; bool ok; rcutils_atomic_compare_exchange_strong(&g_i, ok, &e, b); r = ok; seen = e; break;}
      default: {int64_t o; rcutils_atomic_fetch_add(&g_i, o, a); r = o;}
    }
  } else if (t == 'u') {
    switch (f) {
      case 'l': r = (long long)rcutils_atomic_load_uint64_t(&g_u); break;
      case 's': rcutils_atomic_store(&g_u, (uint64_t)a); break;
      case 'x': r = (long long)rcutils_atomic_exchange_uint64_t(&g_u, (uint64_t)a); break;
      case 'c': {uint64_t e = (uint64_t)a; r = rcutils_atomic_compare_exchange_strong_uint_least64_t(&g_u, &e, (uint64_t)b); seen = (long long)e; break;}
      default: r = (long long)rcutils_atomic_fetch_add_uint64_t(&g_u, (uint64_t)a);
    }
  } else {
    switch (f) {
      case 'l': r = (long long)rcutils_atomic_load_uintptr_t(&g_p); break;
      case 's': rcutils_atomic_store(&g_p, (uintptr_t)a); break;
      case 'x': r = (long long)rcutils_atomic_exchange_uintptr_t(&g_p, (uintptr_t)a); break;
      case 'c': {uintptr_t e = (uintptr_t)a; bool ok; rcutils_atomic_compare_exchange_strong(&g_p, ok, &e, (uintptr_t)b); r = ok; seen = (long long)e; break;}
      default: {uintptr_t o; rcutils_atomic_fetch_add(&g_p, o, (uintptr_t)a); r = (long long)o;}
    }
  }
  bput(&x->ret, ",\"v\":");
  blimbs(&x->ret, r);
  bput(&x->ret, ",\"seen\":");
  blimbs(&x->ret, seen);
}
const cop_t g_cops_at[] = {{"at", at_call, at_run}, {0, 0, 0}};
