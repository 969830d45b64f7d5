// SHA-256 contexts.
#include "core.h"
#include "rcutils/sha256.h"
#define NC 4
static rcutils_sha256_ctx_t g_c[NC];
void sha_reset(void) {memset(g_c, 0xA5, sizeof g_c);}
static void s_init(void)
{
  int i = argi(1);
  rcutils_sha256_init(&g_c[i]);
  ev_begin("ShInit"); ev_int("i", i); ev_end();
}
static void s_update(void)   // CTX BYTES
{
  int i = argi(1);
  size_t n;
  char * d = argx_noterm(2, &n);
  char * keep = scratch(n);
  if (n) {memcpy(keep, d, n);}
  rcutils_sha256_update(&g_c[i], (uint8_t *)d, n);
  ev_begin("ShUpdate"); ev_int("i", i); ev_bytes("d", keep, n); ev_bool("src", n == 0 || !memcmp(keep, d, n)); ev_end();
}
static void s_fill(void)     // CTX BYTE COUNT PIECE : COUNT bytes of one value in pieces of PIECE
{
  int i = argi(1), b = argi(2);
  size_t n = (size_t)argll(3), piece = (size_t)argll(4), left = n;
  uint8_t * d = scratch(piece);
  memset(d, b, piece);
  while (left) {
    size_t k = left < piece ? left : piece;
    rcutils_sha256_update(&g_c[i], d, k);
    left -= k;
  }
  ev_begin("ShFill"); ev_int("i", i); ev_int("b", b);
  ev_int("n", (long long)(n >> 20)); ev_int("nlow", (long long)(n & 0xfffff)); ev_end();
}
static void s_final(void)
{
  int i = argi(1);
  uint8_t * o = scratch(RCUTILS_SHA256_BLOCK_SIZE);
  rcutils_sha256_final(&g_c[i], o);
  ev_begin("ShFinal"); ev_int("i", i); ev_bytes("out", o, 32); ev_end();
}
const op_t g_ops_sha[] = {{"sh_init", s_init}, {"sh_update", s_update}, {"sh_fill", s_fill}, {"sh_final", s_final}, {0, 0}};
