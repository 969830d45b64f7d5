#include "core.h"
void hm_reset(void); void sm_reset(void); void al_reset(void); void sa_reset(void); void ca_reset(void);
void err_reset(void); void log_reset(void); void fs_reset(void); void env_reset(void); void sl_reset(void); void sha_reset(void);
void time_reset(void); void mem_reset(void);
void sess_reset_cont(void)
{
  for (g_sel = NSEL; g_sel-- > 0;) {hm_reset(); al_reset(); ca_reset();}
  g_sel = 0;
  sm_reset(); sa_reset(); err_reset(); log_reset(); fs_reset();
  time_reset(); env_reset(); sl_reset(); sha_reset(); mem_reset();
}
