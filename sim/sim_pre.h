/* force-included when compiling /repo/src: routes the CPU "pause" hint used by
 * spin loops to the simulator, so that a spinning thread yields. */
#ifndef SIM_PRE_H
#define SIM_PRE_H
void sim_pause(void);
#define __builtin_ia32_pause() sim_pause()
#endif
