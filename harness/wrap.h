#ifndef VF_WRAP_H
#define VF_WRAP_H
#include <sys/types.h>
#include <unistd.h>
struct FaultPlan {
  bool armed = false;
  int fd = -1;
  long nread = 0, nwrite = 0;
  long read_at = -1, read_n = 1, write_at = -1, write_n = 1;
  bool enospc = false, short_write = false, short_read = false;
  long ntrunc = 0, trunc_at = -1, trunc_n = 1;
  int type = 0;                   // count only reads and writes of pages of this type (0: all)
  const char *path = nullptr;     // an open of this file makes it the target
  long hit_read = 0, hit_write = 0, hit_trunc = 0;
};
extern FaultPlan g_fault;
// set in a child that judges how the process ends: a stop the library itself decided on is told from a crash
extern bool g_stop_ok;
// schedule perturbation: yields and short sleeps around locking, drawn per thread
extern int g_jitter;             // 0 off, else a rate in 1/1000
extern thread_local unsigned long t_jitter;
// memory accounting: blocks obtained while it is on, by malloc and friends and by operator new
extern int g_mem;
struct MemUse { long c_live, c_peak, cpp_live; long blocks; };
MemUse mem_use();
void mem_start();                // from here on; forgets what was counted
void mem_peak_reset();
#endif
