// Development aid: TRVSIM_PROF=1 prints a histogram of program counters.
#include "sim.h"
#include <signal.h>
#include <sys/time.h>
#include <ucontext.h>
#include <cstdio>
#include <unistd.h>
#include <execinfo.h>
static uint64_t pcs[100000]; static volatile int npc;
static void h(int, siginfo_t*, void* uc) { if (npc < 100000) pcs[npc++] = (uint64_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; }
void prof_start() { if (!getenv("TRVSIM_PROF")) return; struct sigaction sa = {}; sa.sa_sigaction = h; sa.sa_flags = SA_SIGINFO | SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sa, 0); itimerval it = {{0, 1000}, {0, 1000}}; setitimer(ITIMER_PROF, &it, 0); npc = 0; }
void prof_stop() { if (!getenv("TRVSIM_PROF")) return; itimerval it = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &it, 0);
  FILE* f = fopen("/tmp/trvsim.prof", "w"); for (int i = 0; i < npc; i++) { void* p = (void*)pcs[i]; char** s = backtrace_symbols(&p, 1); fprintf(f, "%s\n", s[0]); } fclose(f); }
