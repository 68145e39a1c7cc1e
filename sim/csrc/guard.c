// Runs the program under test so that a memory fault, an abort, a stack
// overflow, a runaway loop or a runtime-requested stop ends the instruction
// instead of the simulator (as the Solana VM would).
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>

#define MAXD 16
static sigjmp_buf stk[MAXD];
static volatile int depth = 0;
static char altstack[65536];

static void onsig(int s) {
  if (depth > 0) {
    siglongjmp(stk[depth - 1], s);
  }
  signal(s, SIG_DFL);
  raise(s);
}

void guard_init(void) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onsig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGPROF};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
}

static void arm(int secs) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &t, NULL);
}

// *sig: 0 normal return, a signal number, or 1000 for guard_stop.
uint64_t guard_call(uint64_t (*f)(void *), void *arg, int *sig) {
  *sig = 0;
  if (depth >= MAXD) { *sig = 999; return 0; }
  if (depth == 0) arm(1);
  int d = depth++;
  int r = sigsetjmp(stk[d], 1);
  if (r == 0) {
    uint64_t v = f(arg);
    depth = d;
    if (d == 0) arm(0);
    return v;
  }
  depth = d;
  if (d == 0) arm(0);
  *sig = r;
  return 0;
}

void guard_stop(void) {
  if (depth > 0) siglongjmp(stk[depth - 1], 1000);
  abort();
}
