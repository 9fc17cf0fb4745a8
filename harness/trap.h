// Turns the library's fatal error exit (MPI_Abort, abort) into a return to the caller, so that a
// driver can watch what an error left behind. Only while trap_on is set.
#ifndef TRAP_H
#define TRAP_H
#include <csetjmp>
#include <csignal>
#include <mpi.h>
#include <unistd.h>
namespace trap {
inline sigjmp_buf jb;
inline volatile int on = 0;
inline volatile int how = 0; // 1 error exit, 2 abort
inline void handler(int) {
  if (on) { on = 0; how = 2; siglongjmp(jb, 1); }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
inline void install() {
  struct sigaction sa = {};
  sa.sa_handler = handler;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, nullptr);
}
// true if f ended in the library's error exit
template <class F> bool refused(F &&f) {
  how = 0;
  fflush(stdout); fflush(stderr);
  if (sigsetjmp(jb, 1) == 0) {
    on = 1;
    f();
    on = 0;
    return false;
  }
  on = 0;
  return true;
}
} // namespace trap
extern "C" int MPI_Abort(MPI_Comm c, int code) {
  if (trap::on) { trap::on = 0; trap::how = 1; siglongjmp(trap::jb, 1); }
  return PMPI_Abort(c, code);
}
#endif
