// Forced into the ThreadSanitizer build of the benchmark program: the sanitizer's
// run time never ends a process whose main thread leaves through pthread_exit, so
// the main thread (all others joined or about to end) leaves through exit instead.
#include <pthread.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>
static inline void mon_thread_exit(void* v) {
    if (syscall(SYS_gettid) == getpid()) exit(0);
    pthread_exit(v);
}
#define pthread_exit mon_thread_exit
