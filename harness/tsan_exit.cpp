// Linked into thread-sanitized programs with --wrap=pthread_exit: under ThreadSanitizer a process whose main thread ends
// with pthread_exit never goes away, so there the main thread exits the process (all others have been joined by then).
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" void __real_pthread_exit(void*) __attribute__((noreturn));
extern "C" void __wrap_pthread_exit(void* r) {
    if (syscall(SYS_gettid) == getpid()) exit(0);
    __real_pthread_exit(r);
}
