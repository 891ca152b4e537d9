/* Accounting of the kernel randomness the interpreter reads, and a few other things a weak generator could be seeded with.
 * Pass-through by default. VF_WEAK_START=1: a fixed stream is served until vrand_real() is called (a generator seeded
 * while the program starts becomes reproducible). vrand_pid(n): getpid()/getppid() answer n. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static volatile unsigned long long bytes = 0, calls = 0;
static volatile int weak = -1;
static volatile unsigned long long state = 0x9e3779b97f4a7c15ULL;
static volatile int fakepid = 0;

unsigned long long vrand_bytes(void) { return bytes; }
unsigned long long vrand_calls(void) { return calls; }
void vrand_real(void) { weak = 0; }
void vrand_pid(int n) { fakepid = n; }

ssize_t getrandom(void *buf, size_t len, unsigned int flags) {
    if (weak < 0) { const char *e = getenv("VF_WEAK_START"); weak = e && *e == '1'; }
    calls++;
    if (weak == 1) {
        unsigned char *p = buf;
        for (size_t i = 0; i < len; i++) {
            unsigned long long z = (state += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            p[i] = (unsigned char)((z ^ (z >> 31)) >> 24);
        }
        bytes += len;
        return (ssize_t)len;
    }
    long r = syscall(SYS_getrandom, buf, len, flags);
    if (r > 0) bytes += (unsigned long long)r;
    return (ssize_t)r;
}
int getentropy(void *buf, size_t len) {
    if (len > 256) { errno = EIO; return -1; }
    return getrandom(buf, len, 0) == (ssize_t)len ? 0 : -1;
}
pid_t getpid(void) { return fakepid ? (pid_t)fakepid : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) { return fakepid ? (pid_t)fakepid : (pid_t)syscall(SYS_getppid); }
