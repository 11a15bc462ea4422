// Preloaded into mara: random delays at the points where threads meet, and in allocations (the work of a task is full of them).
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdint.h>
extern "C" void* __libc_malloc(size_t);
static uint64_t seed; static int rate; static bool on;
static __thread uint64_t state;
__attribute__((constructor)) static void init() { auto s = getenv("JITTER_SEED"); auto r = getenv("JITTER_RATE"); seed = s ? strtoull(s, nullptr, 10) : 1; rate = r ? atoi(r) : 0; on = rate > 0; }
static void jitter(int scale)
{
    if (! on) return; if (! state) state = seed * 0x9E3779B97F4A7C15ull ^ ((uint64_t) pthread_self() * 0xBF58476D1CE4E5B9ull) | 1; state ^= state << 13; state ^= state >> 7; state ^= state << 17; auto x = (state * 0x2545F4914F6CDD1Dull) >> 33;
    if (x % (rate * scale) == 0) { if (x & 0x10000000) sched_yield(); else usleep((x >> 8) % 300); }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { static auto f = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock"); jitter(1); return f(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { static auto f = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); auto r = f(m); jitter(1); return r; }
extern "C" void* malloc(size_t n) { jitter(40); return __libc_malloc(n); }
