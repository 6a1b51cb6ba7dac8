// Runtime under an instrumented program (gcc -fsanitize=thread, linked without libtsan): every load, store and
// atomic operation of the library's code arrives here.  Two threads run one at a time, holding a baton; at an
// access to memory the two share, the schedule decides which of them continues.  Compiled without instrumentation.
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include "mtrt.hpp"

namespace rt
{
    enum Mode { OFF, PROFILE, EXPLORE };
    static Mode mode = OFF;
    static int preempt[2] = {-1, -1};      // at its which shared access thread t hands over (-1: never)
    static long yields[2] = {0, 0};
    static bool finished[2] = {false, false};
    static sem_t baton[2];
    static thread_local int me = -1, quiet = 0;
    static thread_local char *stack_lo = nullptr, *stack_hi = nullptr;

    // ---- memory: each thread allocates from an arena of its own (what initialises a function-local static: from a third) and nothing is ever reused ----
    static const size_t ARENA = size_t(1) << 29;
    static char *arena[3], *top[3];
    static void* take(size_t n, size_t al)
    {
        if (al < 16) al = 16;
        const int q = quiet ? 2 : me;
        uintptr_t p = ((uintptr_t)top[q] + 16 + al - 1) & ~(uintptr_t)(al - 1);
        if (p + n > (uintptr_t)arena[q] + ARENA) return nullptr;
        ((size_t*)p)[-1] = n; top[q] = (char*)p + n; return (void*)p;
    }
    static bool in(int t, const void* p) { return arena[t] && (char*)p >= arena[t] && (char*)p < arena[t] + ARENA; }
    static bool ours(const void* p) { return in(0, p) || in(1, p) || in(2, p); }

    // ---- addresses (8-byte granules): bit 0/1 read by thread 0/1, bit 2/3 written by it ----
    static const size_t TAB = size_t(1) << 20;
    static uintptr_t* keys; static uint8_t* bits; static size_t used;
    static uint8_t* slot(uintptr_t g, bool insert)
    {
        size_t i = (g * 0x9e3779b97f4a7c15ull) >> 44;
        for (;; i = (i + 1) & (TAB - 1)) {
            if (keys[i] == g) return &bits[i];
            if (!keys[i]) { if (!insert || used > TAB / 2) return nullptr; used++; keys[i] = g; return &bits[i]; }
        }
    }
    static bool conflict(uint8_t b) { return (b & 16) || ((b & 5) && (b & 8)) || ((b & 10) && (b & 4)); }

    static void hand_over(int to) { sem_post(&baton[to]); while (sem_wait(&baton[1 - to]) && errno == EINTR) {} }
    static void touch(const void* p, size_t n, bool w)
    {
        if (me < 0 || quiet || mode == OFF) return;
        if ((char*)p >= stack_lo && (char*)p < stack_hi) return;
        if (in(me, p) && mode == PROFILE) return;
        bool yield = false;
        for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; ++g) {
            if (mode == PROFILE) { if (uint8_t* b = slot(g, true)) *b |= (w ? 4 : 1) << me | (in(1 - me, p) ? 16 : 0); }
            else { uint8_t* b = slot(g, false); if (b && conflict(*b)) yield = true; }
        }
        if (yield && yields[me]++ == preempt[me] && !finished[1 - me]) hand_over(1 - me);
    }

    struct Arg { int t; void (*f)(void*); void* a; };
    static void* entry(void* v)
    {
        Arg* g = (Arg*)v;
        pthread_attr_t at; void* s; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &s, &n); pthread_attr_destroy(&at);
        stack_lo = (char*)s; stack_hi = stack_lo + n;
        while (sem_wait(&baton[g->t]) && errno == EINTR) {}
        me = g->t;
        g->f(g->a);
        me = -1; finished[g->t] = true;
        sem_post(&baton[1 - g->t]);
        return nullptr;
    }
    // Runs a on thread 0 and b on thread 1.  Without preemption: a, then b.
    void run(bool profile, void (*fa)(void*), void* a, void (*fb)(void*), void* b, int pa, int pb, const uintptr_t* shared, size_t nshared)
    {
        keys = (uintptr_t*)mmap(nullptr, TAB * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        bits = (uint8_t*)mmap(nullptr, TAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (int t = 0; t < 3; ++t) {
            arena[t] = top[t] = (char*)mmap((void*)(0x200000000000ull + t * 0x10000000000ull), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (t < 2) sem_init(&baton[t], 0, 0);
        }
        for (size_t i = 0; i < nshared; ++i) if (uint8_t* s = slot(shared[i], true)) *s = 16;
        preempt[0] = pa; preempt[1] = pb; mode = profile ? PROFILE : EXPLORE;
        Arg g0{0, fa, a}, g1{1, fb, b}; pthread_t t0, t1;
        pthread_create(&t0, nullptr, entry, &g0);
        if (fb) pthread_create(&t1, nullptr, entry, &g1); else finished[1] = true;
        sem_post(&baton[0]);
        pthread_join(t0, nullptr); if (fb) pthread_join(t1, nullptr);
        mode = OFF;
    }
    size_t conflicts(uintptr_t* out, size_t max)
    {
        size_t n = 0;
        for (size_t i = 0; i < TAB && n < max; ++i) if (keys[i] && conflict(bits[i])) out[n++] = keys[i];
        return n;
    }
    long shared_accesses(int t) { return yields[t]; }
} // namespace rt

using rt::touch;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return rt::me >= 0 ? rt::take(n, 16) : __real_malloc(n); }
void __wrap_free(void* p) { if (!rt::ours(p)) __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { return rt::me >= 0 ? rt::take(a * b, 16) : __real_calloc(a, b); } // fresh pages are zero
void* __wrap_realloc(void* p, size_t n)
{
    if (rt::me < 0 && !rt::ours(p)) return __real_realloc(p, n);
    void* q = __wrap_malloc(n); if (q && p) { size_t m = rt::ours(p) ? ((size_t*)p)[-1] : n; memcpy(q, p, m < n ? m : n); if (!rt::ours(p)) __real_free(p); } return q;
}
int __wrap_posix_memalign(void** o, size_t al, size_t n) { if (rt::me < 0) return __real_posix_memalign(o, al, n); *o = rt::take(n, al); return *o ? 0 : ENOMEM; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return rt::me >= 0 ? rt::take(n, al) : __real_aligned_alloc(al, n); }

// initialisation of function-local statics is ordered by the language: not a place to interleave
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) rt::quiet++; return r; }
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); rt::quiet--; }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); rt::quiet--; }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (rt::me < 0) return __real_pthread_mutex_lock(m);
    for (;;) {
        int r = pthread_mutex_trylock(m); if (r != EBUSY) return r;
        if (rt::finished[1 - rt::me]) _exit(77); // nobody left to release it
        rt::hand_over(1 - rt::me);
    }
}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { touch(s, n, false); touch(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { touch(s, n, false); touch(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) touch(d, n, true); return __real_memset(d, c, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { touch(p, N, false); } void __tsan_write##N(void* p) { touch(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { touch(p, N, false); } void __tsan_unaligned_write##N(void* p) { touch(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { touch(p, N, false); } void __tsan_volatile_write##N(void* p) { touch(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* p) { touch(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { touch(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) touch(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) touch(p, n, true); }
void __tsan_vptr_read(void* p) { touch(p, 8, false); }
void __tsan_vptr_update(void* p, void*) { touch(p, 8, true); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { touch((void*)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { touch((void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { touch((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { touch((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { touch((void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
static void* must(size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return must(n); }
void* operator new[](size_t n) { return must(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void* operator new(size_t n, std::align_val_t al) { void* p = nullptr; if (__wrap_posix_memalign(&p, (size_t)al, n)) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
