// The runtime behind rt.h. Compiled without instrumentation.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace rt {
Foot foot;
Sched sched;

// allocations made by the code under test while the monitor is on
static std::unordered_map<const char*, size_t>& allocs()
{
    static std::unordered_map<const char*, size_t> a;
    return a;
}
static int depth = 0;            // call depth of instrumented functions
static const char* kframe = nullptr; // frame of the outermost instrumented function
static bool inregion = false, busy = false;
static int tid = 0;
static const char *regbot = nullptr, *regtop = nullptr; // the stack of the running thread of the team

void foot_begin(const void* top, bool fortran)
{
    foot.top = (const char*)top;
    foot.fortran = fortran;
    foot.bad = 0;
    foot.region = -1;
    depth = 0;
    kframe = nullptr;
    foot.on = true;
}
void foot_end()
{
    foot.on = false;
    allocs().clear();
}

// ---- conflict detection: shadow of two thread ids per byte, by page ----
struct Page {
    uint16_t w[4096], r[4096]; // 0: none, 1+tid, 0xffff: several
};
static std::unordered_map<uintptr_t, Page*> pages;
static uintptr_t lastp = 0;
static Page* last = nullptr;
static std::vector<uintptr_t> dirty;
static Page* page(uintptr_t p)
{
    if (last && p == lastp) return last;
    Page*& q = pages[p];
    if (!q) {
        q = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        dirty.push_back(p);
    }
    lastp = p;
    return last = q;
}
static void reset()
{
    bool was = busy;
    busy = true;
    for (auto& p : pages) memset(p.second, 0, sizeof(Page));
    if (pages.size() > 4096) {
        for (auto& p : pages) munmap(p.second, sizeof(Page));
        pages.clear();
        last = nullptr;
    }
    busy = was;
}
static bool seen_thread;
static void track(const char* a, unsigned n, bool wr)
{
    if (a < regtop && a >= regbot) return; // the thread's own stack
    sched.accesses++;
    if (wr && !seen_thread) seen_thread = true, sched.active++;
    uint16_t me = tid + 1;
    for (unsigned i = 0; i < n; i++) {
        uintptr_t x = (uintptr_t)a + i;
        Page* p = page(x >> 12);
        uint16_t &w = p->w[x & 4095], &r = p->r[x & 4095];
        int other = 0;
        bool ww = false;
        if (w && w != me) other = w, ww = wr;
        else if (wr && r && r != me) other = r;
        if (other && !sched.conflict) {
            sched.conflict = true;
            sched.addr = a + i;
            sched.t1 = other == 0xffff ? -1 : other - 1;
            sched.t2 = tid;
            sched.ww = ww;
        }
        if (wr) w = me;
        else r = r && r != me ? 0xffff : me;
    }
}
static void freed(const char* a, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        uintptr_t x = (uintptr_t)a + i;
        auto it = pages.find(x >> 12);
        if (it == pages.end()) continue;
        it->second->w[x & 4095] = it->second->r[x & 4095] = 0;
    }
}

static void foota(const char* a, unsigned n, bool wr)
{
    (wr ? foot.writes : foot.reads)++;
    if (foot.bad) return;
    for (int k = 0; k < foot.n; k++) {
        const Region& r = foot.r[k];
        if (a + n <= r.lo || a >= r.hi) continue;
        if (a < r.dlo || a + n > r.dhi) {
            foot.bad = wr ? 2 : 1;
            foot.region = k;
            foot.elem = (a - r.dlo) / (long)r.elsize - ((a - r.dlo) % (long)r.elsize < 0);
            foot.size = n;
            return;
        }
        if (!wr) return;
        for (long e = (a - r.dlo) / r.elsize; e <= (a + n - 1 - r.dlo) / r.elsize; e++)
            if (!r.touched || !r.touched[e]) {
                foot.bad = 3;
                foot.region = k;
                foot.elem = e;
                foot.size = n;
                return;
            }
        return;
    }
    if (!wr) return;
    // own frames: Fortran receives everything by reference, so nothing above its own frame is its own
    const char* top = foot.fortran && kframe ? kframe : foot.top;
    const char* here = (const char*)__builtin_frame_address(0);
    if (a < top && a > here - 4096) return;
    for (auto& p : allocs())
        if (a >= p.first && a + n <= p.first + p.second) return;
    foot.bad = 4;
    foot.elem = a < foot.top + (1l << 20) && a > here ? a - top : 0;
    foot.size = n;
}
// guarded initialisation of a static, and sections under a lock, are ordered by the language; thread-local
// variables are private to the (simulated) threads
static int guarded = 0, locked = 0;
static const char *tls = nullptr, *tlsend = nullptr;
static void findtls()
{
    dl_iterate_phdr(
        [](dl_phdr_info* i, size_t, void*) {
            for (int k = 0; k < i->dlpi_phnum; k++)
                if (i->dlpi_phdr[k].p_type == PT_TLS) tls = (const char*)i->dlpi_tls_data, tlsend = tls + i->dlpi_phdr[k].p_memsz;
            return 1; // the executable is the first
        },
        nullptr);
    if (!tls) tls = tlsend = (const char*)1;
}
static inline void acc(const void* p, unsigned n, bool wr)
{
    if (busy || !n || guarded) return;
    if (!tls) findtls();
    if ((const char*)p >= tls && (const char*)p < tlsend) return;
    if (foot.on) {
        busy = true;
        foota((const char*)p, n, wr);
        busy = false;
    }
    if (inregion && sched.track && !locked) {
        busy = true;
        track((const char*)p, n, wr);
        busy = false;
    }
}
} // namespace rt
using namespace rt;

#define ACC(k)                                                                   \
    void __tsan_read##k(void* p) { acc(p, k, false); }                           \
    void __tsan_write##k(void* p) { acc(p, k, true); }                           \
    void __tsan_unaligned_read##k(void* p) { acc(p, k, false); }                 \
    void __tsan_unaligned_write##k(void* p) { acc(p, k, true); }                 \
    void __tsan_volatile_read##k(void* p) { acc(p, k, false); }                  \
    void __tsan_volatile_write##k(void* p) { acc(p, k, true); }                  \
    void __tsan_unaligned_volatile_read##k(void* p) { acc(p, k, false); }        \
    void __tsan_unaligned_volatile_write##k(void* p) { acc(p, k, true); }
extern "C" {
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_init() {}
// atomics: executed, never a conflict by themselves
#define ATOMIC(b, T)                                                                                          \
    T __tsan_atomic##b##_load(const volatile T* a, int) { return *a; }                                       \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { *a = v; }                                        \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { T o = *a; *a = v; return o; }                    \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { T o = *a; *a = o + v; return o; }               \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { T o = *a; *a = o - v; return o; }               \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { T o = *a; *a = o | v; return o; }                \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { T o = *a; *a = o & v; return o; }               \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { T o = *a; *a = o ^ v; return o; }               \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                        \
    {                                                                                                         \
        if (*a == *c) { *a = v; return 1; }                                                                   \
        *c = *a;                                                                                              \
        return 0;                                                                                             \
    }                                                                                                         \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int)                          \
    {                                                                                                         \
        return __tsan_atomic##b##_compare_exchange_strong(a, c, v, 0, 0);                                     \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, unsigned long)
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void __tsan_func_entry(void*)
{
    // frame pointer chain: rbp of this function -> rbp of the instrumented function, whose frame
    // reaches up to its saved frame pointer and return address
    if (depth++ == 0 && foot.on) kframe = *(char**)__builtin_frame_address(0) + 16;
}
void __tsan_func_exit(void*) { depth--; }

// ---- a team of threads: fibers, executed one after the other in the chosen order between barriers ----
int omp_get_num_threads() { return inregion ? sched.nthreads : 1; }
int omp_get_thread_num() { return inregion ? tid : 0; }
int omp_get_max_threads() { return sched.nthreads; }
int omp_in_parallel() { return inregion; }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int) {}
static void (*teamfn)(void*);
static void* teamdata;
} // extern "C"
// switch stacks: store the callee-saved registers and the stack pointer, load the other's
extern "C" void rt_switch(void** from, void* to);
asm(".text\n.globl rt_switch\n.type rt_switch,@function\nrt_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
    ".size rt_switch,.-rt_switch\n");
namespace {
struct Fiber {
    void* sp = nullptr;
    char* stack = nullptr;
    bool done = false, wrote = false;
    int depth = 0;
    // the loop this thread is in: its next chunk and its end; iterations are dealt in turn
    long long next = 0, end = 0, incr = 1, chunk = 1;
    long singles = 0, sect = 0, sects = 0; // sections: the next one of this thread, how many there are
};
constexpr size_t STK = 8 << 20;
constexpr int MAXT = 1024;
Fiber fibers[MAXT];
std::vector<char*> stacks; // unused ones
void* teamsp;
long singles = 0;
void enter()
{
    teamfn(teamdata);
    fibers[tid].done = true;
    rt_switch(&fibers[tid].sp, teamsp);
    abort();
}
void start(Fiber& f)
{
    busy = true;
    if (stacks.empty()) stacks.push_back((char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    busy = false;
    f.stack = stacks.back();
    stacks.pop_back();
    void** top = (void**)(f.stack + STK - 64); // 16-byte aligned; entered as by a call
    *--top = nullptr;
    *--top = (void*)enter;
    for (int i = 0; i < 6; i++) *--top = nullptr;
    f.sp = top;
}
bool dealt(long long* s, long long* e)
{
    Fiber& f = fibers[tid];
    if (f.incr > 0 ? f.next >= f.end : f.next <= f.end) return false;
    long long n = f.next + f.chunk * f.incr;
    *s = f.next;
    *e = f.incr > 0 ? (n < f.end ? n : f.end) : (n > f.end ? n : f.end);
    f.next += f.chunk * f.incr * (inregion ? sched.nthreads : 1);
    return true;
}
void deal(int t, long long s, long long e, long long i, long long c)
{
    if (c < 1) c = 1;
    fibers[t].next = s + t * c * i;
    fibers[t].end = e;
    fibers[t].incr = i;
    fibers[t].chunk = c;
}
// the step between a thread's chunks is that of the team, which a region may make smaller
void dealall(unsigned want, long s, long e, long i, long c)
{
    int n = want && (int)want < sched.nthreads ? want : sched.nthreads;
    for (int t = 0; t < n; t++) deal(t, s, e, i, c);
}
} // namespace
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned want, unsigned)
{
    if (inregion) { // nested regions are inactive
        int t = tid, n = sched.nthreads;
        sched.nthreads = 1;
        tid = 0;
        fn(data);
        tid = t;
        sched.nthreads = n;
        return;
    }
    sched.regions++;
    regtop = (const char*)__builtin_frame_address(0);
    regbot = regtop - (8l << 20);
    if (sched.track) reset();
    inregion = true;
    // a region may ask for fewer threads (num_threads, if)
    const int team = sched.nthreads;
    if (want && (int)want < team) sched.nthreads = want;
    if (sched.nthreads == 1) {
        tid = 0;
        seen_thread = false;
        fn(data);
    } else {
        teamfn = fn;
        teamdata = data;
        singles = 0;
        int n = sched.nthreads, left = n, d = depth;
        for (int pass = 0; left; pass++) {
            for (int i = 0; i < team; i++) {
                tid = sched.order ? sched.order[i] : i;
                if (tid >= n) continue;
                Fiber& f = fibers[tid];
                if (pass && f.done) continue;
                if (!pass) {
                    start(f);
                    f.done = f.wrote = false;
                    f.depth = d;
                    f.singles = 0;
                }
                seen_thread = f.wrote;
                regbot = f.stack;
                regtop = f.stack + STK;
                depth = f.depth;
                rt_switch(&teamsp, f.sp);
                f.depth = depth;
                f.wrote = seen_thread;
                if (f.done) {
                    left--;
                    busy = true;
                    stacks.push_back(f.stack);
                    busy = false;
                }
            }
            if (left && sched.track) reset(); // a barrier orders what comes before it with what comes after
        }
        depth = d;
    }
    sched.nthreads = team;
    inregion = false;
    tid = 0;
}
void GOMP_barrier()
{
    if (inregion && sched.nthreads > 1) rt_switch(&fibers[tid].sp, teamsp);
}
bool GOMP_single_start()
{
    if (!inregion || sched.nthreads == 1) return true;
    if (fibers[tid].singles++ < singles) return false;
    singles++;
    return true;
}
// the first to arrive passes its variables to the others, which wait for it
static void* single;
void* GOMP_single_copy_start()
{
    if (GOMP_single_start()) return nullptr;
    GOMP_barrier();
    return single;
}
void GOMP_single_copy_end(void* p)
{
    single = p;
    GOMP_barrier();
}
// sections are dealt like iterations
unsigned GOMP_sections_next()
{
    if (!inregion || sched.nthreads == 1) return fibers[0].sect < fibers[0].sects ? ++fibers[0].sect : 0;
    Fiber& f = fibers[tid];
    if (f.sect >= f.sects) return 0;
    unsigned r = f.sect + 1;
    f.sect += sched.nthreads;
    return r;
}
unsigned GOMP_sections_start(unsigned n)
{
    int t = inregion && sched.nthreads > 1 ? tid : 0;
    fibers[t].sect = t, fibers[t].sects = n;
    return GOMP_sections_next();
}
void GOMP_sections_end_nowait() {}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned want, unsigned n, unsigned f)
{
    for (int t = 0; t < MAXT; t++) fibers[t].sect = t, fibers[t].sects = n;
    GOMP_parallel(fn, data, want, f);
}
// tasks: executed when they are created
void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
    if (!copy) return fn(data);
    std::vector<char> b(size + align);
    char* p = (char*)(((uintptr_t)b.data() + align - 1) & ~(uintptr_t)(align - 1));
    copy(p, data);
    fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int omp_get_level() { return inregion; }
int omp_get_active_level() { return inregion; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
double omp_get_wtime() { return 0; }
typedef struct { void* p; } rt_lock;
void omp_init_lock(rt_lock*) {}
void omp_destroy_lock(rt_lock*) {}
void omp_set_lock(rt_lock*) { locked++; }
void omp_unset_lock(rt_lock*) { locked--; }
// loops whose iterations the runtime hands out
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
#define LOOP(name)                                                                                            \
    bool GOMP_loop_##name##_next(long* s, long* e)                                                            \
    {                                                                                                         \
        long long a, b;                                                                                       \
        if (!dealt(&a, &b)) return false;                                                                     \
        *s = a, *e = b;                                                                                       \
        return true;                                                                                          \
    }                                                                                                         \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie)                         \
    {                                                                                                         \
        deal(tid, s, e, i, c);                                                                                \
        return GOMP_loop_##name##_next(is, ie);                                                               \
    }                                                                                                         \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f) \
    {                                                                                                         \
        dealall(n, s, e, i, c);                                                                                  \
        GOMP_parallel(fn, data, n, f);                                                                        \
    }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define LOOPR(name)                                                                                           \
    bool GOMP_loop_##name##_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }                   \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie)                                 \
    {                                                                                                         \
        return GOMP_loop_dynamic_start(s, e, i, 1, is, ie);                                                   \
    }                                                                                                         \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) \
    {                                                                                                         \
        GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);                                               \
    }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
#define LOOPU(name)                                                                                           \
    bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e)                            \
    {                                                                                                         \
        long long a, b;                                                                                       \
        if (!dealt(&a, &b)) return false;                                                                     \
        *s = a, *e = b;                                                                                       \
        return true;                                                                                          \
    }                                                                                                         \
    bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, \
                                      unsigned long long c, unsigned long long* is, unsigned long long* ie)   \
    {                                                                                                         \
        deal(tid, s, e, i, c);                                                                                \
        return GOMP_loop_ull_##name##_next(is, ie);                                                           \
    }
LOOPU(dynamic)
LOOPU(guided)
LOOPU(nonmonotonic_dynamic)
LOOPU(nonmonotonic_guided)
// ordered loops: one thread executes all of it, in order
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
#define LOOPO(name)                                                                                           \
    bool GOMP_loop_ordered_##name##_next(long* s, long* e)                                                    \
    {                                                                                                         \
        long long a, b;                                                                                       \
        if (tid || !dealt(&a, &b)) return false;                                                              \
        *s = a, *e = b;                                                                                       \
        return true;                                                                                          \
    }                                                                                                         \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long, long* is, long* ie)                   \
    {                                                                                                         \
        deal(tid, s, e, i, 1l << 40);                                                                         \
        return GOMP_loop_ordered_##name##_next(is, ie);                                                       \
    }
LOOPO(static)
LOOPO(dynamic)
LOOPO(guided)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_ordered_static_start(s, e, i, 1, is, ie); }
bool GOMP_loop_ordered_runtime_next(long* s, long* e) { return GOMP_loop_ordered_static_next(s, e); }

// sections that exclude each other: each thread runs to completion, so the lock is always free
void GOMP_critical_start() { locked++; }
void GOMP_critical_end() { locked--; }
void GOMP_critical_name_start(void**) { locked++; }
void GOMP_critical_name_end(void**) { locked--; }
void GOMP_atomic_start() { locked++; }
void GOMP_atomic_end() { locked--; }
void __tsan_atomic_thread_fence(int) {}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (inregion) locked++;
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (inregion) locked--;
    return __real_pthread_mutex_unlock(m);
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    guarded += r;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    guarded--;
    __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void* g)
{
    guarded--;
    __real___cxa_guard_abort(g);
}
// bulk copies made by the code under test (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (depth > 0) acc(s, n, false), acc(d, n, true);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (depth > 0) acc(s, n, false), acc(d, n, true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (depth > 0) acc(d, n, true);
    return __real_memset(d, c, n);
}
// allocations of the code under test
void* __real_malloc(size_t);
void __real_free(void*);
static void* note(void* p, size_t n)
{
    if (foot.on && !busy && depth > 0 && p) {
        busy = true;
        allocs()[(const char*)p] = n;
        busy = false;
    }
    return p;
}
static void unnote(void* p)
{
    if (busy || !p) return;
    if (foot.on && depth > 0) {
        busy = true;
        allocs().erase((const char*)p);
        busy = false;
    }
    if (inregion && sched.track) {
        busy = true;
        freed((const char*)p, malloc_usable_size(p));
        busy = false;
    }
}
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_calloc(size_t n, size_t m) { return note(__real_calloc(n, m), n * m); }
void* __wrap_realloc(void* p, size_t n)
{
    unnote(p);
    return note(__real_realloc(p, n), n);
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return note(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n)
{
    int r = __real_posix_memalign(p, a, n);
    if (!r) note(*p, n);
    return r;
}
void* __wrap_malloc(size_t n) { return note(__real_malloc(n), n); }
void __wrap_free(void* p)
{
    unnote(p);
    __real_free(p);
}
}
void* operator new(size_t n)
{
    void* p = __real_malloc(n ? n : 1);
    if (!p) abort();
    return note(p, n);
}
void operator delete(void* p) noexcept
{
    unnote(p);
    __real_free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n, std::align_val_t a)
{
    void* p = nullptr;
    if (__real_posix_memalign(&p, (size_t)a < 16 ? 16 : (size_t)a, n ? n : 1)) abort();
    return note(p, n);
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
