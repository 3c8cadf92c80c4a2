// Stand-in for libgomp and for the ThreadSanitizer callbacks: real POSIX threads (so that thread_local storage is real),
// of which exactly one runs at a time. Scheduling points are the synchronisation operations: start and end of a thread's
// part of a region, taking a chunk of a dynamically scheduled loop, entering a critical section or mutex, barriers and
// atomics. Between two of them a thread touches memory only through instrumented accesses, which are checked for races
// with vector clocks: as long as there is no race, every finer interleaving is equivalent to an explored one.
#include "omp_mc.hpp"

#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>
#include <vector>

namespace {
constexpr unsigned MAXT = 8;
using Clock             = std::uint32_t;
struct VC {
    Clock c[MAXT];
    void  clear() { std::memset(c, 0, sizeof c); }
    void  join(const VC& o) {
        for (unsigned i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
enum State { Idle, Ready, Blocked, Done };
struct Access {
    unsigned char tid, mask, write, atomic;
    Clock         clock;
};
struct Loop {
    unsigned long long next = 0, end = 0, incr = 0, chunk = 0;
    bool               up = true, guided = false, init = false;
    unsigned           ended = 0;
};
bool exhausted(const Loop& l) { return l.up ? l.next >= l.end : l.next <= l.end; }
struct Pool {
    sem_t     go[MAXT];
    pthread_t thread[MAXT];
    bool      started[MAXT];
    State     state[MAXT];
    bool      pending[MAXT];    // waiting in front of a synchronisation operation
    int       in_loop[MAXT];    // that operation takes a chunk of this loop (-1: another operation)
    VC        vc[MAXT];
    unsigned  loop_no[MAXT];    // loops of this region the thread has started
    unsigned  single_no[MAXT];  // single constructs
    unsigned  barrier_waiting = 0;
} P;

thread_local unsigned t_id     = 0;
thread_local int      t_inside = 0;  // inside the runtime: no hooks

bool     g_exploring = false;
unsigned g_team_conf = 1;  // team size for the next region
volatile bool g_active = false;  // a controlled region is running
unsigned g_team        = 1;
void (*g_fn)(void*)    = nullptr;
void* g_data           = nullptr;

struct Point {
    unsigned choice, n;
};
std::vector<Point>*    trail;
std::size_t            trail_pos = 0;
ompmc::Result*         g_res     = nullptr;
std::unordered_map<std::uintptr_t, std::vector<Access>>* shadow;
std::unordered_map<const void*, VC>*                     sync_vc;
std::unordered_map<const void*, int>*                    lock_owner;  // -1 free
std::vector<Loop>*                                       loops;
std::vector<int>*                                        singles;
std::vector<void*>*                                      deferred;

struct In {
    In() { ++t_inside; }
    ~In() { --t_inside; }
};

void error(const std::string& e) {
    if (g_res && g_res->error.empty()) g_res->error = e;
}

unsigned choose(unsigned n) {
    if (n <= 1) return 0;
    ++g_res->points;
    if (trail_pos < trail->size()) {
        auto& p = (*trail)[trail_pos++];
        if (p.n != n) {
            error("schedule replay diverged");
            return 0;
        }
        return p.choice;
    }
    trail->push_back({0, n});
    ++trail_pos;
    return 0;
}

// Threads that are not in front of a synchronisation operation run first, in a fixed (rotated) order: what they do before
// their next synchronisation operation commutes with the other threads, or is a race.
unsigned g_rotation = 0;
unsigned pick(const unsigned* ready, unsigned n) {
    for (unsigned r = 0; r < g_team; ++r) {
        const unsigned t = (r + g_rotation) % g_team;
        if (P.state[t] == Ready && (!P.pending[t] || (P.in_loop[t] >= 0 && exhausted((*loops)[P.in_loop[t]])))) return t;
    }
    return ready[choose(n)];
}

// hand the baton to one of the ready threads (or keep it); returns when this thread has it again
void schedule(bool self_done = false) {
    unsigned ready[MAXT], n = 0;
    for (unsigned i = 0; i < g_team; ++i)
        if (P.state[i] == Ready) ready[n++] = i;
    const unsigned me = t_id;
    if (n == 0) {
        bool all = true;
        for (unsigned i = 0; i < g_team; ++i) all = all && P.state[i] == Done;
        if (all) {
            if (me != 0) sem_post(&P.go[0]);
            return;
        }
        // deadlock: nobody can continue and the region cannot be unwound
        std::printf("\nCRASH\tthreads\t0\tdeadlock between the threads of a parallel region\n");
        std::fflush(stdout);
        _Exit(97);
    }
    const unsigned next = pick(ready, n);
    if (next == me) return;
    sem_post(&P.go[next]);
    if (self_done) return;
    while (sem_wait(&P.go[me]) != 0) {
    }
}
// scheduling point in front of a synchronisation operation
void visible(int loop = -1) {
    P.pending[t_id] = true;
    P.in_loop[t_id] = loop;
    schedule();
    P.pending[t_id] = false;
    P.in_loop[t_id] = -1;
}
void block_self() {
    P.state[t_id] = Blocked;
    schedule();
}
bool controlled() { return g_active && t_inside == 0; }

void access(const void* addr, std::size_t size, bool write, bool atomic = false) {
    ++g_res->accesses;
    const unsigned me = t_id;
    auto           a  = reinterpret_cast<std::uintptr_t>(addr);
    const auto     e  = a + size;
    while (a < e) {
        const std::uintptr_t g = a >> 3;
        unsigned             m = 0;
        for (; a < e && (a >> 3) == g; ++a) m |= 1u << (a & 7);
        auto& list   = (*shadow)[g];
        bool  merged = false;
        for (auto& x : list) {
            if (x.tid == me) {
                if (x.write == write && x.atomic == atomic && x.mask == m) {
                    x.clock = P.vc[me].c[me];
                    merged  = true;
                }
                continue;
            }
            if (!(x.mask & m) || (!x.write && !write) || (x.atomic && atomic)) continue;
            if (x.clock <= P.vc[me].c[x.tid]) continue;
            char buf[200];
            std::snprintf(buf, sizeof buf, "data race: thread %u %s memory that thread %u %s, with no synchronisation between them (team of %u)", me,
                          write ? "writes" : "reads", (unsigned)x.tid, x.write ? "wrote" : "read", g_team);
            error(buf);
        }
        if (!merged) list.push_back({(unsigned char)me, (unsigned char)m, (unsigned char)write, (unsigned char)atomic, P.vc[me].c[me]});
    }
}
void acquire(const void* o) { P.vc[t_id].join((*sync_vc)[o]); }
void release(const void* o) {
    auto& v = (*sync_vc)[o];
    v.join(P.vc[t_id]);
    ++P.vc[t_id].c[t_id];
}
void lock(const void* o) {
    In in;
    visible();
    while (true) {
        auto it = lock_owner->find(o);
        if (it == lock_owner->end() || it->second < 0) break;
        P.pending[t_id] = true;
        block_self();
        P.pending[t_id] = false;
    }
    (*lock_owner)[o] = t_id;
    acquire(o);
}
void unlock(const void* o) {
    In in;
    release(o);
    (*lock_owner)[o] = -1;
    for (unsigned i = 0; i < g_team; ++i)
        if (P.state[i] == Blocked) P.state[i] = Ready;  // re-checks its condition
}
char barrier_obj, critical_obj, atomic_obj;
unsigned barrier_epoch = 0;
void barrier() {
    In in;
    if (g_team == 1) return;
    release(&barrier_obj);
    const unsigned epoch = barrier_epoch;
    if (++P.barrier_waiting == g_team) {
        P.barrier_waiting = 0;
        ++barrier_epoch;
        for (unsigned i = 0; i < g_team; ++i)
            if (P.state[i] == Blocked) P.state[i] = Ready;
    } else {
        while (barrier_epoch == epoch) block_self();
    }
    acquire(&barrier_obj);
}

void run_part() {
    g_fn(g_data);
    In in;
    P.state[t_id] = Done;
}
void* worker(void* arg) {
    t_id = static_cast<unsigned>(reinterpret_cast<std::uintptr_t>(arg));
    ++t_inside;
    while (true) {
        while (sem_wait(&P.go[t_id]) != 0) {
        }
        --t_inside;
        run_part();
        ++t_inside;
        schedule(true);
    }
    return nullptr;
}

void parallel(void (*fn)(void*), void* data, unsigned n) {
    if (!g_exploring || g_active || t_id != 0) {  // not exploring, or nested: a team of one
        fn(data);
        return;
    }
    unsigned team = n ? n : g_team_conf;
    if (team > MAXT) team = MAXT;
    {
        In in;
        for (unsigned i = 1; i < team; ++i)
            if (!P.started[i]) {
                sem_init(&P.go[i], 0, 0);
                P.started[i] = true;
                pthread_attr_t at;
                pthread_attr_init(&at);
                pthread_attr_setstacksize(&at, 4 << 20);
                if (pthread_create(&P.thread[i], &at, worker, reinterpret_cast<void*>(static_cast<std::uintptr_t>(i)))) {
                    error("cannot create a thread");
                    std::abort();
                }
            }
        g_team = team;
        g_fn   = fn;
        g_data = data;
        shadow->clear();
        sync_vc->clear();
        lock_owner->clear();
        loops->clear();
        singles->clear();
        P.barrier_waiting = 0;
        for (unsigned i = 0; i < team; ++i) {
            P.state[i] = Ready;
            P.vc[i].clear();
            P.vc[i].c[i] = 1;
            P.loop_no[i] = P.single_no[i] = 0;
        }
        if (team > 1) ++g_res->regions;
        for (unsigned i = 0; i < team; ++i) P.pending[i] = false, P.in_loop[i] = -1;
        g_rotation = choose(team);
        g_active   = true;
        schedule();
    }
    run_part();
    {
        In in;
        bool others = false;
        for (unsigned i = 1; i < team; ++i) others = others || P.state[i] != Done;
        if (others) {
            schedule(true);  // thread 0 is done: pass the baton on, get it back when all are done
            while (sem_wait(&P.go[0]) != 0) {
            }
        }
        g_active = false;
        g_team   = 1;
        shadow->clear();
        for (void* p : *deferred) std::free(p);
        deferred->clear();
    }
}

// ---- work sharing loops ---------------------------------------------------------------------------------------------
Loop& current_loop() { return (*loops)[P.loop_no[t_id] - 1]; }
Loop  g_serial;
bool  grab(unsigned long long* s, unsigned long long* e) {
    In   in;
    bool serial = !g_active;
    if (exhausted(serial ? g_serial : current_loop())) return false;  // final: commutes with everything
    if (!serial) visible(static_cast<int>(P.loop_no[t_id]) - 1);
    Loop& l = serial ? g_serial : current_loop();
    if (exhausted(l)) return false;
    const unsigned long long step = l.up ? l.incr : 0 - l.incr;
    const unsigned long long left = ((l.up ? l.end - l.next : l.next - l.end) + step - 1) / step;
    unsigned long long       n    = l.chunk ? l.chunk : 1;
    if (l.guided) {
        const unsigned team = serial ? 1 : g_team;
        const auto     q    = (left + team - 1) / team;
        if (q > n) n = q;
    }
    if (n > left) n = left;
    *s = l.next;
    l.next = l.up ? l.next + n * step : l.next - n * step;
    if (l.up ? l.next > l.end : l.next < l.end) l.next = l.end;
    *e = l.next;
    return true;
}
// signed loops are mapped to unsigned by offsetting with 2^63
constexpr unsigned long long BIAS = 1ull << 63;
void begin_loop(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, bool guided) {
    In    in;
    Loop* l;
    if (!g_active) {
        l  = &g_serial;
        *l = Loop{};
    } else {
        const unsigned k = P.loop_no[t_id]++;
        if (loops->size() <= k) loops->resize(k + 1);
        l = &(*loops)[k];
    }
    if (!l->init) {
        l->init   = true;
        l->next   = s;
        l->end    = e;
        l->incr   = incr;
        l->chunk  = chunk;
        l->up     = up;
        l->guided = guided;
    }
}
bool grab_long(long* s, long* e) {
    unsigned long long a, b;
    if (!grab(&a, &b)) return false;
    *s = static_cast<long>(a - BIAS);
    *e = static_cast<long>(b - BIAS);
    return true;
}
bool grab_ull(unsigned long long* s, unsigned long long* e) { return grab(s, e); }
}  // namespace

namespace ompmc {
Result explore(unsigned team, std::uint64_t max_schedules, const std::function<bool()>& body) {
    Result res;
    ++t_inside;
    if (!trail) {
        trail      = new std::vector<Point>;
        shadow     = new std::unordered_map<std::uintptr_t, std::vector<Access>>;
        sync_vc    = new std::unordered_map<const void*, VC>;
        lock_owner = new std::unordered_map<const void*, int>;
        loops      = new std::vector<Loop>;
        singles    = new std::vector<int>;
        deferred   = new std::vector<void*>;
        sem_init(&P.go[0], 0, 0);
    }
    trail->clear();
    g_res       = &res;
    g_team_conf = team;
    g_exploring = true;
    while (true) {
        trail_pos = 0;
        --t_inside;
        const bool go_on = body();
        ++t_inside;
        ++res.schedules;
        if (!go_on || !res.error.empty()) break;
        trail->resize(trail_pos);
        while (!trail->empty() && trail->back().choice + 1 == trail->back().n) trail->pop_back();
        if (trail->empty()) break;
        ++trail->back().choice;
        if (res.schedules >= max_schedules) {
            res.complete = false;
            break;
        }
    }
    g_exploring = false;
    g_res       = nullptr;
    --t_inside;
    return res;
}
}  // namespace ompmc

// ---- memory ---------------------------------------------------------------------------------------------------------
static void* mc_alloc(std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void mc_free(void* p) {
    if (!p) return;
    if (controlled()) {
        In in;
        access(p, malloc_usable_size(p), true);
        deferred->push_back(p);
        return;
    }
    std::free(p);
}
void* operator new(std::size_t n) { return mc_alloc(n); }
void* operator new[](std::size_t n) { return mc_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { mc_free(p); }
void  operator delete[](void* p) noexcept { mc_free(p); }
void  operator delete(void* p, std::size_t) noexcept { mc_free(p); }
void  operator delete[](void* p, std::size_t) noexcept { mc_free(p); }

#define HOOK(name, size, w)                    \
    void name(void* p) {                       \
        if (controlled()) {                    \
            In in;                             \
            access(p, size, w);                \
        }                                      \
    }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define HOOKS(n)                               \
    HOOK(__tsan_read##n, n, false)             \
    HOOK(__tsan_write##n, n, true)             \
    HOOK(__tsan_unaligned_read##n, n, false)   \
    HOOK(__tsan_unaligned_write##n, n, true)   \
    HOOK(__tsan_volatile_read##n, n, false)    \
    HOOK(__tsan_volatile_write##n, n, true)    \
    HOOK(__tsan_unaligned_volatile_read##n, n, false) \
    HOOK(__tsan_unaligned_volatile_write##n, n, true)
HOOKS(1)
HOOKS(2)
HOOKS(4)
HOOKS(8)
HOOKS(16)
void __tsan_read_range(void* p, unsigned long n) {
    if (n && controlled()) {
        In in;
        access(p, n, false);
    }
}
void __tsan_write_range(void* p, unsigned long n) {
    if (n && controlled()) {
        In in;
        access(p, n, true);
    }
}
void __tsan_vptr_update(void** p, void*) {
    if (controlled()) {
        In in;
        access(p, 8, true);
    }
}
void __tsan_vptr_read(void** p) {
    if (controlled()) {
        In in;
        access(p, 8, false);
    }
}
// library functions that touch memory of the code under test
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int   __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    __tsan_read_range(const_cast<void*>(s), n);
    __tsan_write_range(d, n);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    __tsan_read_range(const_cast<void*>(s), n);
    __tsan_write_range(d, n);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    __tsan_write_range(d, n);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    __tsan_read_range(const_cast<void*>(a), n);
    __tsan_read_range(const_cast<void*>(b), n);
    return __real_memcmp(a, b, n);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (controlled()) {
        lock(m);
        return 0;
    }
    return t_inside ? 0 : __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (controlled()) {
        unlock(m);
        return 0;
    }
    return t_inside ? 0 : __real_pthread_mutex_unlock(m);
}

int  __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int  __wrap___cxa_guard_acquire(void* g) {
    const int r = __real___cxa_guard_acquire(g);
    if (controlled()) {
        In in;
        acquire(g);
    }
    return r;
}
void __wrap___cxa_guard_release(void* g) {
    if (controlled()) {
        In in;
        release(g);
    }
    __real___cxa_guard_release(g);
}

// ---- atomics: sequentially consistent, each one a scheduling point ---------------------------------------------------
static void atomic_pre(const volatile void* p, std::size_t n, bool write) {
    if (controlled()) {
        In in;
        visible();
        acquire(const_cast<const void*>(p));
        access(const_cast<const void*>(p), n, write, true);
        release(const_cast<const void*>(p));
    }
}
#define ATOMICS(B, T)                                                                                   \
    T __tsan_atomic##B##_load(const volatile T* p, int) {                                               \
        atomic_pre(p, sizeof(T), false);                                                                \
        return *p;                                                                                      \
    }                                                                                                   \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) {                                            \
        atomic_pre(p, sizeof(T), true);                                                                 \
        *p = v;                                                                                         \
    }                                                                                                   \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) {                                            \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        *p  = v;                                                                                        \
        return o;                                                                                       \
    }                                                                                                   \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) {                                           \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        *p  = o + v;                                                                                    \
        return o;                                                                                       \
    }                                                                                                   \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) {                                           \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        *p  = o - v;                                                                                    \
        return o;                                                                                       \
    }                                                                                                   \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) {                                           \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        *p  = o & v;                                                                                    \
        return o;                                                                                       \
    }                                                                                                   \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) {                                            \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        *p  = o | v;                                                                                    \
        return o;                                                                                       \
    }                                                                                                   \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) {                                           \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        *p  = o ^ v;                                                                                    \
        return o;                                                                                       \
    }                                                                                                   \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) {                \
        atomic_pre(p, sizeof(T), true);                                                                 \
        if (*p == *c) {                                                                                 \
            *p = v;                                                                                     \
            return 1;                                                                                   \
        }                                                                                               \
        *c = *p;                                                                                        \
        return 0;                                                                                       \
    }                                                                                                   \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) {              \
        return __tsan_atomic##B##_compare_exchange_strong(p, c, v, a, b);                               \
    }                                                                                                   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) {                      \
        atomic_pre(p, sizeof(T), true);                                                                 \
        T o = *p;                                                                                       \
        if (o == c) *p = v;                                                                             \
        return o;                                                                                       \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- OpenMP ---------------------------------------------------------------------------------------------------------
int  omp_get_thread_num() { return g_active ? static_cast<int>(t_id) : 0; }
int  omp_get_num_threads() { return g_active ? static_cast<int>(g_team) : 1; }
int  omp_get_max_threads() { return static_cast<int>(g_team_conf); }
int  omp_get_num_procs() { return static_cast<int>(g_team_conf); }
int  omp_in_parallel() { return g_active && g_team > 1; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int  omp_get_level() { return g_active ? 1 : 0; }
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() {
    if (g_active) barrier();
}
void GOMP_critical_start() {
    if (g_active) lock(&critical_obj);
}
void GOMP_critical_end() {
    if (g_active) unlock(&critical_obj);
}
void GOMP_critical_name_start(void** p) {
    if (g_active) lock(p);
}
void GOMP_critical_name_end(void** p) {
    if (g_active) unlock(p);
}
void GOMP_atomic_start() {
    if (g_active) lock(&atomic_obj);
}
void GOMP_atomic_end() {
    if (g_active) unlock(&atomic_obj);
}
bool GOMP_single_start() {
    if (!g_active) return true;
    In in;
    visible();
    const unsigned k = P.single_no[t_id]++;
    if (singles->size() <= k) singles->resize(k + 1, 0);
    return (*singles)[k]++ == 0;
}
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() {
    if (g_active) barrier();
}
#define LOOP(kind, guided)                                                                                                        \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) {                                             \
        begin_loop(i > 0, s + BIAS, e + BIAS, i, c, guided);                                                                      \
        return grab_long(a, b);                                                                                                   \
    }                                                                                                                             \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return grab_long(a, b); }                                                    \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,                  \
                                      unsigned long long c, unsigned long long* a, unsigned long long* b) {                      \
        begin_loop(up, s, e, i, c, guided);                                                                                       \
        return grab_ull(a, b);                                                                                                    \
    }                                                                                                                             \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return grab_ull(a, b); }                     \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) {         \
        pl_start = s, pl_end = e, pl_incr = i, pl_chunk = c, pl_guided = guided, pl_fn = fn, pl_data = data;                      \
        parallel(pl_entry, nullptr, n);                                                                                           \
    }
static long pl_start, pl_end, pl_incr, pl_chunk;
static bool pl_guided;
static void (*pl_fn)(void*);
static void* pl_data;
static void  pl_entry(void*) {
    begin_loop(pl_incr > 0, pl_start + BIAS, pl_end + BIAS, pl_incr, pl_chunk, pl_guided);
    pl_fn(pl_data);
}
LOOP(dynamic, false)
LOOP(nonmonotonic_dynamic, false)
LOOP(static, false)
LOOP(guided, true)
LOOP(nonmonotonic_guided, true)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return grab_long(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return grab_long(a, b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) {
    return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b);
}
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* a, unsigned long long* b) { return grab_ull(a, b); }
bool GOMP_loop_ull_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) {
    return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b);
}
bool GOMP_loop_ull_runtime_next(unsigned long long* a, unsigned long long* b) { return grab_ull(a, b); }
}
