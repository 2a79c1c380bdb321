// A controlled scheduler for the concurrent parts of AMTL. Threads are fibers; control passes only at
// atomic operations, mutex operations, thread-local slot operations and yields, and a schedule says who
// goes next. Include this before the AMTL header under test: it renames the primitives it uses.
#pragma once
#include "vh.h"

#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <ucontext.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <unordered_set>

namespace vs {

enum { kMaxThreads = 4, kStack = 128 * 1024, kMaxSteps = 4000, kHog = 60 };

struct Fiber {
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = true;
    bool yielded = false;
    const void* waits = nullptr;  // mutex it is blocked on
    int id = 0;
    std::function<void()> body;
};

struct Choice {
    int options;
    int taken;
};

struct Sched {
    Fiber f[kMaxThreads];
    ucontext_t main_ctx;
    int n = 0;
    int cur = -1;  // running fiber, -1: outside
    long steps = 0, hog = 0;
    bool stuck = false;
    // the schedule
    std::vector<int> prefix;       // thread numbers to follow while they are runnable
    size_t pos = 0;
    std::vector<int> ran;          // who actually ran at each point
    bool dfs = false;
    std::vector<Choice> stack;     // depth-first search over choices
    size_t depth = 0;
    int preempts = 0, bound = 2;
    uint64_t rnd = 0;
    int stay = 70;
    // recording
    std::string buf;
    std::map<const volatile void*, int> locs;
    bool recording = false;
    std::map<const void*, int> owner;  // held mutexes -> fiber
    std::function<void(const volatile void*)> on_access;
};
inline Sched& S() {
    static Sched* s = new Sched;
    return *s;
}

struct Rec {  // like vh::Ev, into the buffer of the current run
    std::string s;
    explicit Rec(const char* op) { s = std::string("{\"op\":\"") + op + "\",\"t\":" + std::to_string(S().cur); }
    ~Rec() {
        if (S().recording)
            S().buf += s + "}\n";
    }
    Rec& i(const char* k, long long v) {
        s += std::string(",\"") + k + "\":" + std::to_string(v);
        return *this;
    }
    Rec& str(const char* k, const std::string& v) {
        s += std::string(",\"") + k + "\":\"" + v + "\"";
        return *this;
    }
    template <typename C>
    Rec& seq(const char* k, const C& v) {
        s += std::string(",\"") + k + "\":[";
        bool first = true;
        for (auto x : v) {
            if (!first)
                s += ",";
            first = false;
            s += std::to_string((long long)x);
        }
        s += "]";
        return *this;
    }
};

static inline void flush_run() {
    fwrite(S().buf.data(), 1, S().buf.size(), vh::g_out);
    fflush(vh::g_out);
    S().buf.clear();
}
static inline void on_death(int sig) {
    {
        Rec r("signal");
        r.i("sig", sig);
    }
    flush_run();
    _exit(97);
}

static inline bool runnable(int i) {
    Fiber& f = S().f[i];
    if (f.done)
        return false;
    return !f.waits || !S().owner.count(f.waits);
}
static inline uint64_t rnd() {
    uint64_t& x = S().rnd;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return x;
}
// Who goes next; -1: nobody can.
static inline int pick() {
    Sched& s = S();
    std::vector<int> opt;
    bool cur_ok = s.cur >= 0 && runnable(s.cur) && !s.f[s.cur].yielded && s.hog < kHog;
    if (cur_ok)
        opt.push_back(s.cur);
    for (int i = 1; i <= s.n; i++) {
        int j = ((s.cur < 0 ? 0 : s.cur) + i) % s.n;
        if (j != s.cur && runnable(j) && !s.f[j].yielded)
            opt.push_back(j);
    }
    if (opt.empty()) {  // only threads that gave way are left
        for (int i = 1; i <= s.n; i++) {
            int j = ((s.cur < 0 ? 0 : s.cur) + i) % s.n;
            if (runnable(j))
                opt.push_back(j);
        }
        if (opt.empty())
            return -1;
        // the next one in turn, so that every spinning thread gets its turn
        return opt[0];
    }
    if (s.pos < s.prefix.size()) {
        int want = s.prefix[s.pos++];
        for (int o : opt)
            if (o == want)
                return o;
        return opt[0];
    }
    if (opt.size() == 1)
        return opt[0];
    if (s.dfs) {
        int lim = (int)opt.size();
        if (cur_ok && s.preempts >= s.bound)
            lim = 1;
        if (s.depth == s.stack.size())
            s.stack.push_back({lim, 0});
        Choice& c = s.stack[s.depth++];
        if (c.taken >= lim)
            c.taken = lim - 1;
        if (cur_ok && c.taken > 0)
            s.preempts++;
        return opt[c.taken];
    }
    if (s.rnd) {
        if (cur_ok && (int)(rnd() % 100) < s.stay)
            return opt[0];
        return opt[rnd() % opt.size()];
    }
    return opt[0];
}
// A point where other threads may run. Called in a fiber.
static inline void point() {
    Sched& s = S();
    if (s.cur < 0)
        return;
    swapcontext(&s.f[s.cur].ctx, &s.main_ctx);
}
static inline void entry(unsigned i) {
    Fiber& f = S().f[i];
    f.body();
    f.done = true;
    for (;;)
        swapcontext(&f.ctx, &S().main_ctx);
}
// Run all bodies to completion under the schedule in force.
static inline void run(std::vector<std::function<void()>> bodies) {
    Sched& s = S();
    s.n = (int)bodies.size();
    s.steps = s.hog = 0;
    s.stuck = false;
    s.cur = -1;
    for (int i = 0; i < s.n; i++) {
        Fiber& f = s.f[i];
        if (!f.stack)
            f.stack = (char*)malloc(kStack);
        f.done = f.yielded = false;
        f.waits = nullptr;
        f.id = i;
        f.body = bodies[i];
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = kStack;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, (void (*)())entry, 1, (unsigned)i);
    }
    for (;;) {
        bool all = true;
        for (int i = 0; i < s.n; i++)
            all = all && s.f[i].done;
        if (all)
            break;
        int who = pick();
        if (who < 0 || ++s.steps > kMaxSteps) {
            s.cur = -1;
            Rec("stuck").i("deadlock", who < 0);
            s.stuck = true;
            return;  // the fibers are abandoned
        }
        s.hog = who == s.cur ? s.hog + 1 : 0;
        for (int i = 0; i < s.n; i++)
            if (i != who)
                s.f[i].yielded = false;
        s.f[who].yielded = false;
        s.cur = who;
        s.ran.push_back(who);
        swapcontext(&s.main_ctx, &s.f[who].ctx);
    }
    s.cur = -1;
}

// ---- what the primitives do -------------------------------------------------------------------
static inline int loc(const volatile void* p) {
    auto& m = S().locs;
    auto it = m.find(p);
    if (it == m.end())
        it = m.insert({p, (int)m.size() + 1}).first;
    return it->second;
}
static inline const char* mo_name(std::memory_order m) {
    switch (m) {
        case std::memory_order_relaxed:
            return "rlx";
        case std::memory_order_consume:
        case std::memory_order_acquire:
            return "acq";
        case std::memory_order_release:
            return "rel";
        default:
            return "ar";
    }
}
static inline void rec_atomic(const volatile void* p, const char* kind, std::memory_order m) {
    if (S().on_access)
        S().on_access(p);
    if (S().cur < 0)
        return;  // setting up or winding up, with no other thread around
    Rec("at").i("loc", loc(p)).str("k", kind).str("mo", mo_name(m));
}
static inline std::memory_order fail_order(std::memory_order m) {
    return m == std::memory_order_acq_rel ? std::memory_order_acquire
           : m == std::memory_order_release ? std::memory_order_relaxed : m;
}

// A mutex for fibers.
struct MutexCore {
    void lock() {
        Sched& s = S();
        point();
        while (s.owner.count(this)) {
            s.f[s.cur].waits = this;
            point();
        }
        s.f[s.cur].waits = nullptr;
        s.owner[this] = s.cur;
        Rec("at").i("loc", loc(this)).str("k", "load").str("mo", "acq");
        point();
    }
    bool try_lock() {
        Sched& s = S();
        point();
        if (s.owner.count(this)) {
            point();
            return false;
        }
        s.owner[this] = s.cur;
        Rec("at").i("loc", loc(this)).str("k", "load").str("mo", "acq");
        point();
        return true;
    }
    void unlock() {
        Sched& s = S();
        point();
        auto it = s.owner.find(this);
        if (it == s.owner.end() || it->second != s.cur)
            Rec("badunlock").i("held", it != s.owner.end());
        if (it != s.owner.end())
            s.owner.erase(it);
        Rec("at").i("loc", loc(this)).str("k", "store").str("mo", "rel");
        point();
    }
};

// ---- thread-local slots -------------------------------------------------------------------------
struct Keys {
    struct Key {
        bool live = false;
        int gen = 0;
        std::map<int, void*> val;
    };
    std::vector<Key> keys;
    long refuse = 0;       // creations to be refused
    long refuse_store = 0; // stores for which there is no memory
    int gen = 0;
    void reset() { *this = Keys(); }
    long live() {
        long n = 0;
        for (auto& k : keys)
            n += k.live;
        return n;
    }
};
inline Keys& keys() {
    static Keys* k = new Keys;
    return *k;
}
} // namespace vs

static inline int vs_key_create(pthread_key_t* out, void (*)(void*)) {
    vs::point();
    auto& K = vs::keys();
    if (K.refuse > 0) {
        K.refuse--;
        vs::Rec("keyrefused");
        vs::point();
        return EAGAIN;
    }
    size_t i = 0;
    while (i < K.keys.size() && K.keys[i].live)
        i++;
    if (i == K.keys.size())
        K.keys.push_back({});
    K.keys[i] = {};
    K.keys[i].live = true;
    K.keys[i].gen = ++K.gen;
    *out = (pthread_key_t)i;
    vs::Rec("keycreate").i("key", K.keys[i].gen);
    vs::point();
    return 0;
}
static inline bool vs_key_ok(pthread_key_t k) {
    auto& K = vs::keys();
    if (k < K.keys.size() && K.keys[k].live) {
        vs::Rec("keyuse").i("key", K.keys[k].gen);
        return true;
    }
    vs::Rec("badkey");
    return false;
}
static inline int vs_key_delete(pthread_key_t k) {
    vs::point();
    auto& K = vs::keys();
    if (k >= K.keys.size() || !K.keys[k].live) {
        vs::Rec("badkey");
        return EINVAL;
    }
    vs::Rec("keydelete").i("key", K.keys[k].gen);
    K.keys[k].live = false;
    return 0;
}
static inline void* vs_getspecific(pthread_key_t k) {
    vs::point();
    if (!vs_key_ok(k))
        return nullptr;
    auto& m = vs::keys().keys[k].val;
    auto it = m.find(vs::S().cur);
    return it == m.end() ? nullptr : it->second;
}
static inline int vs_setspecific(pthread_key_t k, const void* p) {
    vs::point();
    if (!vs_key_ok(k))
        return EINVAL;
    auto& K = vs::keys();
    if (K.refuse_store > 0 && p && !K.keys[k].val.count(vs::S().cur)) {  // as a thread's first store can be
        K.refuse_store--;
        vs::Rec("storerefused");
        return ENOMEM;
    }
    K.keys[k].val[vs::S().cur] = const_cast<void*>(p);
    return 0;
}

// ---- std:: replacements ---------------------------------------------------------------------------
namespace std {
template <typename T>
class vs_atomic {
    T v_;

  public:
    typedef T value_type;
    vs_atomic() noexcept : v_() {}
    constexpr vs_atomic(T v) noexcept : v_(v) {}
    vs_atomic(const vs_atomic&) = delete;
    vs_atomic& operator=(const vs_atomic&) = delete;
    bool is_lock_free() const volatile { return true; }
    static constexpr bool is_always_lock_free = true;
    T load(memory_order m = memory_order_seq_cst) const volatile {
        vs::point();
        vs::rec_atomic(this, "load", m);
        return v_;
    }
    void store(T x, memory_order m = memory_order_seq_cst) volatile {
        vs::point();
        vs::rec_atomic(this, "store", m);
        v_ = x;
    }
    T exchange(T x, memory_order m = memory_order_seq_cst) volatile {
        vs::point();
        vs::rec_atomic(this, "rmw", m);
        T o = v_;
        v_ = x;
        return o;
    }
    bool compare_exchange_strong(T& e, T x, memory_order s, memory_order f) volatile {
        vs::point();
        if (v_ == e) {
            vs::rec_atomic(this, "rmw", s);
            v_ = x;
            return true;
        }
        vs::rec_atomic(this, "load", f);
        e = v_;
        return false;
    }
    bool compare_exchange_strong(T& e, T x, memory_order m = memory_order_seq_cst) volatile {
        return compare_exchange_strong(e, x, m, vs::fail_order(m));
    }
    bool compare_exchange_weak(T& e, T x, memory_order s, memory_order f) volatile {
        return compare_exchange_strong(e, x, s, f);
    }
    bool compare_exchange_weak(T& e, T x, memory_order m = memory_order_seq_cst) volatile {
        return compare_exchange_strong(e, x, m, vs::fail_order(m));
    }
    template <typename F>
    T rmw(F f, memory_order m) volatile {
        vs::point();
        vs::rec_atomic(this, "rmw", m);
        T o = v_;
        v_ = f(o);
        return o;
    }
    template <typename D>
    T fetch_add(D d, memory_order m = memory_order_seq_cst) volatile { return rmw([=](T o) { return (T)(o + d); }, m); }
    template <typename D>
    T fetch_sub(D d, memory_order m = memory_order_seq_cst) volatile { return rmw([=](T o) { return (T)(o - d); }, m); }
    T fetch_or(T d, memory_order m = memory_order_seq_cst) volatile { return rmw([=](T o) { return (T)(o | d); }, m); }
    T fetch_and(T d, memory_order m = memory_order_seq_cst) volatile { return rmw([=](T o) { return (T)(o & d); }, m); }
    T fetch_xor(T d, memory_order m = memory_order_seq_cst) volatile { return rmw([=](T o) { return (T)(o ^ d); }, m); }
    operator T() const volatile { return load(); }
    T operator=(T x) volatile {
        store(x);
        return x;
    }
    T operator++() volatile { return fetch_add(1) + 1; }
    T operator++(int) volatile { return fetch_add(1); }
    T operator--() volatile { return fetch_sub(1) - 1; }
    T operator--(int) volatile { return fetch_sub(1); }
    template <typename D>
    T operator+=(D d) volatile { return fetch_add(d) + d; }
    template <typename D>
    T operator-=(D d) volatile { return fetch_sub(d) - d; }
    T operator|=(T d) volatile { return fetch_or(d) | d; }
    T operator&=(T d) volatile { return fetch_and(d) & d; }
};
typedef vs_atomic<bool> vs_atomic_bool;
typedef vs_atomic<int> vs_atomic_int;
typedef vs_atomic<unsigned> vs_atomic_uint;
typedef vs_atomic<long> vs_atomic_long;
typedef vs_atomic<size_t> vs_atomic_size_t;
typedef vs_atomic<uintptr_t> vs_atomic_uintptr_t;
typedef vs_atomic<uint32_t> vs_atomic_uint32_t;
typedef vs_atomic<int32_t> vs_atomic_int32_t;
typedef vs_atomic<long long> vs_atomic_llong;
typedef vs_atomic<unsigned long> vs_atomic_ulong;
typedef vs_atomic<unsigned long long> vs_atomic_ullong;
typedef vs_atomic<char> vs_atomic_char;
typedef vs_atomic<unsigned char> vs_atomic_uchar;
typedef vs_atomic<intptr_t> vs_atomic_intptr_t;
typedef vs_atomic<ptrdiff_t> vs_atomic_ptrdiff_t;
typedef vs_atomic<uint64_t> vs_atomic_uint64_t;
typedef vs_atomic<int64_t> vs_atomic_int64_t;
typedef vs_atomic<uint8_t> vs_atomic_uint8_t;

// The free functions on atomics, next to the library's own.
template <typename T> using vs_id_t = typename vs_atomic<T>::value_type;
template <typename T> T atomic_load(const volatile vs_atomic<T>* a) { return a->load(); }
template <typename T> T atomic_load_explicit(const volatile vs_atomic<T>* a, memory_order m) { return a->load(m); }
template <typename T> void atomic_store(volatile vs_atomic<T>* a, vs_id_t<T> x) { a->store(x); }
template <typename T> void atomic_store_explicit(volatile vs_atomic<T>* a, vs_id_t<T> x, memory_order m) { a->store(x, m); }
template <typename T> T atomic_exchange(volatile vs_atomic<T>* a, vs_id_t<T> x) { return a->exchange(x); }
template <typename T> T atomic_exchange_explicit(volatile vs_atomic<T>* a, vs_id_t<T> x, memory_order m) { return a->exchange(x, m); }
template <typename T> bool atomic_compare_exchange_strong(volatile vs_atomic<T>* a, vs_id_t<T>* e, vs_id_t<T> x) { return a->compare_exchange_strong(*e, x); }
template <typename T> bool atomic_compare_exchange_weak(volatile vs_atomic<T>* a, vs_id_t<T>* e, vs_id_t<T> x) { return a->compare_exchange_strong(*e, x); }
template <typename T> bool atomic_compare_exchange_strong_explicit(volatile vs_atomic<T>* a, vs_id_t<T>* e, vs_id_t<T> x, memory_order s, memory_order f) { return a->compare_exchange_strong(*e, x, s, f); }
template <typename T> bool atomic_compare_exchange_weak_explicit(volatile vs_atomic<T>* a, vs_id_t<T>* e, vs_id_t<T> x, memory_order s, memory_order f) { return a->compare_exchange_strong(*e, x, s, f); }
template <typename T, typename D> T atomic_fetch_add(volatile vs_atomic<T>* a, D d) { return a->fetch_add(d); }
template <typename T, typename D> T atomic_fetch_sub(volatile vs_atomic<T>* a, D d) { return a->fetch_sub(d); }
template <typename T, typename D> T atomic_fetch_add_explicit(volatile vs_atomic<T>* a, D d, memory_order m) { return a->fetch_add(d, m); }
template <typename T, typename D> T atomic_fetch_sub_explicit(volatile vs_atomic<T>* a, D d, memory_order m) { return a->fetch_sub(d, m); }

class vs_atomic_flag {
    vs_atomic<bool> b_{false};

  public:
    constexpr vs_atomic_flag() noexcept {}
    constexpr vs_atomic_flag(bool) noexcept {}
    bool test_and_set(memory_order m = memory_order_seq_cst) volatile { return b_.exchange(true, m); }
    void clear(memory_order m = memory_order_seq_cst) volatile { b_.store(false, m); }
};
static inline void vs_atomic_thread_fence(memory_order m) {
    vs::point();
    vs::Rec("at").i("loc", 0).str("k", "fence").str("mo", vs::mo_name(m));
}
class vs_mutex {
    vs::MutexCore c_;

  public:
    constexpr vs_mutex() noexcept {}
    vs_mutex(const vs_mutex&) = delete;
    vs_mutex& operator=(const vs_mutex&) = delete;
    void lock() { c_.lock(); }
    bool try_lock() { return c_.try_lock(); }
    void unlock() { c_.unlock(); }
};
struct vs_once_flag {
    vs_mutex m;
    bool done = false;
};
template <typename F, typename... A>
void vs_call_once(vs_once_flag& o, F&& f, A&&... a) {
    o.m.lock();
    if (!o.done) {
        forward<F>(f)(forward<A>(a)...);
        o.done = true;
    }
    o.m.unlock();
}
namespace this_thread {
static inline void vs_yield() {
    vs::Sched& s = vs::S();
    if (s.cur >= 0)
        s.f[s.cur].yielded = true;
    vs::point();
}
static inline thread::id vs_get_id() {
    vs::point();
    return thread::id((pthread_t)(0x1000 + vs::S().cur));
}
template <typename D>
static inline void vs_sleep_for(const D&) { vs_yield(); }
} // namespace this_thread
} // namespace std

// GCC's builtins work on plain memory.
template <typename T, typename F>
static inline T vs_builtin(volatile T* p, const char* kind, std::memory_order m, F f) {
    vs::point();
    vs::rec_atomic(p, kind, m);
    return f();
}
template <typename T, typename A, typename B>
static inline T vs_sync_vcas(volatile T* p, A e, B x) {
    vs::point();
    T o = *p;
    bool ok = o == (T)e;
    vs::rec_atomic(p, ok ? "rmw" : "load", ok ? std::memory_order_seq_cst : std::memory_order_acquire);
    if (ok)
        *p = (T)x;
    return o;
}
#define VS_SC std::memory_order_seq_cst
template <typename T, typename A>
static inline T vs_sync_fadd(volatile T* p, A d) {
    return vs_builtin(p, "rmw", VS_SC, [=]() { T o = *p; *p = (T)(o + d); return o; });
}
template <typename T, typename A>
static inline T vs_sync_fsub(volatile T* p, A d) {
    return vs_builtin(p, "rmw", VS_SC, [=]() { T o = *p; *p = (T)(o - d); return o; });
}
template <typename T, typename A>
static inline T vs_sync_tas(volatile T* p, A d) {
    return vs_builtin(p, "rmw", std::memory_order_acquire, [=]() { T o = *p; *p = (T)d; return o; });
}
template <typename T>
static inline void vs_sync_rel(volatile T* p) {
    vs_builtin(p, "store", std::memory_order_release, [=]() { *p = 0; return T(); });
}
static inline std::memory_order vs_mo(int m) {
    return m == __ATOMIC_RELAXED ? std::memory_order_relaxed
           : m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME ? std::memory_order_acquire
           : m == __ATOMIC_RELEASE ? std::memory_order_release
           : m == __ATOMIC_ACQ_REL ? std::memory_order_acq_rel : VS_SC;
}
template <typename T>
static inline T vs_at_load(const volatile T* p, int m) {
    return vs_builtin((volatile T*)p, "load", vs_mo(m), [=]() { return *p; });
}
template <typename T, typename A>
static inline void vs_at_store(volatile T* p, A x, int m) {
    vs_builtin(p, "store", vs_mo(m), [=]() { *p = (T)x; return T(); });
}
template <typename T, typename A>
static inline T vs_at_exchange(volatile T* p, A x, int m) {
    return vs_builtin(p, "rmw", vs_mo(m), [=]() { T o = *p; *p = (T)x; return o; });
}
template <typename T, typename A>
static inline bool vs_at_cas(volatile T* p, T* e, A x, bool, int s, int f) {
    vs::point();
    bool ok = *p == *e;
    vs::rec_atomic(p, ok ? "rmw" : "load", vs_mo(ok ? s : f));
    if (ok)
        *p = (T)x;
    else
        *e = *p;
    return ok;
}
template <typename T, typename A>
static inline T vs_at_fadd(volatile T* p, A d, int m) {
    return vs_builtin(p, "rmw", vs_mo(m), [=]() { T o = *p; *p = (T)(o + d); return o; });
}
template <typename T, typename A>
static inline T vs_at_fsub(volatile T* p, A d, int m) {
    return vs_builtin(p, "rmw", vs_mo(m), [=]() { T o = *p; *p = (T)(o - d); return o; });
}

// POSIX mutexes, once-controls and thread identities.
static inline vs::MutexCore& vs_pmutex(pthread_mutex_t* m) { return *(vs::MutexCore*)m; }  // only its address is used
static inline int vs_pmutex_lock(pthread_mutex_t* m) { return vs_pmutex(m).lock(), 0; }
static inline int vs_pmutex_trylock(pthread_mutex_t* m) { return vs_pmutex(m).try_lock() ? 0 : EBUSY; }
static inline int vs_pmutex_unlock(pthread_mutex_t* m) { return vs_pmutex(m).unlock(), 0; }
static inline int vs_ponce(pthread_once_t* o, void (*f)()) {
    static_assert(sizeof(*o) >= sizeof(int), "");
    vs::MutexCore& c = *(vs::MutexCore*)o;
    c.lock();
    if (*o != PTHREAD_ONCE_INIT + 1) {
        f();
        *o = PTHREAD_ONCE_INIT + 1;
    }
    c.unlock();
    return 0;
}
static inline pthread_t vs_pself() {
    vs::point();
    return (pthread_t)(0x1000 + vs::S().cur);
}

// From here on the code under test gets these.
#define atomic vs_atomic
#define atomic_bool vs_atomic_bool
#define atomic_int vs_atomic_int
#define atomic_uint vs_atomic_uint
#define atomic_long vs_atomic_long
#define atomic_size_t vs_atomic_size_t
#define atomic_uintptr_t vs_atomic_uintptr_t
#define atomic_uint32_t vs_atomic_uint32_t
#define atomic_int32_t vs_atomic_int32_t
#define atomic_llong vs_atomic_llong
#define atomic_ulong vs_atomic_ulong
#define atomic_ullong vs_atomic_ullong
#define atomic_char vs_atomic_char
#define atomic_uchar vs_atomic_uchar
#define atomic_intptr_t vs_atomic_intptr_t
#define atomic_ptrdiff_t vs_atomic_ptrdiff_t
#define atomic_uint64_t vs_atomic_uint64_t
#define atomic_int64_t vs_atomic_int64_t
#define atomic_uint8_t vs_atomic_uint8_t
#define atomic_flag vs_atomic_flag
#define atomic_thread_fence vs_atomic_thread_fence
#define mutex vs_mutex
#define once_flag vs_once_flag
#define call_once vs_call_once
#define yield vs_yield
#define get_id vs_get_id
#define sleep_for vs_sleep_for
#define sched_yield() (std::this_thread::vs_yield(), 0)
#define pthread_key_create vs_key_create
#define pthread_key_delete vs_key_delete
#define pthread_getspecific vs_getspecific
#define pthread_setspecific vs_setspecific
#define __sync_val_compare_and_swap(p, e, x) vs_sync_vcas(p, e, x)
#define __sync_bool_compare_and_swap(p, e, x) (vs_sync_vcas(p, e, x) == (e))
#define __sync_fetch_and_add(p, d) vs_sync_fadd(p, d)
#define __sync_fetch_and_sub(p, d) vs_sync_fsub(p, d)
#define __sync_add_and_fetch(p, d) (vs_sync_fadd(p, d) + (d))
#define __sync_sub_and_fetch(p, d) (vs_sync_fsub(p, d) - (d))
#define __sync_lock_test_and_set(p, d) vs_sync_tas(p, d)
#define __sync_lock_release(p) vs_sync_rel(p)
#define __sync_synchronize() std::vs_atomic_thread_fence(VS_SC)
#define __atomic_load_n(p, m) vs_at_load(p, m)
#define __atomic_store_n(p, x, m) vs_at_store(p, x, m)
#define __atomic_exchange_n(p, x, m) vs_at_exchange(p, x, m)
#define __atomic_compare_exchange_n(p, e, x, w, s, f) vs_at_cas(p, e, x, w, s, f)
#define __atomic_fetch_add(p, d, m) vs_at_fadd(p, d, m)
#define __atomic_fetch_sub(p, d, m) vs_at_fsub(p, d, m)
#define __atomic_add_fetch(p, d, m) (vs_at_fadd(p, d, m) + (d))
#define __atomic_sub_fetch(p, d, m) (vs_at_fsub(p, d, m) - (d))
#define __atomic_thread_fence(m) std::vs_atomic_thread_fence(vs_mo(m))
#define pthread_mutex_init(m, a) ((void)(m), 0)
#define pthread_mutex_destroy(m) ((void)(m), 0)
#define pthread_mutex_lock vs_pmutex_lock
#define pthread_mutex_trylock vs_pmutex_trylock
#define pthread_mutex_unlock vs_pmutex_unlock
#define pthread_once vs_ponce
#define pthread_self vs_pself

// A failing assertion: expected ones jump back to who asked, others end the run.
static jmp_buf* vs_expecting[vs::kMaxThreads + 1];
#define vs_expect_assert vs_expecting[vs::S().cur + 1]
extern "C" void __assert_fail(const char* expr, const char*, unsigned, const char*) noexcept {
    if (vs_expect_assert) {
        jmp_buf* j = vs_expect_assert;
        longjmp(*j, 1);
    }
    vs::Rec("assert");
    vs::flush_run();
    fprintf(stderr, "assertion failed: %s\n", expr);
    _exit(96);
}

namespace vs {
// One test program: what is set up, what each thread does, what is checked at the end.
struct Program {
    virtual ~Program() {}
    virtual void setup() = 0;                 // emits the "begin" event
    virtual std::vector<std::function<void()>> bodies() = 0;
    virtual void finish() = 0;                // emits closing events
};
static inline void once(Program& p, std::unordered_set<std::string>& seen) {
    Sched& s = S();
    s.buf.clear();
    s.locs.clear();
    s.owner.clear();
    s.ran.clear();
    s.pos = 0;
    s.depth = 0;
    s.preempts = 0;
    s.recording = true;
    p.setup();
    run(p.bodies());
    if (!s.stuck)
        p.finish();
    s.recording = false;
    std::string body = s.buf;
    if (seen.insert(body).second) {
        s.recording = true;
        // the schedule is for whoever wants to replay this run
        Rec("schedule").seq("ran", s.ran);
        s.recording = false;
        flush_run();
    }
    s.buf.clear();
}
// run <thread numbers...>                 one schedule
// explore <preemption bound> <limit>      all schedules up to the bound, at most so many
// random <runs> <seed> <stay percent>
static inline bool command(const std::string& op, vh::Line& l, Program& p) {
    Sched& s = S();
    std::unordered_set<std::string> seen;
    s.prefix.clear();
    s.dfs = false;
    s.rnd = 0;
    if (op == "run") {
        while (l.more())
            s.prefix.push_back((int)l.num());
        once(p, seen);
        return true;
    }
    if (op == "explore") {
        s.bound = (int)l.num();
        long limit = l.num();
        s.dfs = true;
        s.stack.clear();
        for (long k = 0; k < limit; k++) {
            once(p, seen);
            while (!s.stack.empty() && s.stack.back().taken + 1 >= s.stack.back().options)
                s.stack.pop_back();
            if (s.stack.empty())
                break;
            s.stack.back().taken++;
        }
        s.dfs = false;
        return true;
    }
    if (op == "random") {
        long runs = l.num();
        uint64_t seed = l.u64();
        s.stay = (int)l.num();
        for (long k = 0; k < runs; k++) {
            s.rnd = (seed + 1) * 0x9e3779b97f4a7c15ull + (uint64_t)k * 0xbf58476d1ce4e5b9ull + 1;
            rnd();
            rnd();
            once(p, seen);
        }
        s.rnd = 0;
        return true;
    }
    return false;
}
static inline void install() {
    for (int sig : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL})
        signal(sig, on_death);
}
} // namespace vs
