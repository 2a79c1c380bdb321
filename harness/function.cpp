// Driver for Function (C12).
#include "vh.h"
#include <memory>
#include <amtl/am-function.h>
using namespace vh;

static long g_news;
static bool g_counting;
void* operator new(size_t n) {
    if (g_counting)
        g_news++;
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
void* operator new(size_t n, std::align_val_t a) {
    if (g_counting)
        g_news++;
    void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
    if (!p)
        abort();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
struct Quiet {  // what the recorder itself allocates does not count
    bool was;
    Quiet() : was(g_counting) { g_counting = false; }
    ~Quiet() { g_counting = was; }
};

// Lifetime of one captured object, with nothing but an address behind it.
template <typename Self>
struct Alive {
    void up() {
        Quiet q;
        life().construct(this);
        if ((uintptr_t)this % alignof(Self))
            life().fault("misaligned");
    }
    Alive() { up(); }
    Alive(const Alive& o) {
        o.use();
        up();
    }
    Alive(Alive&& o) {
        o.use();
        up();
    }
    Alive& operator=(const Alive&) = default;
    ~Alive() {
        Quiet q;
        life().destroy(this);
    }
    void use() const {
        Quiet q;
        life().use(this);
    }
};
typedef std::unique_ptr<long> Ptr;
struct SigA {
    typedef long Sig(long, Ptr, long&, const long&);
    typedef ke::Function<Sig> Fn;
    static long call(const Fn& f, long a, long p, long& ref, const long& t) {
        Quiet q;
        return f(a, Ptr(new long(p)), ref, t);
    }
};
// The value x lives in V; a moved-from object holds -1.
template <typename V, int Pad, size_t Align>
struct alignas(Align) Call : Alive<Call<V, Pad, Align>> {
    typedef Alive<Call<V, Pad, Align>> B;
    V x;
    char pad[Pad];
    explicit Call(long v) : x((V)v) { memset(pad, 5, sizeof(pad)); }
    Call(const Call& o) : B(o), x(o.x) { memcpy(pad, o.pad, sizeof(pad)); }
    Call(Call&& o) : B(std::move(o)), x(o.x) {
        memcpy(pad, o.pad, sizeof(pad));
        o.x = (V)-1;
    }
    long operator()(long a, Ptr p, long& ref, const long& t) const {
        B::use();
        ref++;
        for (char c : pad)
            if (c != 5)
                return -1;
        return x + a + 2 * *p + 3 * t;
    }
};
template <typename V, size_t Align>
struct alignas(Align) Call<V, 0, Align> : Alive<Call<V, 0, Align>> {
    typedef Alive<Call<V, 0, Align>> B;
    V x;
    explicit Call(long v) : x((V)v) {}
    Call(const Call& o) : B(o), x(o.x) {}
    Call(Call&& o) : B(std::move(o)), x(o.x) { o.x = (V)-1; }
    long operator()(long a, Ptr p, long& ref, const long& t) const {
        B::use();
        ref++;
        return x + a + 2 * *p + 3 * t;
    }
};
typedef Call<long, 0, alignof(long)> Word;
typedef Call<long, 8, alignof(long)> TwoWords;
typedef Call<int, 12, alignof(int)> Ints;
typedef Call<long, 16, alignof(long)> Three;
typedef Call<long, 200, alignof(long)> Big;
typedef Call<long, 1, 64> Aligned;
typedef Call<char, 16, 1> Odd;
static_assert(sizeof(Word) == 8 && sizeof(TwoWords) == 16 && sizeof(Ints) == 16 && sizeof(Three) == 24 && sizeof(Odd) == 17, "");
template <long X>
struct Stateless {
    long operator()(long a, Ptr p, long& ref, const long& t) const {
        ref++;
        return X + a + 2 * *p + 3 * t;
    }
};
template <long X>
static long plain(long a, Ptr p, long& ref, const long& t) {
    ref++;
    return X + a + 2 * *p + 3 * t;
}
typedef SigA::Fn Fn;
typedef long (*PlainPtr)(long, Ptr, long&, const long&);
// Captures a Function
static Fn* g_inner;
static bool g_expose;
struct NestCall : Alive<NestCall> {
    Fn inner;
    explicit NestCall(const Fn& f) : inner(f) {}
    NestCall(const NestCall& o) : Alive<NestCall>(o), inner(o.inner) {}
    NestCall(NestCall&& o) : Alive<NestCall>(std::move(o)), inner(std::move(o.inner)) {}
    long operator()(long a, Ptr p, long& ref, const long& t) const {
        use();
        if (g_expose) {  // hand out the captured Function; only the outermost layer does
            g_expose = false;
            g_inner = const_cast<Fn*>(&inner);
            return 0;
        }
        ref++;
        return 100000 + inner(a, std::move(p), ref, t);
    }
};

struct FnDriver : Driver {
    static const int NV = 4;
    // canaries on both sides of every variable
    struct Slot {
        long c1 = 0x5a5a5a5a;
        Fn* f = nullptr;
    };
    Fn* v[NV];
    void begin() override {
        life().reset();
        for (auto& x : v)
            x = new Fn();
    }
    void end() override {
        for (auto& x : v) {
            delete x;
            x = nullptr;
        }
        if (life().live.size() || life().faults) {
            Ev e("leftover");
            e.i("live", (long)life().live.size()).i("faults", life().faults);
        }
    }
    void obs(Ev& e) {
        std::vector<long> full;
        for (auto x : v)
            full.push_back(!!*x);
        e.seq("full", full).i("live", (long)life().live.size()).i("faults", life().faults);
    }
    // give variable a the callable c in one of the ways there are
    template <typename C>
    long store(int a, C c, int how) {
        long before;
        auto on = [&]() {
            before = g_news;
            g_counting = true;
        };
        long used = 0;
        auto off = [&]() {
            g_counting = false;
            used = g_news - before;
        };
        switch (how % 6) {
            case 0:
                on();
                *v[a] = std::move(c);
                off();
                break;
            case 1:
                on();
                *v[a] = c;
                off();
                break;
            case 2: {
                const C cc(c);
                on();
                *v[a] = cc;
                off();
                break;
            }
            case 3:
                v[a]->~Fn();
                on();
                new (v[a]) Fn(std::move(c));
                off();
                break;
            case 4:
                v[a]->~Fn();
                on();
                new (v[a]) Fn(c);
                off();
                break;
            case 5: {
                const C cc(c);
                v[a]->~Fn();
                on();
                new (v[a]) Fn(cc);
                off();
                break;
            }
        }
        return used;
    }
    void cmd(const std::string& op, Line& l) override {
        int a = (int)l.num();
        if (op == "set") {
            std::string k = l.word();
            long x = l.num();
            int how = (int)l.num();
            long heap = 0;
            if (k == "fp" || k == "stateless")
                x = 1 + x % 3;
            if (k == "fp" && how >= 6) {  // the function itself rather than a pointer
                long before = g_news;
                g_counting = true;
                if (how % 2) {
                    *v[a] = plain<2>;
                } else {
                    g_counting = false;
                    v[a]->~Fn();
                    g_counting = true;
                    new (v[a]) Fn(plain<2>);
                }
                g_counting = false;
                heap = g_news - before;
                x = 2;
            } else if (k == "fp") {
                PlainPtr p = x == 1 ? plain<1> : x == 2 ? plain<2> : plain<3>;
                heap = store<PlainPtr>(a, p, how);
            } else if (k == "stateless") {
                heap = x == 1 ? store(a, Stateless<1>(), how) : x == 2 ? store(a, Stateless<2>(), how) : store(a, Stateless<3>(), how);
            } else if (k == "word") {
                heap = store(a, Word(x), how);
            } else if (k == "twowords") {
                heap = store(a, TwoWords(x), how);
            } else if (k == "ints") {
                heap = store(a, Ints(x), how);
            } else if (k == "three") {
                heap = store(a, Three(x), how);
            } else if (k == "big") {
                heap = store(a, Big(x), how);
            } else if (k == "aligned") {
                heap = store(a, Aligned(x), how);
            } else if (k == "odd") {
                heap = store(a, Odd(x), how);
            } else {
                bad_script(k);
            }
            Ev e("set");
            e.i("a", a).str("k", k.c_str()).i("x", x).i("how", how).i("heap", heap);
            obs(e);
        } else if (op == "null") {
            int how = (int)l.num() % 7;
            switch (how) {
                case 0:
                    *v[a] = nullptr;
                    break;
                case 1:
                    *v[a] = Fn();
                    break;
                case 2:
                    v[a]->~Fn();
                    new (v[a]) Fn(nullptr);
                    break;
                case 3: {
                    Fn none;
                    *v[a] = none;
                    break;
                }
                case 4: {
                    const Fn none;
                    *v[a] = none;
                    break;
                }
                case 5: {
                    Fn none;
                    v[a]->~Fn();
                    new (v[a]) Fn(none);
                    break;
                }
                case 6: {
                    PlainPtr p = nullptr;
                    *v[a] = p;
                    break;
                }
            }
            Ev e("null");
            e.i("a", a).i("how", how);
            obs(e);
        } else if (op == "copy") {
            int b = (int)l.num(), how = (int)l.num() % 6;
            const Fn& cb = *v[b];
            if (a == b && how >= 2 && how != 4)
                how = 1;
            switch (how) {
                case 0:
                    *v[a] = cb;
                    break;
                case 1:
                    *v[a] = *v[b];
                    break;
                case 2:
                    v[a]->~Fn();
                    new (v[a]) Fn(cb);
                    break;
                case 3:
                    v[a]->~Fn();
                    new (v[a]) Fn(*v[b]);
                    break;
                case 4: {
                    Fn t(cb);
                    *v[a] = std::move(t);
                    if (t)
                        life().fault("moved-from Function is not empty");
                    break;
                }
                case 5: {
                    struct {
                        Fn f;
                    } s1 = {cb}, s2;
                    s2 = s1;
                    v[a]->~Fn();
                    new (v[a]) Fn(std::move(s2.f));
                    break;
                }
            }
            Ev e("copy");
            e.i("a", a).i("b", b).i("how", how);
            obs(e);
        } else if (op == "move") {
            int b = (int)l.num(), how = (int)l.num() % 3;
            if (a == b)
                how = 0;
            if (how == 0) {
                *v[a] = std::move(*v[b]);
            } else if (how == 1) {
                v[a]->~Fn();
                new (v[a]) Fn(std::move(*v[b]));
            } else {
                Fn t(std::move(*v[b]));
                Fn u;
                u = std::move(t);
                *v[a] = std::move(u);
            }
            Ev e("move");
            e.i("a", a).i("b", b).i("how", how);
            obs(e);
        } else if (op == "swap") {
            int b = (int)l.num();
            if (a == b)
                return;
            std::swap(*v[a], *v[b]);
            Ev e("swap");
            e.i("a", a).i("b", b);
            obs(e);
        } else if (op == "nest") {
            int b = (int)l.num(), how = (int)l.num();
            if (!*v[b])
                return;
            const Fn& cb = *v[b];
            store(a, NestCall(cb), how);
            Ev e("nest");
            e.i("a", a).i("b", b);
            obs(e);
        } else if (op == "unnest") {
            int how = (int)l.num() % 3;
            if (!*v[a])
                return;
            g_inner = nullptr;
            g_expose = true;
            long z = 0;
            SigA::call(*v[a], 0, 0, z, 0);
            g_expose = false;
            if (!g_inner)
                return;
            if (how == 0)
                *v[a] = *g_inner;
            else if (how == 1)
                *v[a] = *(const Fn*)g_inner;
            else
                *v[a] = std::move(*g_inner);
            Ev e("unnest");
            e.i("a", a).i("how", how);
            obs(e);
        } else if (op == "call") {
            long x = l.num(), p = l.num(), t = l.num();
            if (!*v[a])
                return;
            long ref = 0;
            const Fn& f = *v[a];
            long res = SigA::call(f, x, p, ref, t);
            Ev e("call");
            e.i("a", a).i("x", x).i("p", p).i("t", t).i("res", res).i("ref", ref);
            obs(e);
        } else {
            bad_script(op);
        }
    }
};
int main(int argc, char** argv) {
    FnDriver d;
    return drive(argc, argv, &d);
}
