// Driver for Maybe and StorageBuffer (C13).
#include "vh.h"
#include <new>
#include <memory>
#include <amtl/am-maybe.h>
using namespace vh;

static long g_misaligned;
struct alignas(64) Aligned64 {
    Tracked t;
    Aligned64(long v) : t(v) { at(); }
    Aligned64(const Aligned64& o) : t(o.t) { at(); }
    Aligned64(Aligned64&& o) noexcept : t(std::move(o.t)) { at(); }
    Aligned64& operator=(const Aligned64&) = default;
    void at() {
        if ((uintptr_t)this % 64)
            g_misaligned++;
    }
    long get() const { return t.get(); }
};
struct alignas(16) Aligned16 {
    Tracked t;
    long pad[3];
    Aligned16(long v) : t(v) {}
    long get() const { return t.get(); }
};
struct NoAssign {  // constructible only
    const Tracked t;
    NoAssign(long v) : t(v) {}
    NoAssign(const NoAssign& o) : t(o.t) {}
    long get() const { return t.get(); }
};
struct TwoArgs {
    Tracked t;
    std::unique_ptr<long> p;
    TwoArgs(long v) : t(v), p(new long(v)) {}
    TwoArgs(long v, std::unique_ptr<long> q) : t(v), p(std::move(q)) {}
    TwoArgs(TwoArgs&&) noexcept = default;
    TwoArgs& operator=(TwoArgs&&) noexcept = default;
    long get() const { return p && *p == t.get() ? t.get() : -9; }
};
struct Odd {
    char c;
    Tracked t;
    Odd(long v) : c((char)v), t(v) {}
    long get() const { return (char)t.get() == c ? t.get() : -9; }
};
// With an initializer-list constructor that makes something else of the same arguments.
struct Lst {
    Tracked t;
    Lst(long v) : t(v) {}
    Lst(long v, long w) : t(v + w) {}
    Lst(std::initializer_list<long>) : t(-7) {}
    long get() const { return t.get(); }
};
// Its constructors throw when told to.
static int g_throw, g_threw;
struct Thr {
    Tracked t;
    static void now() {
        if (g_throw) {
            g_throw = 0;
            g_threw = 1;
            throw 42;
        }
    }
    static long check(long v) {
        now();
        return v;
    }
    Thr(long v) : t(check(v)) {}
    Thr(const Thr& o) : t((now(), o.t)) {}
    Thr(Thr&& o) : t((now(), std::move(o.t))) {}
    long get() const { return t.get(); }
};
static long val(long v) { return v; }
template <typename T>
static long val(const T& v) { return v.get(); }

// -> has to give a pointer before it can be used at all.
template <typename P>
struct Arrow {
    template <typename M>
    static long get(M&) { return -8; }
};
template <typename T>
struct Arrow<T*> {
    template <typename M>
    static long get(M& m) { return val(*m.operator->()); }
};

struct Fam {
    virtual ~Fam() {}
    virtual void make() = 0;
    virtual void put(int a, long x, int how) = 0;
    virtual void clear(int a, int how) = 0;
    virtual bool copy(int a, int b, int how) = 0;
    virtual void move(int a, int b, int how) = 0;
    virtual void swap(int a, int b) = 0;
    virtual bool write(int a, long x, int how) = 0;
    virtual void obs(Ev& e) = 0;
    virtual void kill() = 0;
};
template <typename T>
struct Impl : Fam {
    static const int NV = 4;
    typedef ke::Maybe<T> M;
    // a byte in front, so that only proper alignment of Maybe itself gives aligned values
    struct Holder {
        char c;
        M m;
    };
    Holder* h[NV] = {};
    M& m(int i) { return h[i]->m; }
    void make() override {
        for (auto& x : h)
            x = new Holder();
    }
    void kill() override {
        for (auto& x : h) {
            delete x;
            x = nullptr;
        }
    }
    void put(int a, long x, int how) override {
        switch (how % 5) {
            case 0:
                m(a).init(x);
                break;
            case 1:
                m(a) = ke::Some(T(x));
                break;
            case 2:
                m(a).~M();
                new (&m(a)) M(ke::Some(T(x)));
                break;
            case 3: {
                T t(x);
                m(a).init(std::move(t));
                break;
            }
            case 4:
                if constexpr (std::is_constructible<T, long, long>::value) {
                    m(a).init(x - 3, 3L);
                } else if constexpr (std::is_constructible<T, long, std::unique_ptr<long>>::value) {
                    m(a).init(x, std::unique_ptr<long>(new long(x)));
                } else if constexpr (std::is_copy_constructible<T>::value) {
                    const T t(x);
                    M n = ke::Some(t);
                    m(a) = n;
                } else {
                    M n;
                    n.init(x);
                    m(a) = std::move(n);
                }
                break;
        }
    }
    void clear(int a, int how) override {
        switch (how % 4) {
            case 0:
                m(a) = M();
                break;
            case 1:
                m(a) = ke::Nothing();
                break;
            case 2:
                m(a).~M();
                new (&m(a)) M(ke::Nothing());
                break;
            case 3:
                if constexpr (std::is_copy_constructible<T>::value) {
                    const M none;
                    m(a) = none;
                } else {
                    M t(std::move(m(a)));
                }
                break;
        }
    }
    bool copy(int a, int b, int how) override {
        if constexpr (std::is_copy_constructible<T>::value) {
            const M& cb = m(b);
            if (a == b)
                how = how % 2;
            switch (how % 4) {
                case 0:
                    m(a) = cb;
                    break;
                case 1:
                    m(a) = m(b);
                    break;
                case 2:
                    m(a).~M();
                    new (&m(a)) M(cb);
                    break;
                case 3: {
                    M t(cb);
                    m(a) = std::move(t);
                    break;
                }
            }
            return true;
        }
        return false;
    }
    void move(int a, int b, int how) override {
        if (a == b)
            how = 0;
        switch (how % 3) {
            case 0:
                m(a) = std::move(m(b));
                break;
            case 1:
                m(a).~M();
                new (&m(a)) M(std::move(m(b)));
                break;
            case 2: {
                M t(std::move(m(b)));
                m(a) = std::move(t);
                break;
            }
        }
    }
    void swap(int a, int b) override { std::swap(m(a), m(b)); }
    bool write(int a, long x, int how) override {
        if constexpr (std::is_move_assignable<T>::value) {
            if (!m(a).isValid())
                return false;
            if (how % 2)
                *m(a) = T(x);
            else
                m(a).get() = T(x);
            return true;
        }
        return false;
    }
    void obs(Ev& e) override {
        std::vector<long> valid, cast;
        std::vector<std::vector<long>> vals;
        long raw = 0, mis = g_misaligned;
        for (int i = 0; i < NV; i++) {
            const M& c = m(i);
            valid.push_back(c.isValid());
            cast.push_back((bool)c);
            if (c.isValid()) {
                raw++;
                if ((uintptr_t)&c.get() % alignof(T))
                    mis++;
                vals.push_back({val(c.get()), val(*c), Arrow<decltype(c.operator->())>::get(c), val(m(i).get()), val(*m(i)),
                                Arrow<decltype(m(i).operator->())>::get(m(i))});
            } else {
                vals.push_back({0, 0, 0, 0, 0, 0});
            }
        }
        e.seq("valid", valid).seq("cast", cast).seq2("vals", vals);
        e.i("live", std::is_same<T, long>::value ? raw : (long)life().live.size()).i("faults", life().faults).i("misaligned", mis);
    }
};
struct MaybeDriver : Driver {
    Fam* f = nullptr;
    void begin() override { life().reset(); g_misaligned = 0; }
    void end() override {
        if (!f)
            return;
        f->kill();
        if (life().live.size() || life().faults) {
            Ev e("leftover");
            e.i("live", (long)life().live.size()).i("faults", life().faults);
        }
        delete f;
        f = nullptr;
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "type") {
            std::string t = l.word();
            if (t == "long")
                f = new Impl<long>();
            else if (t == "tr")
                f = new Impl<Tracked>();
            else if (t == "mo")
                f = new Impl<TrackedMO>();
            else if (t == "a64")
                f = new Impl<Aligned64>();
            else if (t == "a16")
                f = new Impl<Aligned16>();
            else if (t == "noassign")
                f = new Impl<NoAssign>();
            else if (t == "two")
                f = new Impl<TwoArgs>();
            else if (t == "odd")
                f = new Impl<Odd>();
            else if (t == "lst")
                f = new Impl<Lst>();
            else if (t == "thr")
                f = new Impl<Thr>();
            else
                bad_script(t);
            f->make();
            return;
        }
        int a = (int)l.num();
        long b = l.num();
        int how = l.more() ? (int)l.num() : 0;
        g_threw = 0;
        if (op == "putf" || op == "copyf" || op == "movef") {
            // the next construction of a value throws, wherever it happens; only ways that leave the variable in place
            g_throw = 1;
            try {
                if (op == "putf")
                    f->put(a, b, (int[]){0, 1, 3, 4}[how % 4]);
                else if (op == "copyf")
                    f->copy(a, (int)b, (int[]){0, 1, 3}[a == (int)b ? how % 2 : how % 3]);
                else
                    f->move(a, (int)b, how % 2 * 2);
            } catch (int) {
            }
            g_throw = 0;
        } else if (op == "put")
            f->put(a, b, how);
        else if (op == "clear")
            f->clear(a, how);
        else if (op == "copy") {
            if (!f->copy(a, (int)b, how))
                return;
        } else if (op == "move")
            f->move(a, (int)b, how);
        else if (op == "swap") {
            if (a == b)
                return;
            f->swap(a, (int)b);
        } else if (op == "write") {
            if (!f->write(a, b, how))
                return;
        } else
            bad_script(op);
        Ev e(op.c_str());
        e.i("a", a).i("b", b).i("x", b).i("how", how).i("threw", g_threw);
        f->obs(e);
    }
};
int main(int argc, char** argv) {
    MaybeDriver d;
    return drive(argc, argv, &d);
}
