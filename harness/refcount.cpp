// Driver for single-threaded reference counting (C05, and the thread-safe families for C06).
#include "vh.h"
#include <optional>
#include <amtl/am-refcounting.h>
#include <amtl/am-refcounting-threadsafe.h>

using namespace vh;

static const int NO = 9;          // objects 1..8
static bool g_alive[NO];
static long g_faults;

template <typename B>
struct Body {                     // what every object carries
    int id;
    long* cell;
    ke::RefPtr<B> next;
    void born(int i) {
        id = i;
        cell = new long(i);
        if (g_alive[i])
            g_faults++;
        g_alive[i] = true;
    }
    void died() {
        if (id <= 0 || id >= NO || !g_alive[id] || *cell != id)
            g_faults++;
        else
            g_alive[id] = false;
        delete cell;
        cell = nullptr;
        id = -1;
    }
};

struct B1 : ke::Refcounted<B1>, Body<B1> {
    virtual ~B1() { died(); }
};
struct D1 : B1 {
    int extra = 5;
};
struct B2 : ke::VirtualRefcounted, Body<B2> {
    ~B2() { died(); }
};
struct D2 : B2 {
    int extra = 5;
};
struct IThing : ke::IRefcounted {
    virtual int what() = 0;
};
struct B3 : IThing, ke::Refcounted<B3>, Body<B3> {
    KE_IMPL_REFCOUNTING(B3)
    int what() override { return 3; }
    ~B3() { died(); }
};
struct D3 : B3 {
    int extra = 5;
};
struct B4 : ke::RefcountedThreadsafe<B4>, Body<B4> {
    virtual ~B4() { died(); }
};
struct D4 : B4 {
    int extra = 5;
};
struct B5 : ke::VirtualRefcountedThreadsafe, Body<B5> {
    ~B5() { died(); }
};
struct D5 : B5 {
    int extra = 5;
};
struct B6 : IThing, ke::RefcountedThreadsafe<B6>, Body<B6> {
    KE_IMPL_REFCOUNTING_TS(B6)
    int what() override { return 6; }
    ~B6() { died(); }
};
struct D6 : B6 {
    int extra = 5;
};

struct IRun {
    virtual ~IRun() {}
    virtual bool cmd(const std::string& op, int a, int b, int how) = 0;
    virtual std::vector<long> vals() = 0;
    virtual long odd() = 0;
    virtual void fin() = 0;
};

// Base variables 0,1; derived variable 2; AlreadyRefed<Base> 3,4; AlreadyRefed<Derived> 5.
template <typename B, typename D>
struct Run : IRun {
    typedef ke::RefPtr<B> PB;
    typedef ke::RefPtr<D> PD;
    typedef ke::AlreadyRefed<B> AB;
    typedef ke::AlreadyRefed<D> AD;
    PB pb[2];
    PD pd[1];
    std::optional<AB> ab[2];
    std::optional<AD> ad[1];
    B* obj[NO] = {};
    bool der[NO] = {};
    bool raw[NO] = {};
    int man[NO] = {};
    // Holdings of many references each: RefPtrs, or references held by hand.
    struct Many {
        unsigned long n;
        std::vector<PB> p;
    };
    std::vector<Many> many[NO];
    void drop_many(int o) {
        Many m = std::move(many[o].back());
        many[o].pop_back();
        B* t = obj[o];
        for (unsigned long i = 0; i < m.n; i++)
            t->Release();
    }

    static bool isB(int v) { return v == 0 || v == 1; }
    static bool isD(int v) { return v == 2; }
    static bool isP(int v) { return v >= 0 && v <= 2; }
    static bool isAB(int v) { return v == 3 || v == 4; }
    static bool isAD(int v) { return v == 5; }
    PB& b(int v) { return pb[v]; }
    PD& d(int) { return pd[0]; }
    std::optional<AB>& a(int v) { return ab[v - 3]; }
    std::optional<AD>& e(int) { return ad[0]; }

    long idof(B* p) {
        if (!p)
            return 0;
        for (int i = 1; i < NO; i++)
            if (obj[i] == p && g_alive[i])
                return i;
        return -1;  // refers to nothing that is alive
    }
    template <typename O>
    long peek(O& o) {
        if (!o || !*o)
            return 0;
        return idof(o->operator->());
    }
    long value(int v) {
        if (isB(v))
            return idof(b(v).get());
        if (isD(v))
            return idof(d(v).get());
        if (isAB(v))
            return peek(a(v));
        return peek(e(v));
    }
    std::vector<long> vals() override {
        std::vector<long> r;
        for (int v = 0; v < 6; v++)
            r.push_back(value(v));
        return r;
    }
    template <typename P, typename T>
    long odd1(P& p) {
        const P& c = p;
        T* t = p.get();
        long n = 0;
        n += (*p != t) + (*c != t) + (static_cast<T*>(c) != t) + (static_cast<T*>(p) != t);
        n += (!p) != (t == nullptr);
        n += (p ? true : false) != (t != nullptr);
        n += *p.byref() != t;
        n += *p.byref_const() != t;
        n += *reinterpret_cast<T**>(p.address()) != t;
        if (t) {
            n += p->id != t->id || &static_cast<T&>(p) != t;
            n += p->id != *p->cell;
        }
        return n;
    }
    long odd() override {
        long n = 0;
        for (auto& p : pb)
            n += odd1<PB, B>(p);
        for (auto& p : pd)
            n += odd1<PD, D>(p);
        for (auto& x : ab)
            if (x)
                n += (!*x) != (*x == (B*)nullptr) || (!*x) == (*x != (B*)nullptr);
        return n;
    }
    B* mk(int id) {
        // Odd identities are of the derived class.
        B* p;
        if (id & 1)
            p = new D();
        else
            p = new B();
        p->born(id);
        obj[id] = p;
        der[id] = id & 1;
        raw[id] = false;
        man[id] = 0;
        return p;
    }
    D* dd(int id) { return static_cast<D*>(obj[id]); }
    template <typename P>
    static void byval(P& dst, P tmp) {
        dst = std::move(tmp);
    }
    template <typename P, typename T>
    void assign_obj(P& p, T* t, int how) {  // t is alive
        switch (how % 5) {
            case 0: p = t; break;
            case 1: { P q(t); p.~P(); new (&p) P(std::move(q)); break; }
            case 2: t->AddRef(); p = ke::AdoptRef(t); break;
            case 3: byval(p, P(t)); break;
            case 4: { P q; q = t; p = q; break; }
        }
    }
    template <typename P, typename Q>
    void copyvar(P& p, Q& q, int how, bool same) {
        const Q& cq = q;
        switch (how % 7) {
            case 0: p = cq; break;
            case 1: p = q.get(); break;
            case 2:
                if (same)
                    p = cq;
                else {
                    p.~P();
                    new (&p) P(cq);
                }
                break;
            case 3: p = *cq; break;
            case 4: byval<P>(p, P(cq)); break;
            case 5: { P t = cq; p = t; break; }
            case 6:
                if (q.get()) {
                    q->AddRef();
                    p = ke::AdoptRef(q.get());
                } else {
                    p = P();
                }
                break;
        }
    }
    template <typename P, typename Q>
    void movevar(P& p, Q& q, int how, bool same) {
        switch (how % 5) {
            case 0: p = std::move(q); break;
            case 1:
                if (same)
                    p = std::move(q);
                else {
                    p.~P();
                    new (&p) P(std::move(q));
                }
                break;
            case 2: p = q.take(); break;
            case 3: p = q.forget(); break;
            case 4: { P t(q.take()); p = std::move(t); break; }
        }
    }
    template <typename P, typename T>
    void nullvar(P& p, int how) {
        switch (how % 5) {
            case 0: p = nullptr; break;
            case 1: p = ke::AlreadyRefed<T>(nullptr); break;
            case 2: p = P(); break;
            case 3: p.~P(); new (&p) P(); break;
            case 4: p = (T*)nullptr; break;
        }
    }
    B* ptr(int v) { return isB(v) ? b(v).get() : isD(v) ? (B*)d(v).get() : nullptr; }

    bool cmd(const std::string& op, int x, int y, int how) override {
        if (op == "new") {
            if (!isP(x) || g_alive[y] || (isD(x) && !(y & 1)))
                return false;
            mk(y);
            if (isB(x)) {
                if ((how & 8) && der[y])
                    assign_obj<PB, D>(b(x), dd(y), how & 7 ? 0 : 2);
                else
                    assign_obj<PB, B>(b(x), obj[y], how);
            } else
                assign_obj<PD, D>(d(x), dd(y), how);
            return true;
        }
        if (op == "newraw") {
            if (g_alive[x])
                return false;
            mk(x);
            raw[x] = true;
            return true;
        }
        if (op == "delraw") {
            if (!g_alive[x] || !raw[x])
                return false;
            delete obj[x];
            raw[x] = false;
            return true;
        }
        if (op == "setraw") {
            if (!isP(x) || !g_alive[y] || !raw[y] || (isD(x) && !der[y]))
                return false;
            raw[y] = false;
            if (isB(x))
                assign_obj<PB, B>(b(x), obj[y], how);
            else
                assign_obj<PD, D>(d(x), dd(y), how);
            return true;
        }
        if (op == "null") {
            if (isB(x))
                nullvar<PB, B>(b(x), how);
            else if (isD(x))
                nullvar<PD, D>(d(x), how);
            else
                return false;
            return true;
        }
        if (op == "copy" || op == "move") {
            bool mv = op == "move";
            if (isAB(x) && isAB(y)) {
                if (x == y || !a(y) || a(x))
                    return false;
                if (mv)
                    a(x).emplace(std::move(*a(y)));
                else
                    a(x).emplace(const_cast<const AB&>(*a(y)));
                return true;
            }
            if (!isP(x) || !isP(y) || (isD(x) && !isD(y)))
                return false;
            if (isB(x) && isB(y))
                mv ? movevar(b(x), b(y), how, x == y) : copyvar(b(x), b(y), how, x == y);
            else if (isB(x))
                mv ? movevar(b(x), d(y), how, false) : copyvar(b(x), d(y), how, false);
            else
                mv ? movevar(d(x), d(y), how, true) : copyvar(d(x), d(y), how, true);
            return true;
        }
        if (op == "link") {
            if (!isP(x) || !isP(y) || !ptr(x))
                return false;
            PB& n = ptr(x)->next;
            if (isB(y))
                copyvar(n, b(y), how, false);
            else
                copyvar(n, d(y), how, false);
            return true;
        }
        if (op == "linkmove") {
            if (!isP(x) || !isB(y) || x == y || !ptr(x))
                return false;
            PB& n = ptr(x)->next;
            movevar(n, b(y), how, false);
            return true;
        }
        if (op == "unlink") {
            if (!isP(x) || !ptr(x))
                return false;
            nullvar<PB, B>(ptr(x)->next, how);
            return true;
        }
        if (op == "chase") {
            if (!isB(x) || !ptr(x))
                return false;
            PB& p = b(x);
            switch (how % 3) {
                case 0: p = p->next; break;
                case 1: p = p->next.get(); break;
                case 2: p = *p->next; break;
            }
            return true;
        }
        if (op == "chasemove") {
            if (!isB(x) || !ptr(x) || ptr(x)->next.get() == ptr(x))
                return false;
            PB& p = b(x);
            switch (how % 3) {
                case 0: p = std::move(p->next); break;
                case 1: p = p->next.take(); break;
                case 2: p = p->next.forget(); break;
            }
            return true;
        }
        if (op == "chaseover") {
            if (!isP(x) || !ptr(x) || !ptr(x)->next.get())
                return false;
            B* o = ptr(x);
            switch (how % 3) {
                case 0: o->next = o->next->next; break;
                case 1: o->next = o->next->next.get(); break;
                case 2: o->next = *o->next->next; break;
            }
            return true;
        }
        if (op == "addref") {
            if (!isP(x) || !ptr(x))
                return false;
            man[value(x)]++;
            ptr(x)->AddRef();
            return true;
        }
        if (op == "hold" || op == "grasp") {  // y references at once, held by hand or by RefPtrs
            if (!isP(x) || !ptr(x))
                return false;
            B* t = ptr(x);
            Many m{0, {}};
            unsigned long n = op == "hold" ? (unsigned long)y << (how & 31) : 0;
            for (unsigned long i = 0; i < n; i++)
                t->AddRef();
            m.n = n;
            if (op == "grasp")
                m.p.assign((size_t)y, PB(t));
            many[value(x)].push_back(std::move(m));
            return true;
        }
        if (op == "loose") {
            if (!g_alive[x] || many[x].empty())
                return false;
            drop_many(x);
            return true;
        }
        if (op == "release") {
            if (!g_alive[x] || man[x] <= 0)
                return false;
            man[x]--;
            obj[x]->Release();
            return true;
        }
        if (op == "adopt") {
            if (!g_alive[y] || man[y] <= 0)
                return false;
            if (isB(x)) {
                man[y]--;
                if (how & 1)
                    b(x) = ke::AdoptRef(obj[y]);
                else {
                    PB t(ke::AdoptRef(obj[y]));
                    b(x) = std::move(t);
                }
            } else if (isD(x) && der[y]) {
                man[y]--;
                d(x) = ke::AdoptRef(dd(y));
            } else if (isAB(x) && !a(x)) {
                man[y]--;
                a(x).emplace(ke::AdoptRef(obj[y]));
            } else
                return false;
            return true;
        }
        if (op == "detach") {  // the reference becomes one held by hand
            if (isAB(x) && a(x)) {
                long o = value(x);
                if (o <= 0)
                    return false;
                man[o]++;
                if (a(x)->take() != obj[o])
                    g_faults++;
                a(x).reset();
                return true;
            }
            if (isB(x) && ptr(x)) {
                long o = value(x);
                man[o]++;
                B* t = how & 1 ? b(x).take().take() : b(x).forget().take();
                if (t != obj[o])
                    g_faults++;
                return true;
            }
            return false;
        }
        if (op == "take") {
            if (isAB(x) && isB(y) && !a(x)) {
                a(x).emplace(how & 1 ? b(y).take() : b(y).forget());
                return true;
            }
            if (isAD(x) && isD(y) && !e(x)) {
                e(x).emplace(how & 1 ? d(y).take() : d(y).forget());
                return true;
            }
            return false;
        }
        if (op == "aassign") {
            if (isB(x) && isAB(y) && a(y)) {
                asg(b(x), *a(y), how);
                a(y).reset();
                return true;
            }
            if (isB(x) && isAD(y) && e(y)) {
                asg(b(x), *e(y), how);
                e(y).reset();
                return true;
            }
            if (isD(x) && isAD(y) && e(y)) {
                asg(d(x), *e(y), how);
                e(y).reset();
                return true;
            }
            return false;
        }
        if (op == "adrop") {
            if (isAB(x) && a(x)) {
                a(x).reset();
                return true;
            }
            if (isAD(x) && e(x)) {
                e(x).reset();
                return true;
            }
            return false;
        }
        bad_script(op);
    }
    template <typename P, typename A>
    static void asg(P& p, A& x, int how) {
        switch (how % 3) {
            case 0: p = x; break;
            case 1: p.~P(); new (&p) P(x); break;
            case 2: p = std::move(x); break;
        }
    }
    void fin() override {
        for (int i = 1; i < NO; i++)
            while (g_alive[i] && many[i].size())
                drop_many(i);
        for (int i = 1; i < NO; i++)
            while (g_alive[i] && man[i] > 0) {
                man[i]--;
                obj[i]->Release();
            }
        for (auto& p : pb)
            p = nullptr;
        for (auto& p : pd)
            p = nullptr;
        for (auto& p : ab)
            p.reset();
        for (auto& p : ad)
            p.reset();
        for (int i = 1; i < NO; i++)
            if (g_alive[i] && raw[i]) {
                delete obj[i];
                raw[i] = false;
            }
    }
};

struct RefDriver : Driver {
    IRun* r = nullptr;
    void begin() override {
        memset(g_alive, 0, sizeof(g_alive));
        g_faults = 0;
        r = nullptr;
    }
    void log(const char* op, int a, int b) {
        std::vector<long> al;
        for (int i = 1; i < NO; i++)
            if (g_alive[i])
                al.push_back(i);
        Ev e(op);
        e.i("a", a).i("b", b).seq("vals", r->vals()).seq("alive", al).i("faults", g_faults).i("odd", r->odd());
    }
    void end() override {
        if (!r)
            return;
        r->fin();
        log("final", 0, 0);
        // Cyclic garbage outlives the variables by design; nothing more to do with it.
        delete r;
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "family") {
            switch (l.num()) {
                case 1: r = new Run<B1, D1>; break;
                case 2: r = new Run<B2, D2>; break;
                case 3: r = new Run<B3, D3>; break;
                case 4: r = new Run<B4, D4>; break;
                case 5: r = new Run<B5, D5>; break;
                case 6: r = new Run<B6, D6>; break;
            }
            return;
        }
        int a = (int)l.num(), b = (int)l.num(), how = (int)l.num();
        if (r->cmd(op, a, b, how))
            log(op.c_str(), a, b);
    }
};

int main(int argc, char** argv) {
    RefDriver d;
    return drive(argc, argv, &d);
}
