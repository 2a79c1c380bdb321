// Driver for C32: what the default allocator policy and KE_RELEASE_ASSERT do when they cannot go on.
// Not for sanitizer builds: it stands in for malloc.
#include "vchild.h"
#include <malloc.h>
#include <amtl/am-allocator-policies.h>
#include <amtl/am-assert.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>

using namespace vh;

// ---- the system's memory, some of whose requests can be refused ----------------------------------
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

static bool g_armed;       // inside the call under test
static long g_refuse = -1; // requests from this one on are refused
static long g_reqs;
static bool g_refused;

static void note(const char* s) {
    if (write(fileno(g_out), s, strlen(s)) < 0)
        _exit(4);
}
static bool refuse_now() {
    if (!g_armed)
        return false;
    long n = g_reqs++;
    if (g_refuse < 0 || n < g_refuse)
        return false;
    if (!g_refused)
        note("{\"op\":\"refused\"}\n");
    g_refused = true;
    return true;
}
static void* asked(void* p) {  // the real system refused
    if (!p && g_armed) {
        if (!g_refused)
            note("{\"op\":\"refused\"}\n");
        g_refused = true;
    }
    return p;
}
extern "C" void* malloc(size_t n) { return refuse_now() ? nullptr : asked(__libc_malloc(n)); }
extern "C" void* calloc(size_t a, size_t b) { return refuse_now() ? nullptr : asked(__libc_calloc(a, b)); }
extern "C" void* realloc(void* p, size_t n) { return refuse_now() ? nullptr : asked(__libc_realloc(p, n)); }
extern "C" void* memalign(size_t a, size_t n) { return refuse_now() ? nullptr : asked(__libc_memalign(a, n)); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return refuse_now() ? nullptr : asked(__libc_memalign(a, n)); }
extern "C" int posix_memalign(void** out, size_t a, size_t n) {
    void* p = refuse_now() ? nullptr : asked(__libc_memalign(a, n));
    if (!p)
        return 12;
    *out = p;
    return 0;
}

struct Arm {
    Arm() {
        g_reqs = 0;
        g_refused = false;
        g_armed = true;
    }
    ~Arm() {
        g_armed = false;
        g_refuse = -1;
    }
};

// ---- containers with the default policy ----------------------------------------------------------
typedef std::vector<std::pair<long, long>> Snap;
struct IC {
    virtual ~IC() {}
    virtual bool init(size_t) { return true; }
    virtual bool put(long, long, int) { return true; }
    virtual void rm(long) {}
    virtual void clear() {}
    virtual void fill(long) {}
    virtual size_t size_of() { return sizeof(void*); }
    virtual IC* copied(void*) { return nullptr; }
    virtual IC* moved() { return nullptr; }
    virtual void assign(IC*, bool) {}
    virtual bool good() { return true; }
    virtual long n() = 0;
    virtual Snap snap() = 0;
};
struct Big {
    long a, b, v;
    Big() : a(1), b(2), v(0) {}
    explicit Big(long v) : a(1), b(2), v(v) {}
};
static long val(int x) { return x; }
static long val(const Big& x) { return x.a == 1 && x.b == 2 ? x.v : -9; }
template <typename K> struct Pol {
    static uint32_t hash(const K& k) { return (uint32_t)k * 40503u; }
    static bool matches(const K& a, const K& b) { return a == b; }
};
struct MapC : IC {
    ke::HashMap<int, Big, Pol<int>> m;
    MapC() {}
    MapC(MapC* o) : m(std::move(o->m)) {}
    bool init(size_t cap) override { return m.init(cap); }
    bool put(long k, long v, int how) override {
        auto i = m.findForAdd((int)k);
        if (!i.found()) {
            if (how & 1 ? !m.add(i, (int)k, Big(v)) : !m.add(i, (int)k))
                return false;
        }
        i->value = Big(v);
        return true;
    }
    void rm(long k) override { m.removeIfExists((int)k); }
    void clear() override { m.clear(); }
    long n() override { return (long)m.elements(); }
    IC* moved() override { return new MapC(this); }
    Snap snap() override {
        Snap s;
        for (auto i = m.iter(); !i.empty(); i.next())
            s.push_back({i->key, val(i->value)});
        return s;
    }
};
struct SetC : IC {
    ke::HashSet<int, Pol<int>> m;
    SetC() {}
    SetC(SetC* o) : m(std::move(o->m)) {}
    bool init(size_t cap) override { return m.init(cap); }
    bool put(long k, long, int how) override {
        if (how & 1) {
            m.add((int)k);
            return m.has((int)k);
        }
        auto i = m.findForAdd((int)k);
        return i.found() || m.add(i, (int)k);
    }
    void rm(long k) override { m.removeIfExists((int)k); }
    void clear() override { m.clear(); }
    long n() override { return (long)m.elements(); }
    IC* moved() override { return new SetC(this); }
    Snap snap() override {
        Snap s;
        for (auto i = m.iter(); !i.empty(); i.next())
            s.push_back({*i, *i});
        return s;
    }
};
template <size_t N> struct Entry {
    int key;
    int value;
    char pad[N];
};
template <typename E> struct EPol {
    typedef E Payload;
    static uint32_t hash(int k) { return (uint32_t)k * 40503u; }
    static bool matches(int k, const E& e) { return e.key == k; }
};
template <typename E> struct TabC : IC {
    typedef ke::HashTable<EPol<E>> M;
    M m;
    TabC() {}
    TabC(TabC* o) : m(std::move(o->m)) {}
    bool init(size_t cap) override { return m.init(cap); }
    bool put(long k, long v, int) override {
        auto i = m.findForAdd((int)k);
        if (!i.found()) {
            if (!m.add(i))
                return false;
            i->key = (int)k;
        }
        i->value = (int)v;
        return true;
    }
    void rm(long k) override { m.removeIfExists((int)k); }
    void clear() override { m.clear(); }
    long n() override { return (long)m.elements(); }
    IC* moved() override { return new TabC(this); }
    Snap snap() override {
        Snap s;
        for (typename M::iterator i(&m); !i.empty(); i.next())
            s.push_back({i->key, i->value});
        return s;
    }
};
template <typename T> struct ArrC : IC {
    typedef ke::FixedArray<T> A;
    A a;
    ArrC() {}
    explicit ArrC(size_t n) : a(n) {}
    explicit ArrC(const std::vector<T>& v) : a(v) {}
    explicit ArrC(std::vector<T>&& v) : a(std::move(v)) {}
    struct ByCopy {};
    struct ByMove {};
    ArrC(const ArrC* o, ByCopy) : a(o->a) {}
    ArrC(ArrC* o, ByMove) : a(std::move(o->a)) {}
    void fill(long x) override {
        for (auto& e : a)
            e = T(x);
    }
    size_t size_of() override { return sizeof(ArrC); }
    IC* copied(void* mem) override { return new (mem) ArrC(this, ByCopy()); }
    IC* moved() override { return new ArrC(this, ByMove()); }
    void assign(IC* o, bool mv) override {
        if (mv)
            a = std::move(static_cast<ArrC*>(o)->a);
        else
            a = static_cast<ArrC*>(o)->a;
    }
    bool good() override { return a.initialize(); }
    long n() override { return (long)a.size(); }
    Snap snap() override {
        Snap s;
        for (size_t i = 0; i < a.size(); i++)
            s.push_back({(long)i, val(a[i])});
        return s;
    }
};

struct EvalInt {
    int v;
    explicit operator bool() const {
        note("{\"op\":\"eval\"}\n");
        return v != 0;
    }
};
static int ev(int v) {
    note("{\"op\":\"eval\"}\n");
    return v;
}

struct FailDriver : ChildDriver {
    IC* c[3] = {};
    std::map<long, std::pair<unsigned char*, size_t>> blk;
    ke::SystemAllocatorPolicy pol;

    IC* make(const std::string& k) {
        if (k == "map") return new MapC;
        if (k == "set") return new SetC;
        if (k == "tab") return new TabC<Entry<4>>;
        if (k == "huge") return new TabC<Entry<(64 << 20)>>;
        if (k == "arr_i") return new ArrC<int>;
        if (k == "arr_b") return new ArrC<Big>;
        bad_script("kind " + k);
    }
    template <typename T> IC* make_v(size_t n, long x, bool mv) {
        std::vector<T> v(n, T(x));
        IC* r;
        IC* mem = (IC*)::operator new(sizeof(ArrC<T>));
        {
            Arm arm;
            r = mv ? new (mem) ArrC<T>(std::move(v)) : new (mem) ArrC<T>(v);
        }
        return r;
    }
    void ret(bool ok, int i) {
        Ev e("ret");
        e.b("ok", ok && (i < 0 || !c[i] || c[i]->good()));
        if (i >= 0 && c[i]) {
            std::vector<std::vector<long>> s;
            for (auto& p : c[i]->snap())
                s.push_back({p.first, p.second});
            e.i("n", c[i]->n()).seq2("snap", s);
        } else {
            std::vector<std::vector<long>> s;
            e.i("n", 0).seq2("snap", s);
        }
    }
    void run(const std::string& op, Line& l) override {
        if (op == "refuse") {
            g_refuse = l.num();
            return;
        }
        if (op == "rassert") {  // form, truth
            int form = (int)l.num(), v = (int)l.num();
            {
                Ev e("call");
                e.str("f", "assert").b("impossible", !v).b("may", false);
            }
            EvalInt o{v};
            int* p = v ? &v : nullptr;
            unsigned long long hi = v ? 1ull << 40 : 0;
            double d = v ? 0.25 : 0;
            int before = 7, after = 0;
            switch (form) {
            case 0: KE_RELEASE_ASSERT(ev(v)); break;
            case 1: KE_RELEASE_ASSERT(o); break;
            case 2: KE_RELEASE_ASSERT(ev(v) && true); break;
            case 3: KE_RELEASE_ASSERT(false || ev(v)); break;
            case 4: KE_RELEASE_ASSERT(ev(v) ? true : false); break;
            case 5: KE_RELEASE_ASSERT((ev(v), p)); break;
            case 6: KE_RELEASE_ASSERT((ev(v), hi)); break;
            case 7: KE_RELEASE_ASSERT((ev(v), d)); break;
            case 8: if (before == 7) KE_RELEASE_ASSERT(ev(v)); else after = 3; break;
            case 9: KE_RELEASE_ASSERT(ev(v) == 1 ? before : after); break;
            case 10: KE_RELEASE_ASSERT(ev(v) & 1 | 0); break;
            case 11: for (int i = 0; i < 1; i++) KE_RELEASE_ASSERT(ev(v) > 0); break;
            default: bad_script("form");
            }
            ret(before == 7 && after == 0, -1);
            return;
        }
        if (op == "alloc") {
            long id = l.num();
            size_t n = (size_t)l.u64();
            {
                Ev e("call");
                e.str("f", "alloc").i("id", id).b("impossible", n > (size_t)-1 / 2).b("may", false);
            }
            void* p;
            {
                Arm a;
                p = pol.am_malloc(n);
            }
            bool fits = p && malloc_usable_size(p) >= n && (uintptr_t)p % alignof(std::max_align_t) == 0;
            if (fits) {
                memset(p, (int)(id + 1), n);
                blk[id] = {(unsigned char*)p, n};
            }
            ret(fits, -1);
            return;
        }
        if (op == "free") {
            long id = l.num();
            bool intact = true;
            if (id >= 0) {
                auto b = blk[id];
                blk.erase(id);
                for (size_t k = 0; k < b.second; k++)
                    intact = intact && b.first[k] == (unsigned char)(id + 1);
                {
                    Ev e("call");
                    e.str("f", "free").i("id", id).b("impossible", false).b("may", false);
                }
                Arm a;
                pol.am_free(b.first);
            } else {
                {
                    Ev e("call");
                    e.str("f", "free").i("id", id).b("impossible", false).b("may", false);
                }
                Arm a;
                pol.am_free(nullptr);
            }
            ret(intact, -1);
            return;
        }
        if (op == "oom" || op == "over") {
            {
                Ev e("call");
                e.str("f", op.c_str()).b("impossible", true).b("may", false);
            }
            if (op == "oom")
                pol.reportOutOfMemory();
            else
                pol.reportAllocationOverflow();
            ret(true, -1);
            return;
        }
        int i = (int)l.num();
        auto call = [&](long k, long v, bool impossible, bool may) {
            Ev e("call");
            e.str("f", op.c_str()).i("c", i).i("k", k).i("v", v).b("impossible", impossible).b("may", may);
        };
        if (op == "new") {
            std::string kind = l.word();
            call(0, 0, false, false);
            c[i] = make(kind);
            ret(true, i);
        } else if (op == "init") {
            size_t cap = (size_t)l.u64();
            call(0, 0, cap >= (size_t)1 << 31, false);
            bool ok;
            {
                Arm a;
                ok = c[i]->init(cap);
            }
            ret(ok, i);
        } else if (op == "put") {
            long k = l.num(), v = l.num();
            int how = (int)l.num();
            bool huge = l.num() != 0;
            call(k, v, false, huge);
            bool ok;
            {
                Arm a;
                ok = c[i]->put(k, v, how);
            }
            ret(ok, i);
        } else if (op == "rm") {
            long k = l.num();
            call(k, 0, false, false);
            {
                Arm a;
                c[i]->rm(k);
            }
            ret(true, i);
        } else if (op == "clear") {
            call(0, 0, false, false);
            {
                Arm a;
                c[i]->clear();
            }
            ret(true, i);
        } else if (op == "del") {
            call(0, 0, false, false);
            {
                Arm a;
                delete c[i];
            }
            c[i] = nullptr;
            ret(true, i);
        } else if (op == "make") {  // c = FixedArray(n), then each element is set to x
            std::string kind = l.word();
            size_t n = (size_t)l.u64();
            long x = l.num();
            bool big = n > (1u << 20);
            call(big ? 0 : (long)n, x, big && n > (size_t)-1 / 64, false);
            IC* old = c[i];
            {
                if (kind == "arr_i") {
                    void* mem = ::operator new(sizeof(ArrC<int>));
                    Arm a;
                    c[i] = new (mem) ArrC<int>(n);
                } else {
                    void* mem = ::operator new(sizeof(ArrC<Big>));
                    Arm a;
                    c[i] = new (mem) ArrC<Big>(n);
                }
            }
            delete old;
            c[i]->fill(x);
            ret(true, i);
        } else if (op == "vec") {
            std::string kind = l.word();
            size_t n = (size_t)l.u64();
            long x = l.num();
            bool mv = l.num() != 0;
            call((long)n, x, false, false);
            IC* old = c[i];
            c[i] = kind == "arr_i" ? make_v<int>(n, x, mv) : make_v<Big>(n, x, mv);
            delete old;
            ret(true, i);
        } else if (op == "copy") {  // c = a copy of d
            int d = (int)l.num();
            call(d, 0, false, false);
            IC* old = c[i];
            void* mem = ::operator new(c[d]->size_of());
            {
                Arm a;
                c[i] = c[d]->copied(mem);
            }
            delete old;
            ret(true, i);
        } else if (op == "assign" || op == "massign") {
            int d = (int)l.num();
            call(d, 0, false, false);
            {
                Arm a;
                c[i]->assign(c[d], op == "massign");
            }
            ret(true, i);
        } else if (op == "move") {
            int d = (int)l.num();
            call(d, 0, false, false);
            IC* old = c[i];
            c[i] = c[d]->moved();
            delete old;
            ret(true, i);
        } else if (op == "chk") {
            call(0, 0, false, false);
            ret(true, i);
        } else {
            bad_script(op);
        }
    }
};

int main(int argc, char** argv) {
    FailDriver d;
    return drive(argc, argv, &d);
}
