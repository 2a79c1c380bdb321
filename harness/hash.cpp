// Driver for HashTable, HashMap and HashSet (C01-C04).
#include "vh.h"
#include <sys/mman.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>

using namespace vh;

static uint32_t g_hash[4096];
static uint64_t g_mul;           // when set, a formula gives every key its hash
static uint32_t g_shift, g_mask;
static uint32_t hash_of(long k) {
    if (g_mul)
        return (uint32_t)((uint64_t)k * g_mul >> g_shift) & g_mask;
    if (k < 0 || k >= 4096)
        return 0x12345u + (uint32_t)k;
    return g_hash[k];
}

// ---- allocator policy: carries its arena, counts its own requests -------------------------------
struct Pol {
    Arena* a;
    long own = 0;
    Pol() : a(nullptr) {}
    explicit Pol(Arena* a) : a(a) {}
    void reportOutOfMemory() {
        if (a)
            a->oom++;
    }
    void reportAllocationOverflow() {
        if (a)
            a->overflows++;
    }
    static const size_t kBig = 16 << 20;
    void* am_malloc(size_t n) {
        own++;
        if (!a)
            return ::malloc(n);
        a->mallocs++;
        if (a->fail_in >= 0) {
            if (a->fail_in == 0) {
                if (--a->fail_for <= 0)
                    a->fail_in = -1;
                reportOutOfMemory();
                return nullptr;
            }
            a->fail_in--;
        }
        void* p;
        if (n >= kBig) {
            p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) {
                reportOutOfMemory();
                return nullptr;
            }
        } else {
            p = ::malloc(n ? n : 1);
            memset(p, 0xA5, n);  // memory from an allocator is not zeroed
        }
        a->live[p] = n;
        return p;
    }
    void am_free(void* p) {
        if (!p)
            return;
        if (!a) {
            ::free(p);
            return;
        }
        auto it = a->live.find(p);
        if (it == a->live.end()) {
            a->faults++;
            return;
        }
        if (it->second >= kBig)
            munmap(p, it->second);
        else
            ::free(p);
        a->live.erase(it);
    }
};

static const size_t kDef = 0xdef0dead;
struct Alt {
    long k;
};

// Pointers that differ in their low, middle or high bits only; never followed.
struct Pointee {
    long unused;
};
static Pointee* ptr_of(long k) {
    uintptr_t u = (uintptr_t)k;
    return (Pointee*)(k % 4 == 0 ? u << 4 : k % 4 == 1 ? u << 20 : k % 4 == 2 ? u << 34 : u << 50);
}
static long val(Pointee* p) {
    uintptr_t u = (uintptr_t)p;
    for (int s : {4, 20, 34, 50})
        if ((u >> s) < 4096 && ptr_of((long)(u >> s)) == p)
            return (long)(u >> s);
    return -5;
}
static void setv(Pointee*& p, long v) { p = ptr_of(v); }
static long val(int x) { return x; }
static long val(const Tracked& x) { return x.get(); }
static long val(const TrackedMO& x) { return x.get(); }
static long val(const std::string& x) { return atol(x.c_str() + 1); }
static void setv(int& x, long v) { x = (int)v; }
static void setv(Tracked& x, long v) { x = Tracked(v); }
static void setv(TrackedMO& x, long v) { x = TrackedMO(v); }
static void setv(std::string& x, long v) { x = "k" + std::to_string(v); }
template <typename T> static T mk(long v) { return T(v); }
template <> Pointee* mk<Pointee*>(long v) { return ptr_of(v); }
template <> int mk<int>(long v) { return (int)v; }
template <> std::string mk<std::string>(long v) { return "k" + std::to_string(v); }

template <typename K>
struct KPol {
    static uint32_t hash(const K& k) { return hash_of(val(k)); }
    static uint32_t hash(const Alt& k) { return hash_of(k.k); }
    static bool matches(const K& k, const K& o) { return val(k) == val(o); }
    static bool matches(const Alt& k, const K& o) { return k.k == val(o); }
};

// The library's own policy for pointers, with a second lookup type.
struct PtrPol : ke::PointerPolicy<Pointee> {
    typedef ke::PointerPolicy<Pointee> Base;
    using Base::hash;
    using Base::matches;
    static uint32_t hash(const Alt& k) { return Base::hash(ptr_of(k.k)); }
    static bool matches(const Alt& k, Pointee* o) { return Base::matches(ptr_of(k.k), o); }
};

struct Visit {
    long k, v;
};
// Which keys to erase on the way: those listed, or every key with a given remainder.
struct Erase {
    std::set<long> keys;
    long mod = 0, rest = 0;
    bool operator()(long k) const { return mod ? k % mod == rest : keys.count(k) > 0; }
};
// The same visits, sorted and written as runs <<first key, last key, step, value - key>>.
static std::vector<std::vector<long>> runs_of(std::vector<Visit> v) {
    std::sort(v.begin(), v.end(), [](const Visit& a, const Visit& b) { return a.k != b.k ? a.k < b.k : a.v < b.v; });
    std::vector<std::vector<long>> r;
    for (size_t i = 0; i < v.size();) {
        long d = v[i].v - v[i].k, step = 1;
        size_t j = i;
        if (i + 1 < v.size() && v[i + 1].v - v[i + 1].k == d && v[i + 1].k > v[i].k) {
            step = v[i + 1].k - v[i].k;
            while (j + 1 < v.size() && v[j + 1].v - v[j + 1].k == d && v[j + 1].k - v[j].k == step)
                j++;
        }
        r.push_back({v[i].k, v[j].k, step, d});
        i = j + 1;
    }
    return r;
}
struct PutRes {
    bool found, ok;
    long hk, hv;  // what the handle shows afterwards
    bool hlive;   // whether the handle reports a live entry
};

struct IC {
    Arena* arena = nullptr;
    int per = 0;  // tracked objects per element
    virtual ~IC() {}
    virtual IC* moved() = 0;
    virtual bool init(size_t cap) = 0;
    virtual PutRes put(long k, long v, int how, bool alt) = 0;
    virtual bool find(long k, bool alt, long* v) = 0;
    virtual void rm(long k, bool alt) = 0;
    virtual bool rmr(long k, bool alt) = 0;
    virtual void clear() = 0;
    virtual bool density() { return true; }
    virtual size_t n() = 0;
    virtual size_t est() = 0;
    bool sys = false;  // no arena: its memory is not counted
    virtual std::vector<Visit> iter(const Erase& erase, long* over) = 0;
    virtual Pol& pol() = 0;
    virtual const Pol& cpol() = 0;
};

template <typename V> static int tracked_in() { return 0; }
template <> int tracked_in<Tracked>() { return 1; }
template <> int tracked_in<TrackedMO>() { return 1; }

template <typename C, typename KeyOf, typename ValOf>
static std::vector<Visit> walk(C it, const Erase& erase, long* over, size_t limit, KeyOf kf, ValOf vf) {
    std::vector<Visit> r;
    *over = 0;
    while (!it.empty()) {
        long k = kf(it), v = vf(it);
        r.push_back({k, v});
        if (erase(k))
            it.erase();
        it.next();
        if (r.size() > limit) {
            *over = 1;
            break;
        }
    }
    return r;
}

// The default policy has nothing to look at.
template <typename P> static P make_pol(Arena* a) { return P(a); }
template <> ke::SystemAllocatorPolicy make_pol(Arena*) { return {}; }
static Pol& as_pol(Pol& p) { return p; }
static const Pol& as_pol(const Pol& p) { return p; }
static Pol& as_pol(const ke::SystemAllocatorPolicy&) {
    static Pol none;
    return none;
}

template <typename K, typename V, typename HP = KPol<K>, typename AP = Pol>
struct MapC : IC {
    typedef ke::HashMap<K, V, HP, AP> M;
    M m;
    MapC(Arena* a) : m(make_pol<AP>(a)) {
        arena = a;
        per = tracked_in<K>() + tracked_in<V>();
    }
    MapC(MapC* o) : m(std::move(o->m)) {
        arena = o->arena;
        per = o->per;
    }
    IC* moved() override { return new MapC(this); }
    bool init(size_t cap) override { return cap == kDef ? m.init() : m.init(cap); }
    PutRes put(long k, long v, int how, bool alt) override {
        PutRes r = {false, false, -2, -2, false};
        typename M::Insert i = alt ? m.findForAdd(Alt{k}) : m.findForAdd(mk<K>(k));
        r.found = i.found();
        if (r.found) {
            setv(i->value, v);
            r.ok = true;
        } else if (how == 1) {
            r.ok = m.add(i, mk<K>(k));
            if (r.ok)
                setv(i->value, v);
        } else if (how == 2) {
            r.ok = m.add(i);
            if (r.ok) {
                setv(i->key, k);
                setv((*i).value, v);
            }
        } else {
            K kk = mk<K>(k);
            r.ok = how == 3 ? m.add(i, std::move(kk), mk<V>(v)) : add_l(i, kk, v);
        }
        if (r.ok) {
            r.hlive = i.found();
            r.hk = val(i->key);
            r.hv = val((*i).value);
        }
        return r;
    }
    template <typename X = V>
    typename std::enable_if<std::is_copy_constructible<X>::value, bool>::type
    add_l(typename M::Insert& i, K& kk, long v) {
        V vv = mk<V>(v);
        return m.add(i, kk, vv);
    }
    template <typename X = V>
    typename std::enable_if<!std::is_copy_constructible<X>::value, bool>::type
    add_l(typename M::Insert& i, K& kk, long v) {
        return m.add(i, kk, mk<V>(v));
    }
    bool find(long k, bool alt, long* v) override {
        const M& cm = m;
        typename M::Result r = alt ? cm.find(Alt{k}) : cm.find(mk<K>(k));
        if (r.found()) {
            *v = val(r->key) == k ? val(r->value) : -3;
            return true;
        }
        return false;
    }
    void rm(long k, bool alt) override {
        if (alt)
            m.removeIfExists(Alt{k});
        else
            m.removeIfExists(mk<K>(k));
    }
    bool rmr(long k, bool alt) override {
        typename M::Result r = alt ? m.find(Alt{k}) : m.find(mk<K>(k));
        if (!r.found())
            return false;
        m.remove(r);
        return true;
    }
    void clear() override { m.clear(); }
    size_t n() override { return m.elements(); }
    size_t est() override { return m.estimateMemoryUse(); }
    std::vector<Visit> iter(const Erase& e, long* over) override {
        return walk(m.iter(), e, over, 5000 + 4 * m.elements(), [](typename M::iterator& i) { return val((*i).key); },
                    [](typename M::iterator& i) { return val(i->value); });
    }
    Pol& pol() override { return as_pol(m.allocPolicy()); }
    const Pol& cpol() override { return as_pol(const_cast<const M&>(m).allocPolicy()); }
};

template <typename K, typename HP = KPol<K>, typename AP = Pol>
struct SetC : IC {
    typedef ke::HashSet<K, HP, AP> M;
    M m;
    SetC(Arena* a) : m(make_pol<AP>(a)) {
        arena = a;
        per = tracked_in<K>();
    }
    SetC(SetC* o) : m(std::move(o->m)) {
        arena = o->arena;
        per = o->per;
    }
    IC* moved() override { return new SetC(this); }
    bool init(size_t cap) override { return cap == kDef ? m.init() : m.init(cap); }
    PutRes put(long k, long, int how, bool alt) override {
        PutRes r = {false, false, -2, -2, false};
        if (how == 3 && !alt) {  // convenience form; reports nothing, so look
            size_t before = m.elements();
            r.found = m.has(mk<K>(k));
            m.add(mk<K>(k));
            r.ok = r.found || m.elements() != before;
            typename M::Result q = m.find(mk<K>(k));
            if (r.ok) {
                r.hlive = q.found();
                r.hk = r.hv = q.found() ? val(*q) : -4;
            }
            return r;
        }
        typename M::Insert i = alt ? m.findForAdd(Alt{k}) : m.findForAdd(mk<K>(k));
        r.found = i.found();
        if (r.found) {
            r.ok = true;
        } else if (how == 2) {
            r.ok = m.add(i);
            if (r.ok)
                setv(*i, k);
        } else if (how == 1) {
            K kk = mk<K>(k);
            r.ok = m.add(i, kk);
        } else {
            r.ok = m.add(i, mk<K>(k));
        }
        if (r.ok) {
            r.hlive = i.found();
            r.hk = r.hv = val(*i);
        }
        return r;
    }
    bool find(long k, bool alt, long* v) override {
        bool h = alt ? m.has(Alt{k}) : m.has(mk<K>(k));
        typename M::Result r = alt ? m.find(Alt{k}) : m.find(mk<K>(k));
        if (r.found()) {
            *v = h ? val(*r) : -3;
            return true;
        }
        if (h) {
            *v = -3;
            return true;
        }
        return false;
    }
    void rm(long k, bool alt) override {
        if (alt)
            m.removeIfExists(Alt{k});
        else
            m.removeIfExists(mk<K>(k));
    }
    bool rmr(long k, bool alt) override {
        typename M::Result r = alt ? m.find(Alt{k}) : m.find(mk<K>(k));
        if (!r.found())
            return false;
        m.remove(r);
        return true;
    }
    void clear() override { m.clear(); }
    size_t n() override { return m.elements(); }
    size_t est() override { return m.estimateMemoryUse(); }
    std::vector<Visit> iter(const Erase& e, long* over) override {
        return walk(m.iter(), e, over, 5000 + 4 * m.elements(), [](typename M::iterator& i) { return val(*i); },
                    [](typename M::iterator& i) { return val(*i); });
    }
    Pol& pol() override { return as_pol(m.allocPolicy()); }
    const Pol& cpol() override { return as_pol(const_cast<const M&>(m).allocPolicy()); }
};

template <typename K, typename V>
struct KV {
    K key;
    V value;
    KV() {}
    KV(K&& k, V&& v) : key(std::move(k)), value(std::move(v)) {}
};
struct Huge {
    int key;
    int value;
    char pad[64 << 20];
    Huge() {}
    Huge(int k, int v) : key(k), value(v) {}
    Huge(Huge&& o) : key(o.key), value(o.value) {}
};
template <typename P> struct TPol {
    typedef P Payload;
    typedef decltype(P::key) K;
    static uint32_t hash(const K& k) { return hash_of(val(k)); }
    static uint32_t hash(const Alt& k) { return hash_of(k.k); }
    static bool matches(const K& k, const P& o) { return val(k) == val(o.key); }
    static bool matches(const Alt& k, const P& o) { return k.k == val(o.key); }
};

// A payload that constructs from any key and value without a large temporary.
template <typename P> struct TabC : IC {
    typedef ke::HashTable<TPol<P>, Pol> M;
    typedef decltype(P::key) K;
    typedef decltype(P::value) V;
    M m;
    TabC(Arena* a) : m(Pol(a)) {
        arena = a;
        per = tracked_in<K>() + tracked_in<V>();
    }
    TabC(TabC* o) : m(std::move(o->m)) {
        arena = o->arena;
        per = o->per;
    }
    IC* moved() override { return new TabC(this); }
    bool init(size_t cap) override { return cap == kDef ? m.init() : m.init(cap); }
    PutRes put(long k, long v, int how, bool alt) override {
        PutRes r = {false, false, -2, -2, false};
        typename M::Insert i = alt ? m.findForAdd(Alt{k}) : m.findForAdd(mk<K>(k));
        r.found = i.found();
        if (r.found) {
            setv(i->value, v);
            r.ok = true;
        } else if (how == 2 || sizeof(P) > 4096) {
            r.ok = m.add(i);
            if (r.ok) {
                setv(i->key, k);
                setv((*i).value, v);
            }
        } else {
            r.ok = add_p(i, k, v);
        }
        if (r.ok) {
            r.hlive = i.found();
            r.hk = val(i->key);
            r.hv = val((*i).value);
        }
        return r;
    }
    template <typename X = P>
    typename std::enable_if<(sizeof(X) <= 4096), bool>::type add_p(typename M::Insert& i, long k, long v) {
        return m.add(i, P(mk<K>(k), mk<V>(v)));
    }
    template <typename X = P>
    typename std::enable_if<(sizeof(X) > 4096), bool>::type add_p(typename M::Insert&, long, long) {
        return false;
    }
    bool find(long k, bool alt, long* v) override {
        const M& cm = m;
        typename M::Result r = alt ? cm.find(Alt{k}) : cm.find(mk<K>(k));
        if (r.found()) {
            *v = val(r->key) == k ? val(r->value) : -3;
            return true;
        }
        return false;
    }
    void rm(long k, bool alt) override {
        if (alt)
            m.removeIfExists(Alt{k});
        else
            m.removeIfExists(mk<K>(k));
    }
    bool rmr(long k, bool alt) override {
        typename M::Result r = alt ? m.find(Alt{k}) : m.find(mk<K>(k));
        if (!r.found())
            return false;
        m.remove(r);
        return true;
    }
    void clear() override { m.clear(); }
    bool density() override { return m.checkDensity(); }
    size_t n() override { return m.elements(); }
    size_t est() override { return m.estimateMemoryUse(); }
    std::vector<Visit> iter(const Erase& e, long* over) override {
        return walk(typename M::iterator(&m), e, over, 5000 + 4 * m.elements(), [](typename M::iterator& i) { return val((*i).key); },
                    [](typename M::iterator& i) { return val(i->value); });
    }
    Pol& pol() override { return m.allocPolicy(); }
    const Pol& cpol() override { return const_cast<const M&>(m).allocPolicy(); }
};

struct HashDriver : Driver {
    static const int NC = 4;
    IC* c[NC] = {};
    Arena ar[NC];
    long uni = 0;
    bool life_on = false, mem_on = false;

    void begin() override {
        for (int i = 0; i < 4096; i++)
            g_hash[i] = (uint32_t)i;
        uni = 0;
        g_mul = 0;
        life().reset();
        for (auto& a : ar)
            a.reset();
        life_on = mem_on = false;
    }
    void end() override {
        for (int i = 0; i < NC; i++)
            if (c[i]) {
                delete c[i];
                c[i] = nullptr;
            }
        Ev e("final");
        obs(e, -1);
    }
    IC* make(const std::string& k, Arena* a) {
        if (k == "map_t") return new MapC<Tracked, Tracked>(a);
        if (k == "map_i") return new MapC<int, int>(a);
        if (k == "map_s") return new MapC<std::string, int>(a);
        if (k == "map_mo") return new MapC<Tracked, TrackedMO>(a);
        if (k == "set_t") return new SetC<Tracked>(a);
        if (k == "set_i") return new SetC<int>(a);
        if (k == "set_s") return new SetC<std::string>(a);
        if (k == "map_p") return new MapC<Pointee*, Tracked, PtrPol>(a);
        if (k == "set_p") return new SetC<Pointee*, PtrPol>(a);
        if (k == "map_d") return new MapC<int, std::string, KPol<int>, ke::SystemAllocatorPolicy>(a);
        if (k == "set_d") return new SetC<Tracked, KPol<Tracked>, ke::SystemAllocatorPolicy>(a);
        if (k == "tab_t") return new TabC<KV<Tracked, Tracked>>(a);
        if (k == "tab_i") return new TabC<KV<int, int>>(a);
        if (k == "tab_mo") return new TabC<KV<TrackedMO, TrackedMO>>(a);
        if (k == "tab_huge") return new TabC<Huge>(a);
        bad_script("kind " + k);
    }
    void obs(Ev& e, int i) {
        if (i >= 0)
            e.i("n", c[i] ? (long)c[i]->n() : 0);
        if (life_on) {
            e.i("live", (long)life().live.size()).i("faults", life().faults);
        }
        if (mem_on) {
            long blocks = 0, f = 0;
            size_t held = 0, said = 0;
            for (auto& a : ar) {
                blocks += (long)a.live.size();
                f += a.faults;
                for (auto& b : a.live)
                    held += b.second;
            }
            for (IC* x : c)
                if (x && !x->sys)
                    said += x->est();
            e.i("blocks", blocks).i("mfaults", f);
            e.str("said", std::to_string(said).c_str()).str("held", std::to_string(held).c_str());
        }
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "H") {
            long k = l.num();
            g_hash[k] = (uint32_t)l.u64();
            return;
        }
        if (op == "HF") {
            g_mul = l.u64();
            g_shift = (uint32_t)l.u64();
            g_mask = (uint32_t)l.u64();
            return;
        }
        if (op == "U") {
            uni = l.num();
            return;
        }
        if (op == "life") {
            life_on = true;
            return;
        }
        if (op == "mem") {
            mem_on = true;
            return;
        }
        int i = (int)l.num();
        if (op == "new") {
            std::string kind = l.word();
            ar[i].reset();
            c[i] = make(kind, &ar[i]);
            c[i]->sys = kind == "map_d" || kind == "set_d";
            Ev e("new");
            e.i("c", i).i("per", c[i]->per);
            obs(e, i);
            return;
        }
        if (op == "fail") {  // refuse the a-th allocation from now and so many after it
            IC* x = c[i];
            x->arena->fail_in = l.num();
            x->arena->fail_for = l.num();
            return;
        }
        if (op == "nofail") {
            c[i]->arena->fail_in = -1;
            return;
        }
        Arena* a = c[i] ? c[i]->arena : &ar[i];
        long r0 = a->oom, o0 = a->overflows;
        if (op == "init") {
            std::string w = l.word();
            bool huge = false;
            size_t cap = w == "def" ? kDef : strtoull(w.c_str(), nullptr, 0);
            if (w != "def" && cap >= ((size_t)1 << 30))
                huge = true;
            bool ok = c[i]->init(cap);
            Ev e("init");
            e.i("c", i).b("ok", ok).b("huge", huge).i("refused", a->oom - r0).i("over", a->overflows - o0);
            obs(e, i);
        } else if (op == "put") {
            long k = l.num(), v = l.num();
            int how = (int)l.num();
            bool alt = l.num() != 0;
            PutRes r = c[i]->put(k, v, how, alt);
            Ev e("put");
            e.i("c", i).i("k", k).i("v", v).b("found", r.found).b("ok", r.ok).b("hlive", r.hlive).i("hk", r.hk).i("hv", r.hv);
            e.i("refused", a->oom - r0).i("over", a->overflows - o0);
            obs(e, i);
        } else if (op == "find") {
            long k = l.num();
            bool alt = l.num() != 0;
            long v = -2;
            bool f = c[i]->find(k, alt, &v);
            Ev e("find");
            e.i("c", i).i("k", k).b("found", f).i("v", v);
            obs(e, i);
        } else if (op == "rm") {
            long k = l.num();
            bool alt = l.num() != 0;
            c[i]->rm(k, alt);
            Ev e("rm");
            e.i("c", i).i("k", k);
            obs(e, i);
        } else if (op == "rmr") {
            long k = l.num();
            bool alt = l.num() != 0;
            bool f = c[i]->rmr(k, alt);
            Ev e("rmr");
            e.i("c", i).i("k", k).b("found", f);
            obs(e, i);
        } else if (op == "clear") {
            c[i]->clear();
            Ev e("clear");
            e.i("c", i);
            obs(e, i);
        } else if (op == "density") {
            bool ok = c[i]->density();
            Ev e("density");
            e.i("c", i).b("ok", ok).i("refused", a->oom - r0).i("over", a->overflows - o0);
            obs(e, i);
        } else if (op == "iter") {
            Erase er;
            while (l.more())
                er.keys.insert(l.num());
            long over;
            std::vector<Visit> v = c[i]->iter(er, &over);
            Ev e("iter");
            std::vector<std::vector<long>> vis;
            for (auto& x : v)
                vis.push_back({x.k, x.v});
            e.i("c", i).seq("erase", er.keys).seq2("vis", vis).i("over", over);
            obs(e, i);
        } else if (op == "fill") {  // put the keys from..to-1 one after another, value key + d
            long from = l.num(), to = l.num(), d = l.num();
            int how = (int)l.num();
            long found = 0, k = from, bad = 0;
            for (; k < to; k++) {
                PutRes r = c[i]->put(k, k + d, how, k & 1);
                found += r.found;
                if (!r.ok)
                    break;
                if (!r.hlive || r.hk != k || r.hv != k + d)
                    bad++;
            }
            Ev e("fill");
            e.i("c", i).i("from", from).i("to", to).i("got", k).i("d", d).i("found", found).i("bad", bad);
            e.i("refused", a->oom - r0).i("over", a->overflows - o0);
            obs(e, i);
        } else if (op == "drop") {  // remove the keys from, from+step, ... below to
            long from = l.num(), to = l.num(), step = l.num(), found = 0;
            bool byres = l.num() != 0;
            for (long k = from; k < to; k += step) {
                if (byres) {
                    found += c[i]->rmr(k, k & 1);
                } else {
                    long v;
                    found += c[i]->find(k, k & 1, &v);
                    c[i]->rm(k, k & 1);
                }
            }
            Ev e("drop");
            e.i("c", i).i("from", from).i("to", to).i("step", step).i("found", found);
            obs(e, i);
        } else if (op == "iterm") {  // visit all, erase the keys with k % mod == rest (mod 0: none)
            Erase er;
            er.mod = l.num();
            er.rest = l.num();
            if (!er.mod)
                er.keys.clear();
            long over;
            std::vector<Visit> v = c[i]->iter(er, &over);
            Ev e("iterm");
            e.i("c", i).i("mod", er.mod).i("rest", er.rest).i("total", (long)v.size()).seq2("runs", runs_of(v)).i("over", over);
            obs(e, i);
        } else if (op == "look") {  // find each of the keys from..to-1
            long from = l.num(), to = l.num();
            std::vector<Visit> s;
            for (long k = from; k < to; k++) {
                long v = -2;
                if (c[i]->find(k, k & 1, &v))
                    s.push_back({k, v});
            }
            Ev e("look");
            e.i("c", i).i("from", from).i("to", to).i("total", (long)s.size()).seq2("runs", runs_of(s));
            obs(e, i);
        } else if (op == "chk") {
            std::vector<std::vector<long>> s;
            for (long k = 0; k < uni; k++) {
                long v = -2;
                if (c[i]->find(k, k & 1, &v))
                    s.push_back({k, v});
            }
            Ev e("chk");
            e.i("c", i).seq2("snap", s);
            obs(e, i);
        } else if (op == "move") {
            int j = (int)l.num();
            c[j] = c[i]->moved();
            Ev e("move");
            e.i("c", i).i("d", j).i("nd", (long)c[j]->n());
            obs(e, i);
        } else if (op == "pol") {  // the exposed policy and what the arena saw
            Ev e("pol");
            e.i("c", i).i("own", c[i]->pol().own).i("cown", c[i]->cpol().own).i("seen", a->mallocs);
            e.b("same", c[i]->pol().a == a && c[i]->cpol().a == a);
            obs(e, i);
        } else if (op == "del") {
            delete c[i];
            c[i] = nullptr;
            Ev e("del");
            e.i("c", i);
            obs(e, i);
        } else {
            bad_script(op);
        }
    }
};

int main(int argc, char** argv) {
    HashDriver d;
    return drive(argc, argv, &d);
}
