// Driver for RefcountedThreadsafe and VirtualRefcountedThreadsafe (C06).
#include "vsched.h"
#include <amtl/am-refcounting-threadsafe.h>
using namespace vh;
using vs::Rec;
using vs::S;

// Objects live in a pool that is never unmapped, so that a late access is seen rather than fatal.
static char g_pool[4096];
static size_t g_size;
static bool g_dead;
struct Pooled {
    long payload[vs::kMaxThreads] = {};
    static void* operator new(size_t n) {
        g_size = n;
        g_dead = false;
        return g_pool;
    }
    static void operator delete(void*) {}
};
static void destroyed() {
    Rec("destroy");
    g_dead = true;
}
struct Obj {
    virtual ~Obj() {}
    virtual void add() = 0;
    virtual int rel() = 0;  // 0/1, or 2 when nothing is returned
    virtual void touch(int t) = 0;
};
struct PlainObj : Pooled, ke::RefcountedThreadsafe<PlainObj> {
    ~PlainObj() { destroyed(); }
};
struct VirtObj : ke::VirtualRefcountedThreadsafe, Pooled {
    ~VirtObj() { destroyed(); }
    using Pooled::operator new;
    using Pooled::operator delete;
};
struct ImplObj : ke::IRefcounted, Pooled, ke::RefcountedThreadsafe<ImplObj> {
    ~ImplObj() { destroyed(); }
    using Pooled::operator new;
    using Pooled::operator delete;
    KE_IMPL_REFCOUNTING_TS(ImplObj)
};
struct Acc {
    std::function<void()> add;
    std::function<int()> rel;
    Pooled* p;
};
template <typename T>
static int call_release(T* o, std::true_type) { return o->Release() ? 1 : 0; }
template <typename T>
static int call_release(T* o, std::false_type) {
    o->Release();
    return 2;
}
template <typename T>
static Acc make() {
    T* o = new T();
    typedef decltype(o->Release()) R;
    Acc a;
    a.add = [o]() { o->AddRef(); };
    a.rel = [o]() { return call_release(o, std::is_same<R, bool>()); };
    a.p = o;
    return a;
}

struct Ts : Driver, vs::Program {
    std::string kind;
    std::vector<long> refs;
    std::vector<std::vector<std::string>> ops;
    Acc acc;
    std::vector<long> own;
    void begin() override {
        refs.clear();
        ops.clear();
    }
    void end() override {}
    void cmd(const std::string& op, Line& l) override {
        if (op == "kind") {
            kind = l.word();
        } else if (op == "th") {
            refs.push_back(l.num());
            ops.emplace_back();
            while (l.more())
                ops.back().push_back(l.word());
        } else if (!vs::command(op, l, *this)) {
            bad_script(op);
        }
    }
    void setup() override {
        vs::S().recording = false;
        acc = kind == "plain" ? make<PlainObj>() : kind == "virt" ? make<VirtObj>() : make<ImplObj>();
        std::vector<long> r = refs;
        r.resize(4, 0);
        for (long n : refs)
            for (long k = 0; k < n; k++)
                acc.add();
        vs::S().recording = true;
        S().on_access = [](const volatile void* p) {
            if (g_dead && (char*)p >= g_pool && (char*)p < g_pool + g_size)
                Rec("late");  // an atomic access to the object after its destruction
        };
        Rec("begin").seq("refs", r).str("kind", kind);
        own = r;
    }
    void release(int t) {
        own[t]--;
        Rec("release");
        int r = acc.rel();
        Rec("release_ret").i("res", r);
    }
    std::vector<std::function<void()>> bodies() override {
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < ops.size(); t++)
            b.push_back([this, t]() {
                for (auto& o : ops[t]) {
                    if (own[t] == 0)
                        break;
                    if (o == "a") {
                        own[t]++;
                        Rec("addref");
                        acc.add();
                        Rec("addref_ret");
                    } else if (o == "r") {
                        release((int)t);
                    } else if (o == "t") {
                        acc.p->payload[t]++;
                        Rec("touch");
                    }
                }
                while (own[t] > 0)
                    release((int)t);
            });
        return b;
    }
    void finish() override { Rec("finish"); }
};
int main(int argc, char** argv) {
    vs::install();
    Ts d;
    return drive(argc, argv, &d, 100);
}
