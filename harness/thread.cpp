// Driver for am-thread.h (C30). Threads stop at gates, so that scripts decide the order of events: pthread_create and
// pthread_setname_np are interposed.
#include "vh.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <array>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <system_error>
#include <amtl/am-thread.h>
using namespace vh;

typedef std::vector<long> V;
static const int N = 3, M = 64;
struct Slot {
    // script side
    bool fail = false, gated = true, hasfn = false;
    int hasobj = 0;
    // thread side, under the lock
    bool go = false, leave = false, inside = false, over = false;
    int runs = 0;
    V args;
    std::string name;
    bool elsewhere = false;
    std::unique_ptr<std::thread> t;
    // originals
    int ofns = 0, oobjs = 0;
};
static std::mutex* g_mu = new std::mutex;
static std::condition_variable* g_cv = new std::condition_variable;
static Slot* g_slot = new Slot[M];
static std::atomic<int> g_fns[M], g_objs[M];
static pthread_t g_main;
static thread_local int t_me = 0;      // slot of this thread
static int g_next = 0;                 // slot of the thread that is being created; 0: not ours
static bool g_refuse = false;
static std::function<void()>* g_inner = nullptr;

typedef int (*create_fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*name_fn)(pthread_t, const char*);
struct Start {
    void* (*f)(void*);
    void* arg;
    int k;
};
static void* body(void* p) {
    Start s = *(Start*)p;
    free(p);
    t_me = s.k;
    {
        std::unique_lock<std::mutex> g(*g_mu);
        if (g_slot[s.k].gated)
            g_cv->wait(g, [&] { return g_slot[s.k].go; });
    }
    void* r = s.f(s.arg);
    std::unique_lock<std::mutex> g(*g_mu);
    g_slot[s.k].over = true;
    g_cv->notify_all();
    return r;
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    static create_fn real = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
    if (!g_next)
        return real(t, a, f, arg);
    int k = g_next;
    g_next = 0;
    if (g_refuse)
        return EAGAIN;
    Start* s = (Start*)malloc(sizeof *s);
    *s = Start{f, arg, k};
    int r = real(t, a, body, s);
    if (r)
        return r;
    if (g_inner)
        (*g_inner)();
    return 0;
}
extern "C" int pthread_setname_np(pthread_t t, const char* n) {
    static name_fn real = (name_fn)dlsym(RTLD_NEXT, "pthread_setname_np");
    if (t_me && g_slot[t_me].fail)
        return ENOMEM;
    return real(t, n);
}

// ---- callables and arguments that are counted -----------------------------------------------
struct Obj {
    int k;
    long v;
    Obj(int k, long v) : k(k), v(v) { g_objs[k]++; }
    Obj(const Obj& o) : k(o.k), v(o.v) { g_objs[k]++; }
    Obj(Obj&& o) : k(o.k), v(o.v) {
        o.v = -1;
        g_objs[k]++;
    }
    ~Obj() {
        v = -99;
        g_objs[k]--;
    }
};
struct Only {  // can be moved only
    Obj o;
    Only(int k, long v) : o(k, v) {}
    Only(Only&&) = default;
};
static std::string name_now() {
    char b[64] = "";
    pthread_getname_np(pthread_self(), b, sizeof b);
    return b;
}
static void enter(int k, const V& args) {
    std::unique_lock<std::mutex> g(*g_mu);
    Slot& s = g_slot[k];
    s.runs++;
    s.args = args;
    s.name = name_now();
    s.elsewhere = !pthread_equal(pthread_self(), g_main) && t_me == k;
    s.inside = true;
    g_cv->notify_all();
    if (s.gated && s.elsewhere)
        g_cv->wait(g, [&] { return s.leave; });
}
struct Fn {  // a function object with state
    Obj o;
    Fn(int k, long v) : o(k, v) {}
    void operator()(const Obj& a, int b, const std::string& c) { enter(o.k, {o.v, a.v, b, (long)c.size(), c.empty() ? 0 : c[0]}); }
};
struct FnMO {
    Only o;
    FnMO(int k, long v) : o(k, v) {}
    void operator()(Only& a, std::unique_ptr<int>& p) { enter(o.o.k, {o.o.v, a.o.v, p ? *p : -1}); }
};
static void plain(int k, long a, const char* s, Obj o) { enter(k, {a, s[0], o.v}); }
static void noargs1() { enter(1, {}); }
static void noargs2() { enter(2, {}); }
static void noargs3() { enter(3, {}); }
static void five(int k, signed char a, unsigned short b, long long c, double d, Obj& o) {
    o.v++;
    enter(k, {a, b, (long)c, (long)(d * 2), o.v});
}
struct Host {
    int k;
    long v;
    void member(int a, Obj& o) { enter(k, {v, a, o.v}); }
};
static long g_cell[M];
static void by_ref(int k, long& cell, Obj& o) {
    cell += 5;
    enter(k, {cell, o.v});
}

static char g_name[64];  // the creator's buffer
static std::vector<std::function<void()>>* g_spoil = new std::vector<std::function<void()>>;

struct Th : Driver {
    std::string me0;
    void begin() override {
        g_main = pthread_self();
        for (int k = 0; k < M; k++) {
            g_slot[k] = Slot();
            g_fns[k] = g_objs[k] = 0;
            g_cell[k] = 0;
        }
        me0 = name_now();
        g_spoil->clear();
    }
    void end() override {
        for (int k = 1; k < M; k++)
            if (g_slot[k].t) {
                {
                    std::unique_lock<std::mutex> g(*g_mu);
                    g_slot[k].go = g_slot[k].leave = true;
                    g_cv->notify_all();
                }
                if (g_slot[k].t->joinable())
                    g_slot[k].t->join();
                g_slot[k].t.reset();
            }
        g_spoil->clear();
    }
    static std::string js(const V& v) {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); i++)
            s += (i ? "," : "") + std::to_string(v[i]);
        return s + "]";
    }
    static V codes(const std::string& s) {
        V r;
        for (unsigned char c : s)
            r.push_back(c);
        return r;
    }
    static std::string one(int k, const std::string& extra) {
        Slot& s = g_slot[k];
        return "{\"runs\":" + std::to_string(s.runs) + ",\"args\":" + js(s.args) + ",\"elsewhere\":" + (s.elsewhere ? "true" : "false") +
               ",\"name\":" + js(codes(s.name)) + ",\"fns\":0,\"objs\":" + std::to_string(g_objs[k] - s.oobjs) +
               ",\"hasfn\":0,\"hasobj\":" + std::to_string(s.hasobj) + ",\"joinable\":" + (s.t && s.t->joinable() ? "true" : "false") + extra + "}";
    }
    void obs(Ev& e) {
        std::unique_lock<std::mutex> g(*g_mu);
        std::string s;
        for (int k = 1; k <= N; k++)
            s += (k > 1 ? "," : "") + one(k, "");
        e.key("th").s += "[" + s + "]";
        e.str("me", name_now() == me0 ? "creator" : "renamed");
    }
    void act(const std::string& op, int k) {
        Slot& s = g_slot[k];
        if (op == "start") {
            {
                std::unique_lock<std::mutex> g(*g_mu);
                s.go = true;
                g_cv->notify_all();
                g_cv->wait(g, [&] { return s.inside || s.over; });
            }
            Ev e("start");
            e.i("k", k);
            obs(e);
        } else if (op == "end") {
            {
                std::unique_lock<std::mutex> g(*g_mu);
                s.leave = true;
                g_cv->notify_all();
                g_cv->wait(g, [&] { return s.over; });
            }
            Ev e("end");
            e.i("k", k);
            obs(e);
        } else if (op == "spoil") {
            memset(g_name, 'Z', sizeof g_name - 1);
            for (auto& f : *g_spoil)
                f();
            g_spoil->clear();
            Ev e("spoil");
            obs(e);
        } else if (op == "rename") {
        } else
            bad_script(op);
    }
    // creates thread k of the given kind, calls it with values derived from v
    template <typename Born>
    static V create(int k, const std::string& kind, long v, const char* name, Born born) {
        Slot& s = g_slot[k];
        auto spoil = [&](std::function<void()> f) { g_spoil->push_back(f); };
        auto go = [&](V want, int hasobj, int originals, auto&& mk) {
            s.hasobj = hasobj;
            s.oobjs = originals;
            born(want);
            g_next = k;
            s.t = mk();
            g_next = 0;
        };
        if (kind == "fn") {  // everything copied from objects that are spoilt afterwards
            auto f = std::make_shared<Fn>(k, v);
            auto a = std::make_shared<Obj>(k, v + 1);
            auto b = std::make_shared<int>((int)v + 2);
            auto c = std::make_shared<std::string>(std::string(v % 40, 'q'));
            // (the originals live until they are spoilt)
            spoil([=] {
                f->o.v = a->v = -5;
                *b = -5;
                c->assign("spoilt");
                g_slot[k].oobjs -= 2;
            });
            go({v, v + 1, v + 2, v % 40, v % 40 ? 'q' : 0}, 2, 2, [&] { return ke::NewThread(name, *f, *a, *b, *c); });
        } else if (kind == "fnconst") {  // the same, from constants
            auto f = std::make_shared<const Fn>(k, v);
            auto a = std::make_shared<const Obj>(k, v + 1);
            spoil([f, a, k] { g_slot[k].oobjs -= 2; });
            const std::string c("const");
            go({v, v + 1, 3, 5, 'c'}, 2, 2, [&] { return ke::NewThread(name, *f, *a, 3, c); });
        } else if (kind == "fnmove") {  // moved into the thread
            go({v, v + 1, 7, 2, 'x'}, 2, 0, [&] { return ke::NewThread(name, Fn(k, v), Obj(k, v + 1), 7, std::string("xx")); });
        } else if (kind == "only") {  // what can only be moved
            go({v, v + 1, v + 2}, 2, 0, [&] { return ke::NewThread(name, FnMO(k, v), Only(k, v + 1), std::make_unique<int>((int)v + 2)); });
        } else if (kind == "plain") {  // a function
            go({v, 'l', v + 1}, 1, 0, [&] { return ke::NewThread(name, plain, k, v, "literal", Obj(k, v + 1)); });
        } else if (kind == "pplain") {  // a pointer to one
            auto p = &plain;
            go({v, 'l', v + 1}, 1, 0, [&] { return ke::NewThread(name, p, k, v, "literal", Obj(k, v + 1)); });
        } else if (kind == "none") {
            go({}, 0, 0, [&] { return k == 1 ? ke::NewThread(name, noargs1) : k == 2 ? ke::NewThread(name, &noargs2) : ke::NewThread(name, [] { noargs3(); }); });
        } else if (kind == "five") {
            go({-3, 65535, v, 5, v + 2}, 1, 0, [&] { return ke::NewThread(name, five, k, (signed char)-3, (unsigned short)65535, (long long)v, 2.5, Obj(k, v + 1)); });
        } else if (kind == "member") {  // on a copy of the object
            auto h = std::make_shared<Host>(Host{k, v});
            spoil([=] { h->v = -5; });
            go({v, 4, v + 1}, 1, 0, [&] { return ke::NewThread(name, &Host::member, *h, 4, Obj(k, v + 1)); });
        } else if (kind == "memberp") {  // on the object pointed to
            static Host hosts[M];
            hosts[k] = Host{k, v};
            go({v, 4, v + 1}, 1, 0, [&] { return ke::NewThread(name, &Host::member, &hosts[k], 4, Obj(k, v + 1)); });
        } else if (kind == "ref") {  // std::ref passes a reference on
            g_cell[k] = v;
            go({v + 5, v + 1}, 1, 0, [&] { return ke::NewThread(name, by_ref, k, std::ref(g_cell[k]), Obj(k, v + 1)); });
        } else if (kind == "stdfn") {
            Obj o(k, v);
            std::function<void(int)> f = [o, k](int a) { enter(k, {o.v, a}); };
            // f and o are gone when this returns
            go({v, 9}, 1, 2, [&] { return ke::NewThread(name, f, 9); });
            s.oobjs -= 2;
        } else if (kind == "lambda") {  // mutable, its state changes by the call
            Obj o(k, v);
            auto f = [o, k]() mutable {
                o.v++;
                enter(k, {o.v});
            };
            go({v + 1}, 1, 2, [&] { return ke::NewThread(name, f); });
            s.oobjs -= 2;
        } else
            bad_script(kind);
        return {};
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "new") {
            // new k kind v refuse fail name [inner ops: start k / end k ...]
            int k = l.num();
            std::string kind = l.word();
            long v = l.num();
            bool refuse = l.num(), fail = l.num();
            std::string name = l.hex();
            std::vector<std::pair<std::string, int>> inner;
            while (l.more()) {
                std::string o = l.word();
                inner.push_back({o, (int)l.num()});
            }
            g_slot[k].fail = fail;
            strcpy(g_name, name.c_str());
            g_refuse = refuse;
            V want;
            std::function<void()> in = [&] {
                {
                    Ev e("born");
                    e.i("k", k).seq("name", codes(name)).b("fail", fail).seq("args", want).str("kind", kind.c_str());
                    obs(e);
                }
                for (auto& o : inner)
                    act(o.first, o.second);
            };
            g_inner = &in;
            bool ok = true;
            try {
                create(k, kind, v, g_name, [&](const V& w) { want = w; });
            } catch (const std::system_error&) {
                ok = false;
                if (kind == "stdfn" || kind == "lambda")
                    g_slot[k].oobjs = 0;
            }
            g_next = 0;
            g_inner = nullptr;
            g_refuse = false;
            if (!ok) {
                for (auto& f : *g_spoil)
                    f();
                g_spoil->clear();
            }
            Ev e(ok ? "return" : "refuse");
            e.i("k", k);
            obs(e);
        } else if (op == "start" || op == "end" || op == "spoil") {
            act(op, op == "spoil" ? 0 : l.num());
        } else if (op == "join") {
            int k = l.num();
            g_slot[k].t->join();
            Ev e("join");
            e.i("k", k);
            obs(e);
        } else if (op == "rename") {
            int k = l.num();
            std::string name = l.hex();
            char* b = strdup(name.c_str());
            ke::SetThreadName(g_slot[k].t.get(), b);
            free(b);
            char now[64] = "";
            pthread_getname_np(g_slot[k].t->native_handle(), now, sizeof now);
            g_slot[k].name = now;
            Ev e("rename");
            e.i("k", k).seq("name", codes(name));
            obs(e);
        } else if (op == "storm") {
            // storm n v: n threads that nobody holds back
            int n = l.num();
            long v = l.num();
            static const char* kinds[] = {"fn", "fnmove", "only", "plain", "five", "member", "memberp", "ref", "stdfn", "lambda", "fnconst", "pplain"};
            std::string s;
            std::vector<V> want(n + 1);
            std::vector<std::string> asked(n + 1);
            int b = 8;  // slots above those of the histories
            for (int i = 1; i <= n; i++) {
                Slot& x = g_slot[b + i];
                x = Slot();
                x.gated = false;
                asked[i] = std::string((v + i) % 19, 'a' + i % 26);
                strcpy(g_name, asked[i].c_str());
                create(b + i, kinds[(v * 7 + i) % 12], v + i, g_name, [&](const V& w) { want[i] = w; });
                memset(g_name, 'Z', sizeof g_name - 1);
                if (i % 3)
                    for (auto& f : *g_spoil)
                        f();
                if (i % 3)
                    g_spoil->clear();
            }
            for (int i = 1; i <= n; i++) {
                int j = (i * 5) % n + 1;
                if (g_slot[b + j].t->joinable())
                    g_slot[b + j].t->join();
            }
            for (int i = 1; i <= n; i++)
                if (g_slot[b + i].t->joinable())
                    g_slot[b + i].t->join();
            for (auto& f : *g_spoil)
                f();
            g_spoil->clear();
            for (int i = 1; i <= n; i++)
                s += (i > 1 ? "," : "") + one(b + i, ",\"want\":" + js(want[i]) + ",\"asked\":" + js(codes(asked[i])));
            Ev e("storm");
            e.key("th").s += "[" + s + "]";
        } else
            bad_script(op);
    }
};
int main(int argc, char** argv) {
    Th d;
    return drive(argc, argv, &d, 60);
}
