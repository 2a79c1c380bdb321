// Driver for AtomicRef (C07).
#include "vsched.h"
#include <amtl/am-refcounting-threadsafe.h>
using namespace vh;
using vs::Rec;
using vs::S;

// Slots are reused last in, first out, so that a new object can come to where an old one was.
static const int kSlots = 12;
static const size_t kSlot = 128;
alignas(64) static char g_pool[kSlots * kSlot];
static int g_used[kSlots];      // object number, or 0
static std::vector<int> g_free;
static bool g_reuse;
static int g_next;
static const long kAlive = 0x51a5e;
struct Obj : ke::RefcountedThreadsafe<Obj> {
    long magic;
    long id;
    Obj() : magic(kAlive), id(++g_next) {
        Rec("create").i("o", id);
        g_used[((char*)this - g_pool) / kSlot] = (int)id;
    }
    ~Obj() {
        Rec("destroy").i("o", id);
        magic = 0;
    }
    static void* operator new(size_t) {
        if (g_free.empty())
            bad_script("pool");
        int i = g_reuse ? g_free.back() : g_free.front();
        g_reuse ? g_free.pop_back() : (void)g_free.erase(g_free.begin());
        return g_pool + i * kSlot;
    }
    static void operator delete(void* p) {
        int i = (int)(((char*)p - g_pool) / kSlot);
        g_used[i] = 0;
        g_free.push_back(i);
    }
};
typedef ke::AtomicRef<Obj> Ref;

struct At : Driver, vs::Program {
    std::vector<std::vector<std::string>> ops;
    bool first = true;
    Ref* ref = nullptr;
    alignas(Ref) char mem[sizeof(Ref)];
    typedef std::unique_ptr<ke::RefPtr<Obj>> Held;
    std::vector<std::vector<Held>> held;
    void begin() override { ops.clear(); }
    void end() override {}
    void cmd(const std::string& op, Line& l) override {
        if (op == "start") {
            first = l.num();
            g_reuse = l.num();
        } else if (op == "th") {
            ops.emplace_back();
            while (l.more())
                ops.back().push_back(l.word());
        } else if (!vs::command(op, l, *this)) {
            bad_script(op);
        }
    }
    void setup() override {
        S().recording = false;
        g_free.clear();
        g_next = 0;
        for (int i = kSlots - 1; i >= 0; i--) {
            g_free.push_back(i);
            g_used[i] = 0;
        }
        if (first)
            ref = new (mem) Ref(new Obj());
        else
            ref = new (mem) Ref();
        S().recording = true;
        S().on_access = [](const volatile void* p) {
            if ((char*)p >= g_pool && (char*)p < g_pool + sizeof(g_pool) && !g_used[((char*)p - g_pool) / kSlot])
                Rec("late");
        };
        held.clear();
        held.resize(4);
        Rec("begin").i("first", first ? 1 : 0);
    }
    void touch(Obj* o) {
        long good = o->magic == kAlive && o->id > 0;
        Rec("touch").i("o", o->id).i("good", good);
    }
    void drop(int t, size_t i) {
        Held h = std::move(held[t][i]);
        held[t].erase(held[t].begin() + i);
        Rec("drop").i("o", (*h)->id);
        h = nullptr;
        Rec("drop_ret");
    }
    void write(Obj* o) {
        Rec("write").i("o", o ? o->id : 0);
        *ref = o;
        Rec("write_ret");
    }
    std::vector<std::function<void()>> bodies() override {
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < ops.size(); t++)
            b.push_back([this, t]() {
                for (auto& o : ops[t]) {
                    if (o == "R") {
                        Rec("read");
                        Held h(new ke::RefPtr<Obj>(ref->get()));
                        Obj* p = h->get();
                        Rec("read_ret").i("o", p ? p->id : 0);
                        if (p) {
                            held[t].push_back(std::move(h));
                            touch(p);
                        }
                    } else if (o == "D") {
                        if (held[t].size())
                            drop((int)t, 0);
                    } else if (o == "W") {
                        write(new Obj());
                    } else if (o == "N") {
                        write(nullptr);
                    } else if (o == "H") {
                        write(held[t].size() ? held[t][0]->get() : nullptr);
                    } else if (o == "X") {
                        for (auto& p : held[t])
                            touch(p->get());
                    } else {
                        bad_script(o);
                    }
                }
                while (held[t].size()) {
                    touch(held[t][0]->get());
                    drop((int)t, 0);
                }
            });
        return b;
    }
    void quiet() {
        std::vector<long> a;
        for (int i = 0; i < kSlots; i++)
            if (g_used[i])
                a.push_back(g_used[i]);
        Rec("quiet").seq("alive", a);
    }
    void finish() override {
        quiet();
        Rec("endref");
        ref->~Ref();
        quiet();
    }
};
int main(int argc, char** argv) {
    vs::install();
    At d;
    return drive(argc, argv, &d, 100);
}
