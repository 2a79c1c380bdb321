// Driver for C34: calls whose preconditions hold, and one at the end of a script whose precondition does not.
// Assertions are enabled in every build of it.
#undef NDEBUG
#include "vchild.h"
#include <amtl/am-bits.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-mutex.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
#include <amtl/experimental/am-argparser.h>
#include <mutex>
#include <thread>

using namespace vh;

struct Node : ke::InlineListNode<Node> {
    int v = 0;
};
struct Link : ke::StackLinked<Link> {
    explicit Link(Link** p) : ke::StackLinked<Link>(p) {}
};
static int g_die;  // what a destructor does to its own object
static long g_dead;
struct Rc : ke::Refcounted<Rc> {
    long pad = 0;
    ~Rc() { g_dead++; }
};
struct VRc : ke::VirtualRefcounted {
    ~VRc() override {
        if (g_die)
            AddRef();
        g_dead++;
    }
};
struct VTs : ke::VirtualRefcountedThreadsafe {
    ~VTs() override {
        if (g_die)
            AddRef();
        g_dead++;
    }
};
struct alignas(8) Ts : ke::RefcountedThreadsafe<Ts> {
    ~Ts() { g_dead++; }
};
struct Hash {
    static uint32_t hash(int k) { return (uint32_t)k; }
    static bool matches(int a, int b) { return a == b; }
};
struct Entry {
    int key = 0, value = 0;
};
struct HashE {
    typedef Entry Payload;
    static uint32_t hash(int k) { return (uint32_t)k; }
    static bool matches(int a, const Entry& b) { return a == b.key; }
};

struct ContractDriver : ChildDriver {
    std::string kind;
    int sub = 0;  // flavour of the object under test
    ke::FixedArray<long>* arr = nullptr;
    ke::Maybe<std::string> may;
    ke::Function<long(long)> fun;
    ke::PriorityQueue<int>* pq = nullptr;
    ke::PriorityQueue<std::string>* pqs = nullptr;
    ke::InlineList<Node>* list[2] = {};
    Node* node[3] = {};
    ke::HashTable<HashE>* tab = nullptr;
    ke::HashMap<int, int, Hash>* map = nullptr;
    ke::HashSet<int, Hash>* set = nullptr;
    Rc* rc = nullptr;
    VRc* vrc = nullptr;
    VTs* vts = nullptr;
    Link* top = nullptr;
    std::vector<Link*> links;
    ke::Mutex mtx;

    void ret(bool ok) {
        Ev e("ret");
        e.b("ok", ok);
    }
    void run(const std::string& op, Line& l) override {
        if (op == "kind") {
            kind = l.word();
            sub = (int)l.num();
            Ev e("kind");
            e.str("kind", kind.c_str()).i("sub", sub);
            if (kind == "arr") arr = new ke::FixedArray<long>();
            if (kind == "pq") pq = new ke::PriorityQueue<int>(), pqs = new ke::PriorityQueue<std::string>();
            if (kind == "list") {
                for (auto& x : list)
                    x = new ke::InlineList<Node>();
                for (auto& n : node)
                    n = new Node;
            }
            if (kind == "rc") {
                rc = new Rc, vrc = new VRc, vts = new VTs;
                g_die = sub & 4 ? 1 : 0;
                g_dead = 0;
            }
            return;
        }
        if (kind == "bits") {
            uint64_t a = l.u64(), c = l.u64();
            {
                std::vector<int> bits;
                for (int i = 0; i < 64; i++)
                    if (a >> i & 1)
                        bits.push_back(i);
                Ev e("call");
                e.str("f", op.c_str()).seq("bits", bits).i("a", 0).i("b", 0);
            }
            if (op == "log2") (void)ke::Log2((size_t)a);
            else if (op == "left32") (void)ke::FindLeftmostBit32((uint32_t)a);
            else if (op == "left64") (void)ke::FindLeftmostBit64(a);
            else if (op == "right") (void)ke::FindRightmostBit((size_t)a);
            else if (op == "align") (void)ke::Align((size_t)c, (size_t)a);
            else if (op == "aligned") (void)ke::IsAligned((uintptr_t)c, (size_t)a);
            else if (op == "base") (void)ke::AlignedBase((void*)c, (size_t)a);
            else bad_script(op);
            ret(true);
            return;
        }
        if (kind == "text") {
            std::string s = l.hex();
            std::string t = l.hex();
            {
                Ev e("call");
                e.str("f", op.c_str()).bytes("s", s).bytes("t", t).i("a", 0).i("b", 0);
            }
            if (op == "split") {
                auto r = sub & 1 ? ke::Split(s, t.c_str()) : ke::Split(s.c_str(), t.c_str());
                ret(!r.empty() || s.empty());
            } else {
                bad_script(op);
            }
            return;
        }
        if (kind == "option") {
            std::string w[3];
            const char* p[3];
            for (int i = 0; i < 3; i++) {
                w[i] = l.word();
                p[i] = w[i] == "~" ? nullptr : w[i] == "." ? "" : w[i].c_str();
            }
            {
                Ev e("call");
                e.str("f", "option").i("a", 0).i("b", 0);
                e.b("sn", !p[0]).b("ln", !p[1]).b("nn", !p[2]);
                e.bytes("s", p[0] ? p[0] : "").bytes("l", p[1] ? p[1] : "").bytes("n", p[2] ? p[2] : "");
            }
            {
                ke::args::Parser parser("x");
                struct Own : ke::args::IOption {
                    Own(const char* a, const char* b, const char* c) : IOption(a, b, c, "help") {}
                    bool consumeValue(const char*) override { return false; }
                };
                if ((sub & 1) || (p[2] && (p[0] || p[1]))) {
                    Own o(p[0], p[1], p[2]);
                } else if (p[2]) {
                    ke::args::StringOption o(parser, p[2], "help");
                } else {
                    ke::args::StringOption o(parser, p[0], p[1], ke::Some(std::string("d")), "help");
                }
            }
            ret(true);
            return;
        }
        long a = l.num(), b = l.num();
        {
            Ev e("call");
            e.str("f", op.c_str()).i("a", a).i("b", b);
        }
        bool ok = true;
        if (kind == "arr") {
            const ke::FixedArray<long>& c = *arr;
            if (op == "set") *arr = ke::FixedArray<long>((size_t)a);
            else if (op == "at") (sub & 1 ? c.at((size_t)a) : arr->at((size_t)a)), ok = true;
            else if (op == "idx") {
                if (sub & 1) ok = &c[(size_t)a] == c.begin() + a;
                else (*arr)[(size_t)a] = 5;
            } else if (op == "back") {
                if (sub & 1) ok = &c.back() == c.end() - 1;
                else arr->back() = 7;
            } else bad_script(op);
        } else if (kind == "maybe") {
            const ke::Maybe<std::string>& c = may;
            if (op == "set") may.init("value");
            else if (op == "none") may = ke::Nothing();
            else if (op == "mvout") { ke::Maybe<std::string> o(std::move(may)); may = ke::Nothing(); }
            else if (op == "get") ok = (sub & 1 ? c.get() : may.get()) == "value";
            else if (op == "star") ok = (sub & 1 ? *c : *may) == "value";
            else if (op == "arrow") ok = (sub & 1 ? c->size() : may->size()) == 5;
            else bad_script(op);
        } else if (kind == "fun") {
            long x[8] = {3, 0, 0, 0, 0, 0, 0, 0};
            if (op == "set") {
                if (sub & 1) fun = [x](long y) -> long { return x[0] + y; };
                else fun = [](long y) -> long { return 3 + y; };
            }
            else if (op == "none") fun = nullptr;
            else if (op == "mvout") { ke::Function<long(long)> o(std::move(fun)); ok = o(1) == 4; }
            else if (op == "call") ok = fun(4) == 7;
            else bad_script(op);
        } else if (kind == "pq") {
            if (op == "push") sub & 1 ? pqs->add("abc") : pq->add(3);
            else if (op == "pop") ok = sub & 1 ? pqs->pop() == "abc" : pq->pop() == 3;
            else if (op == "peek") ok = sub & 1 ? pqs->peek() == "abc" : pq->peek() == 3;
            else bad_script(op);
        } else if (kind == "list") {
            if (op == "append") list[b]->append(node[a]);
            else if (op == "remove") list[b]->remove(node[a]);
            else if (op == "leave") node[a]->removeFromParentList();
            else if (op == "drop") { delete list[b]; list[b] = new ke::InlineList<Node>(); }
            else bad_script(op);
        } else if (kind == "tab") {
            int s = sub % 3;
            if (op == "init") {
                delete tab;
                delete map;
                delete set;
                tab = new ke::HashTable<HashE>();
                map = new ke::HashMap<int, int, Hash>();
                set = new ke::HashSet<int, Hash>();
                ok = s == 0 ? tab->init((size_t)a) : s == 1 ? map->init((size_t)a) : set->init((size_t)a);
            } else if (op == "add" || op == "addtwice") {
                int n = op == "add" ? 1 : 2, k = (int)a;
                if (s == 0) {
                    auto i = tab->findForAdd(k);
                    while (n--) {
                        if (b) ok = tab->add(i, Entry());
                        else ok = tab->add(i);
                        i->key = k;
                    }
                } else if (s == 1) {
                    auto i = map->findForAdd(k);
                    while (n--)
                        ok = b ? map->add(i, k, 4) : map->add(i, k);
                } else {
                    auto i = set->findForAdd(k);
                    while (n--)
                        ok = set->add(i, k);
                }
            } else if (op == "rm" || op == "rmtwice") {
                int n = op == "rm" ? 1 : 2, k = (int)a;
                if (s == 0) {
                    auto r = tab->find(k);
                    while (n--)
                        tab->remove(r);
                } else if (s == 1) {
                    auto r = map->find(k);
                    while (n--)
                        map->remove(r);
                } else {
                    auto r = set->find(k);
                    while (n--)
                        set->remove(r);
                }
            } else if (op == "see") {  // through the result of a find
                int k = (int)a;
                if (s == 0) {
                    auto r = tab->find(k);
                    ok = b ? (*r).key == k : r->key == k;
                } else if (s == 1) {
                    auto r = map->find(k);
                    ok = b ? (*r).key == k : r->key == k;
                } else {
                    auto r = set->find(k);
                    ok = *r == k;
                }
            } else if (op == "itsee" || op == "iterase" || op == "iterase2") {  // after a steps
                auto go = [&](auto it) {
                    for (long n = 0; n < a && !it.empty(); n++)
                        it.next();
                    if (op == "itsee") {
                        if (b) (void)*it;
                        else (void)it.operator->();
                    } else {
                        it.erase();
                        if (op == "iterase2")
                            it.erase();
                    }
                };
                if (s == 0) go(ke::HashTable<HashE>::iterator(tab));
                else if (s == 1) go(map->iter());
                else go(set->iter());
            } else bad_script(op);
        } else if (kind == "rc") {
            long dead = g_dead;
            switch (sub & 3) {
            case 0: op == "ref" ? rc->AddRef() : rc->Release(); break;
            case 1: op == "ref" ? vrc->AddRef() : vrc->Release(); break;
            case 2: op == "ref" ? vts->AddRef() : vts->Release(); break;
            default: bad_script("rc");
            }
            Ev e("ret");
            e.b("ok", true).b("died", g_dead != dead);
            return;
        } else if (kind == "stack") {
            if (op == "push") links.push_back(new Link(&top));
            else if (op == "pop") {
                delete links[(size_t)a];
                links.erase(links.begin() + a);
            } else bad_script(op);
        } else if (kind == "aref") {
            static Ts* obj = nullptr;
            obj = new Ts;
            obj->AddRef();
            ke::AtomicRef<Ts>* r = new ke::AtomicRef<Ts>(a ? (Ts*)((char*)obj + a) : obj);
            (void)r;
        } else if (kind == "mutex") {
            if (op == "lock") mtx.lock();
            else if (op == "unlock") mtx.unlock();
            else if (op == "assert") mtx.AssertCurrentThreadOwns();
            else if (op == "other") {  // another thread asserts
                std::thread t([&] { mtx.AssertCurrentThreadOwns(); });
                t.join();
            } else if (op == "otherlock") {
                std::thread t([&] {
                    mtx.lock();
                    mtx.AssertCurrentThreadOwns();
                    mtx.unlock();
                });
                t.join();
            } else bad_script(op);
        } else {
            bad_script(kind);
        }
        ret(ok);
    }
};

int main(int argc, char** argv) {
    ContractDriver d;
    return drive(argc, argv, &d);
}
