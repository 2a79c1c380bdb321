// Driver for am-raii.h (C23).
#include "vh.h"
#include <functional>
#include <memory>
#include <amtl/am-raii.h>
using namespace vh;

static const int NC = 3, NS = 8, NH = 2;
static std::vector<long> g_runs;

struct Node : ke::StackLinked<Node> {
    int id;
    Node(Node** h, int i) : ke::StackLinked<Node>(h), id(i) {}
    Node* prev() const { return prev_; }
};
// converting between values of the cell's type and numbers; 0 is the default value
static char g_chars[65536];
template <typename T> struct Conv;
template <> struct Conv<long> { static long make(long x) { return x; } static long num(long v) { return v; } };
template <> struct Conv<std::string> {
    static std::string make(long x) { return x ? "a string of some length, number " + std::to_string(x) : ""; }
    static long num(const std::string& s) { return s.empty() ? 0 : s.size() > 32 ? atol(s.c_str() + 32) : -5; }
};
template <> struct Conv<char*> { static char* make(long x) { return x ? g_chars + x : nullptr; } static long num(char* p) { return p ? p - g_chars : 0; } };
template <> struct Conv<Tracked> { static Tracked make(long x) { return Tracked(x); } static long num(const Tracked& t) { return t.get(); } };

struct World {
    virtual ~World() {}
    virtual void save(int o, int c, long x) = 0;
    virtual void unsave(int o) = 0;
    virtual void write(int c, long x) = 0;
    virtual long take(int c) = 0;
    virtual long cell(int c) = 0;
    virtual int held() = 0;
    virtual void frames(int k, int n, int how, const std::set<int>& off, Node** head, std::function<void(int)> saw) = 0;
};
template <typename T>
struct WorldOf : World {
    std::vector<T> cells;
    std::unique_ptr<ke::SaveAndSet<T>> s[NS];
    WorldOf() { cells.resize(NC); for (auto& c : cells) c = Conv<T>::make(0); }
    void save(int o, int c, long x) override {
        T v = Conv<T>::make(x);
        s[o].reset(new ke::SaveAndSet<T>(&cells[c], v));
    }
    void unsave(int o) override { s[o].reset(); }
    void write(int c, long x) override { cells[c] = Conv<T>::make(x); }
    long take(int c) override { T t = ke::ReturnAndVoid(cells[c]); return Conv<T>::num(t); }
    long cell(int c) override { return Conv<T>::num(cells[c]); }
    int held() override {
        int n = 0;
        for (auto& p : s)
            n += !!p;
        // with tracked values: no copy outlives its SaveAndSet
        if (std::is_same<T, Tracked>::value && !n)
            n += (int)life().live.size() - NC;
        return n;
    }
    void frames(int k, int n, int how, const std::set<int>& off, Node** head, std::function<void(int)> saw) override {
        ke::SaveAndSet<T> sv(&cells[0], Conv<T>::make(1000 + k));
        Node node(head, 100 + k);
        auto g = ke::MakeScopeGuard([&saw, k]() { saw(k); });
        if (off.count(k))
            g.cancel();
        if (how == 2) {  // handed to a guard in an inner scope that ends last of all here
            auto g2 = std::move(g);
            deeper(k, n, how, off, head, saw);
            return;
        }
        deeper(k, n, how, off, head, saw);
    }
    void deeper(int k, int n, int how, const std::set<int>& off, Node** head, std::function<void(int)> saw) {
        if (k < n)
            frames(k + 1, n, how, off, head, saw);
        else if (how == 1)
            throw 7;
    }
};
struct GuardBase {
    virtual ~GuardBase() {}
    virtual void cancel() = 0;
    virtual GuardBase* move() = 0;
};
template <typename F>
struct GuardOf : GuardBase {
    ke::ScopeGuard<F> g;
    GuardOf(F&& f) : g(std::forward<F>(f)) {}
    GuardOf(ke::ScopeGuard<F>&& o) : g(std::move(o)) {}
    void cancel() override { g.cancel(); }
    GuardBase* move() override { return mv(std::integral_constant<bool, std::is_reference<F>::value>()); }
    GuardBase* mv(std::false_type) { return new GuardOf(std::move(g)); }
    GuardBase* mv(std::true_type) { return nullptr; }
};
struct Stateful {
    std::unique_ptr<long> id;
    std::string pad = "padding that does not fit in the object";
    explicit Stateful(long i) : id(new long(i)) {}
    Stateful(Stateful&&) = default;
    void operator()() { g_runs.push_back(id && pad.size() == 39 ? *id : -1); }
};
static long g_fid;
static void plain() { g_runs.push_back(g_fid); }

struct Raii : Driver {
    World* w = nullptr;
    std::unique_ptr<GuardBase> g[NS];
    std::unique_ptr<Stateful> lv[NS];
    Node* heads[NH];
    Node* nodes[NS];
    void begin() override {
        w = nullptr;
        for (auto& h : heads) h = nullptr;
        for (auto& n : nodes) n = nullptr;
        g_runs.clear();
        life().reset();
    }
    void end() override {
        for (auto& p : g) p.reset();
        for (auto& p : lv) p.reset();
        for (int h = 0; h < NH; h++)
            while (heads[h]) {
                Node* n = heads[h];
                delete n;
            }
        delete w;
    }
    void obs(Ev& e) {
        std::vector<long> cs;
        for (int c = 0; c < NC; c++)
            cs.push_back(w->cell(c));
        std::vector<std::vector<long>> ch(NH);
        for (int h = 0; h < NH; h++) {
            int lim = 0;
            for (Node* n = heads[h]; n && lim++ < 20; n = n->prev())
                ch[h].push_back(n->id);
        }
        e.seq("cells", cs).seq2("chains", ch).seq("runs", g_runs).i("held", w->held()).i("faults", life().faults);
        g_runs.clear();
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "type") {
            std::string t = l.word();
            if (t == "long") w = new WorldOf<long>;
            else if (t == "str") w = new WorldOf<std::string>;
            else if (t == "ptr") w = new WorldOf<char*>;
            else w = new WorldOf<Tracked>;
            return;
        }
        if (op == "frames") {
            int n = (int)l.num(), how = (int)l.num();
            std::set<int> off;
            while (l.more())
                off.insert((int)l.num());
            std::string seen;
            auto saw = [&](int k) {
                int links = 0;
                for (Node* x = heads[0]; x; x = x->prev())
                    links++;
                seen += (seen.empty() ? "" : ",") + ("{\"f\":" + std::to_string(k)) + ",\"cell\":" + std::to_string(w->cell(0)) + ",\"links\":" + std::to_string(links) + "}";
            };
            try {
                if (n)
                    w->frames(1, n, how, off, &heads[0], saw);
            } catch (int) {
            }
            Ev e("frames");
            e.i("n", n).seq("off", off);
            e.key("seen").s += "[" + seen + "]";
            obs(e);
            return;
        }
        int a = (int)l.num(), b = (int)l.num();
        long x = l.num();
        int kind = l.more() ? (int)l.num() : 0;
        if (op == "save") w->save(a, b, x);
        else if (op == "unsave") w->unsave(a);
        else if (op == "write") w->write(a, x);
        else if (op == "take") x = w->take(a);
        else if (op == "link") nodes[a] = new Node(&heads[b], a);
        else if (op == "unlink") { delete nodes[a]; nodes[a] = nullptr; }
        else if (op == "guard") {
            if (kind == 0) {
                auto f = [x]() { g_runs.push_back(x); };
                g[a].reset(new GuardOf<decltype(f)>(std::move(f)));
            } else if (kind == 1) {
                lv[a].reset(new Stateful(x));
                g[a].reset(new GuardOf<Stateful&>(*lv[a]));
            } else if (kind == 2) {
                std::function<void()> f = [x]() { g_runs.push_back(x); };
                g[a].reset(new GuardOf<std::function<void()>>(std::move(f)));
            } else if (kind == 3) {
                g[a].reset(new GuardOf<Stateful>(Stateful(x)));
            } else {
                g_fid = x;
                void (*p)() = plain;
                g[a].reset(new GuardOf<void (*)()>(std::move(p)));
            }
        } else if (op == "cancel") g[a]->cancel();
        else if (op == "move") {
            GuardBase* n = g[b]->move();
            if (!n) bad_script("this guard cannot be moved");
            g[a].reset(n);
        } else if (op == "unguard") g[a].reset();
        else bad_script(op);
        Ev e(op.c_str());
        e.i("a", a).i("b", b).i("x", x);
        obs(e);
    }
};
int main(int argc, char** argv) {
    Raii d;
    return drive(argc, argv, &d, 60);
}
