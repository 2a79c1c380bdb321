// Driver for am-vector.h and am-deque.h (C24).
#include "vh.h"
#include <deque>
#include <memory>
#include <vector>
#include <amtl/am-vector.h>
#include <amtl/am-deque.h>
using namespace vh;

// an allocator of its own that checks what it is given back
template <typename T>
struct Owned {
    typedef T value_type;
    int owner;
    explicit Owned(int o = 0) : owner(o) {}
    template <typename U> Owned(const Owned<U>& u) : owner(u.owner) {}
    static std::map<void*, int>& live() { static auto* m = new std::map<void*, int>; return *m; }
    T* allocate(size_t n) {
        T* p = (T*)malloc(n * sizeof(T) + 1);
        live()[p] = owner;
        return p;
    }
    void deallocate(T* p, size_t) {
        auto it = live().find(p);
        if (it == live().end() || it->second != owner)
            life().fault("freed by the wrong allocator");
        else
            live().erase(it);
        free(p);
    }
    template <typename U> bool operator==(const Owned<U>& o) const { return owner == o.owner; }
    template <typename U> bool operator!=(const Owned<U>& o) const { return owner != o.owner; }
};
struct Throwing : Tracked {  // not nothrow movable, so containers copy it when they grow
    Throwing(long v) : Tracked(v) {}
    Throwing(const Throwing& o) : Tracked(o) {}
    Throwing(Throwing&& o) noexcept(false) : Tracked(std::move(o)) {}
    Throwing& operator=(const Throwing& o) = default;
    Throwing& operator=(Throwing&& o) noexcept(false) { Tracked::operator=(std::move(o)); return *this; }
};
template <typename T> struct Conv { static T make(long x) { return T(x); } static long num(const T& t) { return t.get(); } static const bool tracked = true; };
template <> struct Conv<int> { static int make(long x) { return (int)x; } static long num(int t) { return t; } static const bool tracked = false; };
template <> struct Conv<std::string> {
    static std::string make(long x) { return "a string that is long enough " + std::to_string(x); }
    static long num(const std::string& s) { return s.size() > 29 ? atol(s.c_str() + 29) : -1; }
    static const bool tracked = false;
};
template <> struct Conv<std::unique_ptr<long>> {
    static std::unique_ptr<long> make(long x) { return std::make_unique<long>(x); }
    static long num(const std::unique_ptr<long>& p) { return p ? *p : -1; }
    static const bool tracked = false;
};
struct World {
    virtual ~World() {}
    virtual void cmd(const std::string& op, Line& l) = 0;
};
template <typename T, template <typename> class A>
struct WorldOf : World {
    typedef std::vector<T, A<T>> V;
    typedef std::deque<T, A<T>> D;
    typedef Conv<T> C;
    std::unique_ptr<V> v[3];
    std::unique_ptr<D> d[2];
    static V* mkv(Owned<T>*, int o) { return new V(Owned<T>(o)); }
    static V* mkv(std::allocator<T>*, int) { return new V; }
    WorldOf() {
        A<T>* tag = nullptr;
        for (int i = 0; i < 3; i++)
            v[i].reset(mkv(tag, 0));
        for (auto& p : d)
            p.reset(new D);
    }
    template <typename U> static std::enable_if_t<std::is_copy_constructible<U>::value> ins(std::vector<U, A<U>>& w, size_t at, const U& t) { ke::InsertAt(&w, at, t); }
    template <typename U> static std::enable_if_t<!std::is_copy_constructible<U>::value> ins(std::vector<U, A<U>>&, size_t, const U&) { bad_script("copy of a move-only element"); }
    template <typename U> static void emp(std::vector<U, std::allocator<U>>& w, size_t at, U&& t, long x) { emp2(w, at, std::move(t), x, std::is_constructible<U, long>()); }
    template <typename U> static void emp2(std::vector<U, std::allocator<U>>& w, size_t at, U&&, long x, std::true_type) { ke::EmplaceAt(&w, at, x); }
    template <typename U> static void emp2(std::vector<U, std::allocator<U>>& w, size_t at, U&& t, long, std::false_type) { ke::EmplaceAt(&w, at, std::move(t)); }
    template <typename U> static void emp(std::vector<U, Owned<U>>& w, size_t at, U&& t, long) { ke::InsertAt(&w, at, std::move(t)); }
    template <typename Q> static std::vector<long> nums(const Q& c) {
        std::vector<long> r;
        for (auto& t : c)
            r.push_back(C::num(t));
        return r;
    }
    void cmd(const std::string& op, Line& l) override {
        int a = (int)l.num();
        long b = l.num(), x = l.num();
        std::vector<long> m;
        while (l.more())
            m.push_back(l.num());
        long calls = -1;
        size_t before = 0;
        if (a < 3) {
            V& w = *v[a];
            before = w.size();
            if (op == "push") w.push_back(C::make(x));
            else if (op == "ramp") { for (long i = 0; i < b; i++) w.push_back(C::make(x + i)); }
            else if (op == "popback") { T t = ke::PopBack(&w); x = C::num(t); }
            else if (op == "insert") { T t = C::make(x); ins(w, b, t); if (C::num(t) != x) life().fault("argument changed"); }
            else if (op == "insertmv") ke::InsertAt(&w, b, C::make(x));
            else if (op == "insertself") ins(w, b, w[x]);
            else if (op == "emplace") emp(w, b, C::make(x), x);
            else if (op == "remove") ke::RemoveAt(&w, b);
            else if (op == "erase") ke::EraseIf(&w, [&](const T& t) { return std::find(m.begin(), m.end(), C::num(t)) != m.end(); });
            else if (op == "erasemod") ke::EraseIf(&w, [&](const T& t) { return C::num(t) % b == x; });
            else if (op == "extend") ke::MoveExtend(&w, v[b].get());
            else if (op == "reserve") w.reserve(w.size() + b);
            else bad_script(op);
        } else {
            D& w = *d[a - 3];
            if (op == "push") w.push_back(C::make(x));
            else if (op == "ramp") { for (long i = 0; i < b; i++) w.push_back(C::make(x + i)); }
            else if (op == "pushfront") w.push_front(C::make(x));
            else if (op == "popback") { T t = ke::PopBack(&w); x = C::num(t); }
            else if (op == "popfront") { T t = ke::PopFront(&w); x = C::num(t); }
            else bad_script(op);
        }
        std::vector<std::vector<long>> q;
        for (auto& p : v) q.push_back(nums(*p));
        for (auto& p : d) q.push_back(nums(*p));
        // long ones as runs: first, step, count, first, step, count, ..
        std::vector<std::vector<long>> runs(q.size());
        for (size_t j = 0; j < q.size(); j++)
            if (q[j].size() > 100) {
                std::vector<long>& run = runs[j];
                for (long y : q[j]) {
                    size_t k = run.size();
                    if (k && run[k - 1] == 1)
                        run[k - 2] = y - run[k - 3], run[k - 1] = 2;
                    else if (k && y == run[k - 3] + run[k - 2] * run[k - 1])
                        run[k - 1]++;
                    else if (k < 900)
                        run.insert(run.end(), {y, 0, 1});
                    else
                        break;
                }
                q[j].clear();
            }
        Ev e(op.c_str());
        e.seq2("runs", runs).i("a", a).i("b", b).i("x", x).seq("m", m).seq2("q", q).i("faults", life().faults).i("live", C::tracked ? (long)life().live.size() : -1);
    }
};
struct Seqs : Driver {
    World* w = nullptr;
    void begin() override { life().reset(); w = nullptr; }
    void end() override { delete w; }
    void cmd(const std::string& op, Line& l) override {
        if (op == "type") {
            std::string t = l.word();
            w = t == "int" ? (World*)new WorldOf<int, std::allocator> : t == "str" ? (World*)new WorldOf<std::string, std::allocator>
                : t == "tr" ? (World*)new WorldOf<Tracked, std::allocator> : t == "mo" ? (World*)new WorldOf<TrackedMO, std::allocator>
                : t == "uptr" ? (World*)new WorldOf<std::unique_ptr<long>, std::allocator> : t == "thr" ? (World*)new WorldOf<Throwing, std::allocator>
                : t == "own" ? (World*)new WorldOf<Tracked, Owned> : (World*)new WorldOf<TrackedMO, Owned>;
        } else
            w->cmd(op, l);
    }
};
int main(int argc, char** argv) {
    Seqs d;
    return drive(argc, argv, &d, 60);
}
