// Driver for PriorityQueue (C11). An element is key*1000 + serial.
#include "vh.h"
#include <functional>
#include <memory>
#include <amtl/am-priority-queue.h>
using namespace vh;

// Elements whose misuse after a move is visible.
static long val(const long& v) { return v; }
static long val(const Tracked& v) { return v.get(); }
static long val(const TrackedMO& v) { return v.get(); }
static long val(const std::unique_ptr<Tracked>& v) { return v ? v->get() : -1; }
template <typename T>
static T mk(long v) { return T(v); }
template <>
std::unique_ptr<Tracked> mk(long v) { return std::unique_ptr<Tracked>(new Tracked(v)); }

static bool higher(const std::string& kind, long m, long a, long b) {
    if (a < 0 || b < 0)
        life().fault("ordering asked about a moved-from element");
    if (kind == "total")
        return a < b;
    long x = a / 1000, y = b / 1000;
    if (kind == "less")
        return x < y;
    if (kind == "greater")
        return x > y;
    if (kind == "mod")
        return x % m < y % m;
    if (kind == "bucket")
        return x / m > y / m;
    if (kind == "same")
        return false;
    bad_script(kind);
}
// Stateful: the state lives on the heap, and is gone once moved from.
struct Cmp {
    std::unique_ptr<std::pair<std::string, long>> st;
    Cmp() {}
    Cmp(const std::string& k, long m) : st(new std::pair<std::string, long>(k, m)) {}
    Cmp(const Cmp& o) : st(new std::pair<std::string, long>(*o.st)) {}
    Cmp(Cmp&&) = default;
    template <typename T>
    bool operator()(const T& a, const T& b) const {
        if (!st) {
            life().fault("comparator lost its state");
            return false;
        }
        return higher(st->first, st->second, val(a), val(b));
    }
};
struct Base {
    virtual ~Base() {}
    virtual void add(long v, int how) = 0;
    virtual long pop() = 0;
    virtual long peek() = 0;
    virtual bool empty() = 0;
    virtual bool move() = 0;
};
template <typename T, typename Q>
struct Impl : Base {
    Q* q;
    explicit Impl(Q* x) : q(x) {}
    ~Impl() { delete q; }
    void add(long v, int how) override {
        if (how == 0) {
            q->add(mk<T>(v));
        } else if (how == 1) {
            T t(mk<T>(v));
            q->add(std::move(t));
        } else if constexpr (std::is_copy_constructible<T>::value) {
            if (how == 2) {
                const T t(mk<T>(v));
                q->add(t);
                if (val(t) != v)
                    life().fault("adding changed the source");
            } else {
                q->emplace(v);
            }
        } else if constexpr (std::is_constructible<T, long>::value) {
            q->emplace(v);
        } else {
            q->emplace(new Tracked(v));
        }
    }
    long pop() override {
        T t = q->pop();
        return val(t);
    }
    long peek() override { return val(q->peek()); }
    bool empty() override { return q->empty(); }
    bool move() override {
        Q* n = new Q(std::move(*q));
        bool e = q->empty();
        delete q;
        q = n;
        return e;
    }
};
struct PrioDriver : Driver {
    Base* b = nullptr;
    long serial = 0;
    bool raw = false;
    long n = 0;
    void begin() override { life().reset(); serial = 0; n = 0; }
    void end() override {
        delete b;
        b = nullptr;
    }
    void obs(Ev& e) {
        e.i("live", raw ? n : (long)life().live.size()).i("faults", life().faults).b("empty", b->empty());
    }
    template <typename T>
    Base* make(const std::string& kind, long m, const std::string& cmp) {
        if (cmp == "fn") {
            typedef std::function<bool(const T&, const T&)> F;
            typedef ke::PriorityQueue<T, F> Q;
            return new Impl<T, Q>(new Q(F([kind, m](const T& a, const T& c) { return higher(kind, m, val(a), val(c)); })));
        }
        if (cmp == "std") {
            if constexpr (!std::is_same<T, std::unique_ptr<Tracked>>::value) {
                typedef ke::PriorityQueue<T> Q;
                return new Impl<T, Q>(new Q());
            }
        }
        typedef ke::PriorityQueue<T, Cmp> Q;
        return new Impl<T, Q>(new Q(Cmp(kind, m)));
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "start") {
            std::string type = l.word(), kind = l.word();
            long m = l.num();
            std::string cmp = l.word();
            if (cmp == "std" && type == "up")
                cmp = "st";
            if (cmp == "std")
                kind = "total";
            raw = type == "int";
            if (type == "int")
                b = make<long>(kind, m, cmp);
            else if (type == "tr")
                b = make<Tracked>(kind, m, cmp);
            else if (type == "mo")
                b = make<TrackedMO>(kind, m, cmp);
            else if (type == "up")
                b = make<std::unique_ptr<Tracked>>(kind, m, cmp);
            else
                bad_script(type);
            Ev e("start");
            e.str("kind", kind.c_str()).i("m", m);
            obs(e);
        } else if (op == "add") {
            long v = l.num() * 1000 + ++serial;
            int how = (int)l.num();
            b->add(v, how);
            n++;
            Ev e("add");
            e.i("v", v).i("how", how);
            obs(e);
        } else if (op == "pop") {
            if (b->empty())
                return;
            long v = b->pop();
            n--;
            Ev e("pop");
            e.i("v", v);
            obs(e);
        } else if (op == "peek") {
            if (b->empty())
                return;
            long v = b->peek();
            Ev e("peek");
            e.i("v", v);
            obs(e);
        } else if (op == "move") {
            bool o = b->move();
            Ev e("move");
            e.b("oldempty", o);
            obs(e);
        } else if (op == "drain") {
            std::vector<long> out;
            while (!b->empty() && (long)out.size() < serial + 5)
                out.push_back(b->pop());
            n = 0;
            Ev e("drain");
            e.seq("out", out);
            obs(e);
        } else if (op == "fill") {  // base .. base+n-1, in the order of multiples of mul
            long base = l.num(), k = l.num(), mul = l.num();
            for (long i = 0; i < k; i++)
                b->add((base + i * mul % k) * 1000, (int)(i & 3));
            n += k;
            Ev e("fill");
            e.i("base", base).i("n", k);
            obs(e);
        } else if (op == "take" || op == "sort") {  // as many as there are, k at most; equal steps run together
            long k = l.num(), got = 0;
            if (op == "sort") {  // fill, and take all
                long mul = l.num();
                for (long i = 0; i < k; i++)
                    b->add((i * mul % k) * 1000, (int)(i & 3));
                n += k;
            }
            std::vector<std::vector<long>> runs;
            bool whole = true;
            while (got < k && !b->empty()) {
                long v = b->pop();
                got++;
                if (!runs.empty() && runs.back()[2] == 1) {
                    runs.back()[1] = v - runs.back()[0];
                    runs.back()[2] = 2;
                } else if (!runs.empty() && v == runs.back()[0] + runs.back()[1] * runs.back()[2]) {
                    runs.back()[2]++;
                } else if (runs.size() < 200) {
                    runs.push_back({v, 0, 1});
                } else {
                    whole = false;
                }
            }
            n -= got;
            Ev e(op.c_str());
            e.i(op == "sort" ? "n" : "k", k).seq2("runs", runs).b("whole", whole);
            obs(e);
        } else {
            bad_script(op);
        }
    }
};
int main(int argc, char** argv) {
    PrioDriver d;
    return drive(argc, argv, &d);
}
