// Driver for FixedArray (C14).
#include "vh.h"
#include <amtl/am-fixedarray.h>
using namespace vh;

static Arena g_arena[3];  // 0 is the one default-constructed policies use
struct Pol {
    Arena* a;
    Pol() : a(&g_arena[0]) {}
    explicit Pol(Arena* a) : a(a) {}
    void reportOutOfMemory() { a->oom++; }
    void reportAllocationOverflow() { a->overflows++; }
    void* am_malloc(size_t n) {
        a->mallocs++;
        if (a->fail_in == 0) {
            a->fail_in = -1;
            a->oom++;
            return nullptr;
        }
        if (n > (64u << 20)) {
            a->oom++;
            return nullptr;
        }
        void* p = ::malloc(n ? n : 1);
        memset(p, 0xa5, n ? n : 1);
        a->live[p] = n;
        return p;
    }
    void am_free(void* p) {
        if (!p)
            return;
        if (!a->live.erase(p)) {
            a->faults++;
            return;  // some other arena's block
        }
        ::free(p);
    }
};
static long val(long v) { return v; }
static long val(char v) { return v; }
static long val(const Tracked& v) { return v.get(); }
static long val(const TrackedMO& v) { return v.get(); }
struct Wide {  // 48 bytes around a tracked member
    long pad[5] = {1, 2, 3, 4, 5};
    Tracked t;
    Wide() {}
    Wide(long v) : t(v) {}
    bool operator!=(const Wide& o) const { return t != o.t; }
    bool operator==(const Wide& o) const { return t == o.t; }
};
static long val(const Wide& v) { return v.t.get(); }

struct Fam {
    virtual ~Fam() {}
    virtual void make() = 0;
    virtual void kill() = 0;
    virtual void fresh(int a, size_t n, int ar) = 0;
    virtual std::vector<long> vec(int a, const std::vector<long>& s, bool move) = 0;
    virtual bool copyctor(int a, int b) = 0;
    virtual void movector(int a, int b) = 0;
    virtual bool assign(int a, int b) = 0;
    virtual void massign(int a, int b) = 0;
    virtual bool write(int a, size_t i, long x, int how) = 0;
    virtual void obs(Ev& e) = 0;
    virtual size_t width() = 0;
    virtual bool tracked() = 0;
};
template <typename T>
struct Impl : Fam {
    static const int NV = 4;
    typedef ke::FixedArray<T, Pol> Arr;
    static const bool kCopy = std::is_copy_constructible<T>::value;
    Arr* v[NV] = {};
    void make() override {
        for (auto& x : v)
            x = new Arr();
    }
    void kill() override {
        for (auto& x : v) {
            delete x;
            x = nullptr;
        }
    }
    size_t width() override { return sizeof(T); }
    bool tracked() override { return !std::is_trivial<T>::value; }
    void fresh(int a, size_t n, int ar) override {
        v[a]->~Arr();
        if (ar == 0)
            new (v[a]) Arr(n);
        else
            new (v[a]) Arr(n, Pol(&g_arena[ar]));
    }
    std::vector<long> vec(int a, const std::vector<long>& s, bool move) override {
        std::vector<T> src;
        src.reserve(s.size());
        for (long x : s)
            src.emplace_back(x);
        v[a]->~Arr();
        if constexpr (kCopy) {
            if (!move) {
                const std::vector<T>& c = src;
                new (v[a]) Arr(c);
            } else {
                new (v[a]) Arr(std::move(src));
            }
        } else {
            new (v[a]) Arr(std::move(src));
        }
        std::vector<long> r;
        for (const T& x : src)
            r.push_back(val(x));
        return r;
    }
    bool copyctor(int a, int b) override {
        if constexpr (kCopy) {
            v[a]->~Arr();
            const Arr& o = *v[b];
            new (v[a]) Arr(o);
            return true;
        }
        return false;
    }
    void movector(int a, int b) override {
        v[a]->~Arr();
        new (v[a]) Arr(std::move(*v[b]));
    }
    bool assign(int a, int b) override {
        if constexpr (kCopy) {
            const Arr& o = *v[b];
            *v[a] = o;
            return true;
        }
        return false;
    }
    void massign(int a, int b) override { *v[a] = std::move(*v[b]); }
    bool write(int a, size_t i, long x, int how) override {
        if (i >= v[a]->size())
            return false;
        switch (how % 4) {
            case 0:
                (*v[a])[i] = T(x);
                break;
            case 1:
                v[a]->at(i) = T(x);
                break;
            case 2:
                v[a]->begin()[i] = T(x);
                break;
            case 3:
                v[a]->buffer()[i] = T(x);
                break;
        }
        return true;
    }
    void obs(Ev& e) override {
        std::vector<long> init, agree, blocks;
        std::vector<std::vector<long>> vals, eq, runs;
        long faults = life().faults, raw = 0;
        for (int i = 0; i < NV; i++) {
            init.push_back(v[i]->initialize());
            std::vector<long> s;
            const Arr& c = *v[i];
            bool ok = true;
            for (size_t j = 0; j < c.size() && j < 100000; j++)
                s.push_back(val((*v[i])[j]));
            raw += (long)s.size();
            for (size_t j = 0; j < s.size(); j++)
                ok = ok && val(c[j]) == s[j] && val(c.at(j)) == s[j] && val(v[i]->at(j)) == s[j] && val(c.buffer()[j]) == s[j];
            size_t j = 0;
            for (T& x : *v[i])
                ok = ok && j < s.size() && val(x) == s[j++];
            ok = ok && j == s.size();
            j = 0;
            for (const T& x : c)
                ok = ok && j < s.size() && val(x) == s[j++];
            ok = ok && j == s.size() && c.empty() == s.empty();
            if (s.size())
                ok = ok && val(c.back()) == s.back() && val(v[i]->back()) == s.back();
            agree.push_back(ok);
            // long ones as runs: first, step, count, first, step, count, ..
            std::vector<long> run;
            if (s.size() > 64) {
                for (long x : s) {
                    size_t q = run.size();
                    if (q && run[q - 1] == 1)
                        run[q - 2] = x - run[q - 3], run[q - 1] = 2;
                    else if (q && x == run[q - 3] + run[q - 2] * run[q - 1])
                        run[q - 1]++;
                    else if (q < 900)
                        run.insert(run.end(), {x, 0, 1});
                    else
                        break;
                }
                s.clear();
            }
            vals.push_back(s);
            runs.push_back(run);
        }
        for (int i = 0; i < NV; i++) {
            std::vector<long> row;
            for (int j = 0; j < NV; j++) {
                bool q = *v[i] == *v[j];
                if (q == (*v[i] != *v[j]))
                    faults++;
                row.push_back(q);
            }
            eq.push_back(row);
        }
        for (auto& a : g_arena) {
            blocks.push_back((long)a.live.size());
            faults += a.faults;
        }
        e.seq2("runs", runs).seq("init", init).seq2("vals", vals).seq("agree", agree).seq2("eq", eq);
        e.i("live", std::is_trivial<T>::value ? raw : (long)life().live.size()).i("faults", faults).seq("blocks", blocks);
    }
};
struct ArrDriver : Driver {
    Fam* f = nullptr;
    bool failnext = false;
    void begin() override {
        life().reset();
        for (auto& a : g_arena)
            a.reset();
    }
    void end() override {
        if (!f)
            return;
        f->kill();
        long blocks = 0, faults = life().faults;
        for (auto& a : g_arena) {
            blocks += (long)a.live.size();
            faults += a.faults;
        }
        if (life().live.size() || faults || blocks) {
            Ev e("leftover");
            e.i("live", (long)life().live.size()).i("faults", faults).i("blocks", blocks);
        }
        delete f;
        f = nullptr;
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "type") {
            std::string t = l.word();
            if (t == "long")
                f = new Impl<long>();
            else if (t == "char")
                f = new Impl<char>();
            else if (t == "tr")
                f = new Impl<Tracked>();
            else if (t == "mo")
                f = new Impl<TrackedMO>();
            else if (t == "wide")
                f = new Impl<Wide>();
            else
                bad_script(t);
            f->make();
            return;
        }
        if (op == "fail") {
            failnext = true;
            return;
        }
        int a = (int)l.num(), b = (int)l.num();
        if (failnext)
            for (auto& x : g_arena)
                x.fail_in = 0;
        failnext = false;
        long oom = 0, over = 0;
        for (auto& x : g_arena) {
            oom -= x.oom;
            over -= x.overflows;
        }
        long n = 0, x = 0;
        std::vector<long> s, after;
        bool moved = false;
        if (op == "new") {
            n = l.num();
            f->fresh(a, n, b);
        } else if (op == "huge") {
            int how = (int)l.num();
            size_t w = f->width();
            if (w == 1)
                how = 0;
            static const size_t kMax = ~(size_t)0;
            size_t big = how == 0 ? kMax / 2 : how == 1 ? kMax / w + 1 : how == 2 ? kMax / w + 2 : how == 3 ? kMax : kMax / w + 1 + kMax / w / 2;
            f->fresh(a, big, b);
        } else if (op == "vec") {
            moved = b;
            if (!f->tracked())
                moved = false;
            while (l.more())
                s.push_back(l.num());
            after = f->vec(a, s, moved);
            if (dynamic_cast<Impl<TrackedMO>*>(f) || (moved && dynamic_cast<Impl<Tracked>*>(f)))
                moved = true;
            if (dynamic_cast<Impl<Wide>*>(f))
                moved = false, after = s;  // Wide has no move constructor of its own
        } else if (op == "ramp") {  // a vector of x, x+1, .. n of them
            n = l.num();
            x = l.num();
            std::vector<long> in;
            for (long i = 0; i < n; i++)
                in.push_back(x + i);
            std::vector<long> out = f->vec(a, in, b);
            moved = f->tracked() && (b || dynamic_cast<Impl<TrackedMO>*>(f)) && !dynamic_cast<Impl<Wide>*>(f);
            bool same = true;
            for (long i = 0; i < n; i++)
                same = same && out[i] == (moved ? -1 : in[i]);
            after.push_back(same);
        } else if (op == "copyctor") {
            if (a == b || !f->copyctor(a, b))
                goto skip;
        } else if (op == "movector") {
            if (a == b)
                goto skip;
            f->movector(a, b);
        } else if (op == "assign") {
            if (!f->assign(a, b))
                goto skip;
        } else if (op == "massign") {
            f->massign(a, b);
        } else if (op == "write") {
            n = l.num();
            x = l.num();
            if (!f->write(a, n - 1, x, b))
                goto skip;
        } else {
            bad_script(op);
        }
        {
            for (auto& y : g_arena) {
                oom += y.oom;
                over += y.overflows;
                y.fail_in = -1;
            }
            Ev e(op.c_str());
            e.i("a", a).i("b", b).i("n", n).i("x", x).i("refused", oom).i("over", over).seq("s", s).seq("after", after).b("moved", moved);
            f->obs(e);
            return;
        }
    skip:
        for (auto& y : g_arena)
            y.fail_in = -1;
    }
};
int main(int argc, char** argv) {
    ArrDriver d;
    return drive(argc, argv, &d);
}
