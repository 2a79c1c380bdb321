// Driver for Mutex (C09).
#include "vsched.h"
#include <amtl/am-mutex.h>
using namespace vh;
using vs::Rec;

struct Mtx : Driver, vs::Program {
    int nm = 1;
    std::vector<std::vector<std::string>> ops;
    alignas(16) char mem[2][sizeof(ke::Mutex)];
    ke::Mutex* m[2] = {};
    void begin() override {
        nm = 1;
        ops.clear();
    }
    void end() override {}
    void cmd(const std::string& op, Line& l) override {
        if (op == "mutexes")
            nm = (int)l.num();
        else if (op == "th") {
            ops.emplace_back();
            while (l.more())
                ops.back().push_back(l.word());
        } else if (!vs::command(op, l, *this))
            bad_script(op);
    }
    void setup() override {
        for (int i = 0; i < nm; i++) {
            memset(mem[i], 0, sizeof mem[i]);
            m[i] = new (mem[i]) ke::Mutex();
        }
#ifdef NDEBUG
        Rec("begin").i("dbg", 0);
#else
        Rec("begin").i("dbg", 1);
#endif
    }
    void owns(int k) {
        jmp_buf j;
        volatile int res = 0;
        if (setjmp(j) == 0) {
            vs_expect_assert = &j;
            m[k]->AssertCurrentThreadOwns();
            res = 1;
        }
        vs_expect_assert = nullptr;
        Rec("owns").i("m", k).i("res", res);
    }
    struct Guarded {  // what a thread holds
        bool h[2] = {};
        bool none() const { return !h[0] && !h[1]; }
    };
    static void got(int k) { Rec("acq").i("m", k); }
    static void giving(int k) { Rec("rel").i("m", k); }
    std::vector<std::function<void()>> bodies() override {
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < ops.size(); t++)
            b.push_back([this, t]() {
                Guarded g;
                for (auto& o : ops[t])
                    exec(o[0], o[1] - '0', g);
                for (int k = 0; k < nm; k++)
                    if (g.h[k]) {
                        giving(k);
                        m[k]->unlock();
                        Rec("rel_ret").i("m", k);
                    }
            });
        return b;
    }
    void exec(char o, int k, Guarded& g) {
        bool free_above = !g.h[k] && !(k == 0 && g.h[1]);
        switch (o) {
            case 'L':
                if (!free_above)
                    break;
                Rec("want").i("m", k);
                m[k]->lock();
                got(k);
                g.h[k] = true;
                break;
            case 'T': {
                if (g.h[k])
                    break;
                Rec("try").i("m", k);
                bool ok = m[k]->try_lock();
                Rec("try_ret").i("m", k).i("res", ok);
                g.h[k] = ok;
                break;
            }
            case 'U':
                if (!g.h[k])
                    break;
                giving(k);
                m[k]->unlock();
                Rec("rel_ret").i("m", k);
                g.h[k] = false;
                break;
            case 'O':
                owns(k);
                break;
            case 'G': {
                if (!free_above)
                    break;
                {
                    Rec("want").i("m", k);
                    std::lock_guard<ke::Mutex> l(*m[k]);
                    got(k);
                    owns(k);
                    giving(k);
                }
                Rec("rel_ret").i("m", k);
                owns(k);
                break;
            }
            case 'Q': {
                if (g.h[k])
                    break;
                bool had;
                {
                    Rec("try").i("m", k);
                    std::unique_lock<ke::Mutex> l(*m[k], std::try_to_lock);
                    had = l.owns_lock();
                    Rec("try_ret").i("m", k).i("res", had);
                    owns(k);
                    if (had)
                        giving(k);
                }
                if (had)
                    Rec("rel_ret").i("m", k);
                break;
            }
            case 'W': {
                if (!free_above)
                    break;
                {
                    std::unique_lock<ke::Mutex> l(*m[k], std::defer_lock);
                    owns(k);
                    Rec("want").i("m", k);
                    l.lock();
                    got(k);
                    owns(k);
                    giving(k);
                    l.unlock();
                    Rec("rel_ret").i("m", k);
                    Rec("try").i("m", k);
                    bool ok = l.try_lock();
                    Rec("try_ret").i("m", k).i("res", ok);
                    owns(k);
                    if (ok)
                        giving(k);
                    if (ok) {
                        l.unlock();
                        Rec("rel_ret").i("m", k);
                    }
                }
                break;
            }
            case 'M':  // several at once
                if (!g.none() || nm < 2)
                    break;
                {
                    Rec("want").i("m", 0);
                    Rec("want").i("m", 1);
                    std::scoped_lock<ke::Mutex, ke::Mutex> l(*m[0], *m[1]);
                    got(0);
                    got(1);
                    owns(0);
                    owns(1);
                    giving(0);
                    giving(1);
                }
                Rec("rel_ret").i("m", 0);
                Rec("rel_ret").i("m", 1);
                owns(0);
                owns(1);
                break;
            case 'B':  // both, by std::lock
                if (!g.none() || nm < 2)
                    break;
                Rec("want").i("m", 0);
                Rec("want").i("m", 1);
                std::lock(*m[1], *m[0]);
                got(0);
                got(1);
                g.h[0] = g.h[1] = true;
                owns(k);
                break;
            default:
                bad_script(std::string(1, o));
        }
    }
    void finish() override {
        for (int k = 0; k < nm; k++)
            m[k]->~Mutex();
        Rec("finish");
    }
};
int main(int argc, char** argv) {
    vs::install();
    Mtx d;
    return drive(argc, argv, &d, 100);
}
