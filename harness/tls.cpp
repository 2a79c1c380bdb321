// Driver for ThreadLocal (C08).
#include "vsched.h"
// a failing set() ends the program; here it ends the thread
[[noreturn]] static inline void vs_abort() {
    vs::Rec("abort");
    vs::Fiber& f = vs::S().f[vs::S().cur];
    f.done = true;
    for (;;)
        swapcontext(&f.ctx, &vs::S().main_ctx);
}
namespace std {
using ::vs_abort;
}
#define abort vs_abort
#include <amtl/am-threadlocal.h>
#undef abort
using namespace vh;
using vs::Rec;
using vs::S;

struct Field {
    long n;
};
static Field g_fields[64];
template <typename T>
struct Code;
template <>
struct Code<uintptr_t> {
    static uintptr_t enc(long v) { return (uintptr_t)v * 0x1000000010000001ull; }
    static long dec(uintptr_t x) { return x % 0x1000000010000001ull ? -99 : (long)(x / 0x1000000010000001ull); }
    static long arrow(ke::ThreadLocal<uintptr_t>&) { return -99; }
};
template <>
struct Code<int> {
    static int enc(long v) { return v % 2 ? (int)-v : (int)(v * 0x01000001); }
    static long dec(int x) {
        for (long v = 0; v < 64; v++)
            if (enc(v) == x)
                return v;
        return -99;
    }
    static long arrow(ke::ThreadLocal<int>&) { return -99; }
};
template <>
struct Code<Field*> {
    static Field* enc(long v) { return v ? &g_fields[v] : nullptr; }
    static long dec(Field* x) { return !x ? 0 : x > g_fields && x < g_fields + 64 ? x - g_fields : -99; }
    static long arrow(ke::ThreadLocal<Field*>& v) { return v->n; }
};
enum Color : unsigned long { kNone };
template <>
struct Code<Color> {
    static Color enc(long v) { return (Color)(v * 3); }
    static long dec(Color x) { return (long)x / 3; }
    static long arrow(ke::ThreadLocal<Color>&) { return -99; }
};

static bool g_ptr;
struct Var {
    virtual ~Var() {}
    virtual void set(long v, bool assign) = 0;
    virtual long get(bool star) = 0;
    virtual bool eq(long v) = 0;
    virtual bool ne(long v) = 0;
    virtual bool no() = 0;
    virtual long arrow() = 0;
    virtual bool allocate() = 0;
};
template <typename T>
struct VarT : Var {
    ke::ThreadLocal<T> v;
    void set(long x, bool assign) override {
        if (assign)
            v = Code<T>::enc(x);
        else
            v.set(Code<T>::enc(x));
    }
    long get(bool star) override { return Code<T>::dec(star ? *v : v.get()); }
    bool eq(long x) override { return v == Code<T>::enc(x); }
    bool ne(long x) override { return v != Code<T>::enc(x); }
    bool no() override { return !v; }
    long arrow() override { return Code<T>::arrow(v); }
    bool allocate() override { return v.allocate(); }
};

struct Tls : Driver, vs::Program {
    std::vector<std::string> kinds;
    std::vector<std::string> ini, fin;
    std::vector<std::vector<std::string>> ops;
    long refuse = 0, refuse_store = 0;
    int fill = 0;
    alignas(16) char mem[4][256];
    Var* vars[4] = {};
    void begin() override {
        kinds.clear();
        ini.clear();
        fin.clear();
        ops.clear();
        refuse = refuse_store = 0;
        fill = 0;
    }
    void end() override {}
    static void rest(Line& l, std::vector<std::string>& v) {
        while (l.more())
            v.push_back(l.word());
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "vars")
            rest(l, kinds);
        else if (op == "refuse")
            refuse = l.num();
        else if (op == "lose")
            refuse_store = l.num();
        else if (op == "fill")
            fill = (int)l.num();
        else if (op == "ini")
            rest(l, ini);
        else if (op == "fin")
            rest(l, fin);
        else if (op == "th") {
            ops.emplace_back();
            rest(l, ops.back());
        } else if (!vs::command(op, l, *this))
            bad_script(op);
    }
    void create(int v) {
        Rec("new").i("v", v);
        void* m = mem[v];
        memset(m, fill, sizeof mem[v]);
        if (kinds[v] == "word")
            vars[v] = new (m) VarT<uintptr_t>();
        else if (kinds[v] == "int")
            vars[v] = new (m) VarT<int>();
        else if (kinds[v] == "ptr")
            vars[v] = new (m) VarT<Field*>();
        else
            vars[v] = new (m) VarT<Color>();
        Rec("new_ret");
    }
    void destroy(int v) {
        Rec("del").i("v", v);
        vars[v]->~Var();
        vars[v] = nullptr;
        Rec("del_ret").i("v", v);
    }
    // <op><variable>[:<value>]
    void exec(const std::string& o) {
        int v = o[1] - '0';
        long x = o.size() > 3 ? atol(o.c_str() + 3) : 0;
        switch (o[0]) {
            case 'C':
                create(v);
                break;
            case 'D':
                destroy(v);
                break;
            case 'S':
            case 'W': {
                Rec("set").i("v", v).i("x", x);
                vars[v]->set(x, o[0] == 'W');
                Rec("set_ret");
                break;
            }
            case 'G':
            case 'H': {
                Rec("get").i("v", v);
                long r = vars[v]->get(o[0] == 'H');
                Rec("get_ret").i("res", r);
                break;
            }
            case 'E':
            case 'N': {
                Rec("get").i("v", v);
                bool r = o[0] == 'E' ? vars[v]->eq(x) : !vars[v]->ne(x);
                Rec("eq_ret").i("x", x).i("res", r);
                break;
            }
            case 'F': {
                Rec("get").i("v", v);
                bool r = vars[v]->no();
                Rec("eq_ret").i("x", 0).i("res", r);
                break;
            }
            case 'P': {
                if (kinds[v] != "ptr")
                    break;
                Rec("get").i("v", v);
                long was = vars[v]->get(false);
                Rec("get_ret").i("res", was);
                if (!was)
                    break;
                Rec("get").i("v", v);
                long r = vars[v]->arrow();
                Rec("get_ret").i("res", r);
                break;
            }
            case 'A':
            case 'T':
            case 'U': {
                Rec("alloc").i("v", v);
                bool ok = vars[v]->allocate();
                Rec("alloc_ret").i("res", ok);
                if (o[0] != 'A' && ok)
                    exec((o[0] == 'T' ? "S" : "W") + o.substr(1));
                break;
            }
            case 'R':
                vs::keys().refuse = v;
                break;
            default:
                bad_script(o);
        }
    }
    void setup() override {
        vs::keys().reset();
        Rec("begin");
        for (size_t v = 0; v < kinds.size(); v++)
            create((int)v);
        for (auto& o : ini)
            exec(o);
        vs::keys().refuse = refuse;
        vs::keys().refuse_store = refuse_store;
    }
    std::vector<std::function<void()>> bodies() override {
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < ops.size(); t++)
            b.push_back([this, t]() {
                for (auto& o : ops[t])
                    exec(o);
            });
        return b;
    }
    void finish() override {
        Rec("join");
        vs::keys().refuse = vs::keys().refuse_store = 0;
        for (auto& o : fin)
            exec(o);
        for (size_t v = 0; v < kinds.size(); v++)
            if (vars[v])
                destroy((int)v);
        Rec("finish").i("keys", vs::keys().live());
    }
};
int main(int argc, char** argv) {
    for (int i = 0; i < 64; i++)
        g_fields[i].n = i;
    vs::install();
    Tls d;
    return drive(argc, argv, &d, 100);
}
