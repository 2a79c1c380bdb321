// Driver for am-shared-library.h and am-system-errors.h (C26).
#include "vh.h"
#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>
using namespace vh;

static const int NL = 4, NV = 5;
static long g_inits[8];
extern "C" __attribute__((visibility("default"))) void vh_lib_event(int id, int delta) { g_inits[id] += delta; }

typedef ke::RefPtr<ke::SharedLib> Ref;
static std::string lib_path(int id) { return "./libvh" + std::to_string(id) + ".so"; }
static ke::AlreadyRefed<ke::SharedLib> pass_on(ke::AlreadyRefed<ke::SharedLib> p) { return p; }

struct Libs : Driver {
    Ref v[NV];
    char* base = nullptr;
    void begin() override {
        if (!base) {
            base = (char*)mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(base, 4096, PROT_NONE);
            mprotect(base + 2 * 4096, 4096, PROT_NONE);
        }
    }
    void end() override {
        for (auto& p : v)
            p = nullptr;
    }
    char* room(size_t m) {  // ends where nothing may be written
        memset(base + 4096, 0xC5, 4096);
        return base + 2 * 4096 - m;
    }
    bool outside(char* p) {
        for (char* q = base + 4096; q < p; q++)
            if (*q != (char)0xC5)
                return false;
        return true;
    }
    void obs(Ev& e) {
        std::vector<long> loaded, inits, valid;
        std::vector<std::vector<long>> same;
        for (int i = 1; i <= NL; i++) {
            void* h = dlopen(lib_path(i).c_str(), RTLD_LAZY | RTLD_NOLOAD);
            loaded.push_back(h != nullptr);
            if (h)
                dlclose(h);
            inits.push_back(g_inits[i]);
        }
        for (auto& p : v) {
            valid.push_back(p && p->valid() && *p.get() ? 1 : 0);
            same.emplace_back();
            for (auto& q : v)
                same.back().push_back(p && p.get() == q.get());
        }
        e.seq("loaded", loaded).seq("inits", inits).seq("valid", valid).seq2("same", same);
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "text") {
            int code = (int)l.num();
            size_t m = (size_t)l.num();
            int how = (int)l.num();
            char full[512];
            std::string f = strerror_r(code, full, sizeof full);
            // (the sanitizer runtime reads a string at the buffer even when its size is zero)
            char* p = room(m ? m : 1);
            if (!m)
                *p = 0;
            std::string before(p, m);
            if (how)
                ke::FormatSystemErrorCode(code, p, m);
            else {
                errno = code;
                ke::FormatSystemError(p, m);
            }
            Ev e("text");
            e.i("code", code).i("m", m).bytes("full", f).bytes("before", before).bytes("after", std::string(p, m)).b("out", outside(p) && (m || !*p));
            return;
        }
        int a = (int)l.num();
        long b = l.num();
        if (op == "open" || op == "fail") {
            std::string path = op == "open" ? lib_path((int)b) : l.hex();
            long m = l.num();  // -1: no buffer given; -2: null buffer with a size
            int how = (int)l.num();
            char* p = room(m > 0 ? m : 0);
            std::string before(p, m > 0 ? m : 0), full;
            if (op == "fail") {
                // what the linker says
                if (void* h = dlopen(path.c_str(), RTLD_NOW))
                    dlclose(h);
                else
                    full = dlerror();
            } else
                dlerror();
            if (how == 0)
                v[a] = m >= 0 ? ke::SharedLib::Open(path.c_str(), p, m) : m == -1 ? ke::SharedLib::Open(path.c_str()) : ke::SharedLib::Open(path.c_str(), nullptr, 100);
            else if (how == 1) {
                Ref r = ke::SharedLib::Open(path.c_str(), m >= 0 ? p : nullptr, m >= 0 ? m : 0);
                v[a] = r;
            } else {
                Ref r(pass_on(m >= 0 ? ke::SharedLib::Open(path.c_str(), p, m) : ke::SharedLib::Open(path.c_str())));
                v[a] = std::move(r);
            }
            Ev e(op.c_str());
            e.i("a", a).i("b", b).i("m", m > 0 ? m : 0).bytes("full", full).bytes("before", before).bytes("after", std::string(p, m > 0 ? m : 0)).b("out", outside(p));
            obs(e);
            return;
        }
        Ev e(op.c_str());
        e.i("a", a).i("b", b);
        if (op == "copy") {
            Ref& w = v[b];
            v[a] = w;
        } else if (op == "pass") {  // through a reference handed over
            ke::AlreadyRefed<ke::SharedLib> h = Ref(v[b]).forget();
            v[a] = pass_on(std::move(h));
        } else if (op == "move") {
            v[a] = std::move(v[b]);
        } else if (op == "drop")
            v[a] = nullptr;
        else if (op == "lookup") {
            long x = b;
            std::string s = x ? "func" + std::to_string(x) : "no_such_symbol";
            void* f = v[a]->lookup(s.c_str());
            typedef int (*Fn)();
            Fn g = v[a]->get<Fn>(s.c_str());
            int* d = v[a]->get<int*>(x ? ("data" + std::to_string(x)).c_str() : "no_such_data");
            e.i("x", x).b("found", f != nullptr && (void*)g == f && d).i("res", f ? g() : 0).i("data", d ? *d : 0);
        } else
            bad_script(op);
        obs(e);
    }
};
int main(int argc, char** argv) {
    Libs d;
    return drive(argc, argv, &d, 60);
}
