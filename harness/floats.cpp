// Driver for am-float.h (C28).
#include "vh.h"
#include <amtl/am-float.h>
using namespace vh;

template <typename T, typename B>
static T from(uint64_t b) {
    B bits = (B)b;
    T v;
    memcpy(&v, &bits, sizeof v);
    return v;
}
template <typename T, typename B>
static void num(Ev& e, const char* k, const T& v) {
    B bits;
    memcpy(&bits, &v, sizeof v);
    const int mb = sizeof(T) == 4 ? 23 : 52, w = sizeof(T) * 8;
    uint64_t m = bits & (((uint64_t)1 << mb) - 1);
    e.seq(k, std::vector<long>{(long)(bits >> (w - 1)), (long)((bits >> mb) & (sizeof(T) == 4 ? 255 : 2047)), (long)(m >> 27), (long)(m & 0x7ffffff)});
}
template <typename T, typename B>
static void run(const std::string& op, const char* t, Line& l) {
    volatile T x = from<T, B>(strtoull(l.word().c_str(), 0, 16));
    T cx;
    memcpy(&cx, (const void*)&x, sizeof cx);
    if (op == "class") {
        bool n = ke::IsNaN(cx), i = ke::IsInfinite(cx);
        Ev e("class");
        e.str("t", t);
        num<T, B>(e, "x", cx);
        e.b("nan", n).b("inf", i);
        return;
    }
    T cy = from<T, B>(strtoull(l.word().c_str(), 0, 16));
    T z = ke::FloatModulo(cx, cy);
    static_assert(std::is_same<decltype(ke::FloatModulo(cx, cy)), T>::value, "");
    Ev e("mod");
    e.str("t", t);
    num<T, B>(e, "x", cx);
    num<T, B>(e, "y", cy);
    num<T, B>(e, "z", z);
}
struct Fl : Driver {
    void begin() override {}
    void end() override {}
    void cmd(const std::string& op, Line& l) override {
        std::string t = l.word();
        if (t == "float")
            run<float, uint32_t>(op, "float", l);
        else
            run<double, uint64_t>(op, "double", l);
    }
};
int main(int argc, char** argv) {
    Fl d;
    return drive(argc, argv, &d, 60);
}
