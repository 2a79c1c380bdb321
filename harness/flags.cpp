// Driver for am-flags.h and am-enum.h (C25).
#include "vh.h"
#include <amtl/am-enum.h>
#include <amtl/am-flags.h>
using namespace vh;

// For each width: a scoped enum with operators and comparators, used directly and through Flags.
#define MAKE(NAME, INT)                       \
    enum class NAME : INT { kNone };          \
    KE_DEFINE_ENUM_OPERATORS(NAME)            \
    KE_DEFINE_ENUM_COMPARATORS(NAME, INT)
MAKE(U8, uint8_t)
MAKE(I8, int8_t)
MAKE(U16, uint16_t)
MAKE(I16, int16_t)
MAKE(U32, uint32_t)
MAKE(I32, int32_t)
MAKE(U64, uint64_t)
MAKE(I64, int64_t)
enum P32 : uint32_t { kP };
KE_DEFINE_ENUM_OPERATORS(P32)
enum P8 : uint8_t { kQ };
KE_DEFINE_ENUM_OPERATORS(P8)
// compared with numbers of a type that holds more than they do
#define WIDE(NAME, INT, NUM)                  \
    enum class NAME : INT { kNone };          \
    KE_DEFINE_ENUM_COMPARATORS(NAME, NUM)
WIDE(WU8, uint8_t, int)
WIDE(WI8, int8_t, long)
WIDE(WU16, uint16_t, int32_t)
WIDE(WI16, int16_t, int64_t)
WIDE(WU32, uint32_t, int64_t)
WIDE(WI32, int32_t, int64_t)
WIDE(WV32, uint32_t, uint64_t)
// without operators of its own: Flags has to work on those too
enum class Bare : uint32_t { kNone };

static std::vector<long> le(uint64_t v, int n) {
    std::vector<long> r;
    for (int i = 0; i < n; i++)
        r.push_back((v >> (8 * i)) & 255);
    return r;
}
struct World {
    virtual ~World() {}
    virtual void cmd(const std::string& op, Line& l) = 0;
};
template <typename E, typename I, bool Ops, bool Cmp>
struct WorldOf : World {
    static const int N = sizeof(I);
    typedef ke::Flags<E> F;
    F f[3];
    E n[3];
    WorldOf() { for (auto& v : n) v = E(0); }
    static std::vector<long> by(I v) { return le((uint64_t)v, N); }
    static std::vector<long> by(E v) { return le((uint64_t)(I)v, N); }
    static std::vector<long> by(const F& v) { return le((uint64_t)v.bits(), N); }
    // how an operator is applied to the enum itself, when it has any
    template <bool B> static std::enable_if_t<B, bool> ecompound(const std::string& o, E& v, const E& w) {
        E* r = &v;
        if (o == "or" || o == "plus") r = &(v |= w);
        else if (o == "and") r = &(v &= w);
        else if (o == "xor") r = &(v ^= w);
        else if (o == "minus") { E k = w; r = &(v &= ~k); }
        else v = w;
        return r == &v;
    }
    template <bool B> static std::enable_if_t<!B, bool> ecompound(const std::string& o, E& v, const E& w) {
        I a = (I)v, b = (I)w;
        v = (E)(o == "or" || o == "plus" ? a | b : o == "and" ? a & b : o == "xor" ? a ^ b : o == "minus" ? a & ~b : b);
        return true;
    }
    template <bool B> static std::enable_if_t<B> epure(Ev& e, E v, E w) {
        e.seq("eor", by(v | w)).seq("eand", by(v & w)).seq("exor", by(v ^ w)).seq("enot", by(~v));
    }
    template <bool B> static std::enable_if_t<!B> epure(Ev& e, E v, E w) {
        e.seq("eor", by((I)((I)v | (I)w))).seq("eand", by((I)((I)v & (I)w))).seq("exor", by((I)((I)v ^ (I)w))).seq("enot", by((I)~(I)v));
    }
    template <bool B> static std::enable_if_t<B, long> enot(E v) { return !v; }
    template <bool B> static std::enable_if_t<!B, long> enot(E v) { return (I)v == 0; }
    template <bool B> static std::enable_if_t<B> cmp(std::vector<long>& eq, std::vector<long>& ne, E v, I w) {
        eq.push_back(v == w); eq.push_back(w == v); ne.push_back(v != w); ne.push_back(w != v);
    }
    template <bool B> static std::enable_if_t<!B> cmp(std::vector<long>& eq, std::vector<long>& ne, E v, I w) {
        for (int i = 0; i < 2; i++) { eq.push_back((I)v == w); ne.push_back((I)v != w); }
    }
    static bool compound(const std::string& o, F& v, const F& w, F** ret = nullptr) {
        F* r;
        if (o == "or") r = &(v |= w);
        else if (o == "plus") r = &(v += w);
        else if (o == "and") r = &(v &= w);
        else if (o == "xor") r = &(v ^= w);
        else if (o == "minus") r = &(v -= w);
        else if (o == "set") r = &(v = w);
        else bad_script(o);
        if (ret) *ret = r;
        return r == &v;
    }
    static bool compound_e(const std::string& o, F& v, E w) {  // the operand is the enum itself
        F* r;
        if (o == "or") r = &(v |= w);
        else if (o == "plus") r = &(v += w);
        else if (o == "and") r = &(v &= w);
        else if (o == "xor") r = &(v ^= w);
        else if (o == "minus") r = &(v -= w);
        else r = &(v = w);
        return r == &v;
    }
    void obs(Ev& e) {
        std::vector<std::vector<long>> bits, got, en, eq, ne, ceq, cne;
        std::vector<long> bo, no, eno;
        for (int i = 0; i < 3; i++) {
            bits.push_back(by(f[i]));
            got.push_back(by(f[i].get()));
            en.push_back(by(n[i]));
            bo.push_back(f[i] ? 1 : 0);
            no.push_back(!f[i]);
            eno.push_back(enot<Ops>(n[i]));
            std::vector<long> a, b, c, d;
            for (int j = 0; j < 3; j++) {
                a.push_back(f[i] == f[j]);
                b.push_back(f[i] != f[j]);
                cmp<Cmp>(c, d, n[i], (I)n[j]);
            }
            eq.push_back(a); ne.push_back(b); ceq.push_back(c); cne.push_back(d);
        }
        e.seq2("bits", bits).seq2("got", got).seq2("enum", en).seq("bool", bo).seq("nots", no).seq("enots", eno);
        e.seq2("eq", eq).seq2("ne", ne).seq2("ceq", ceq).seq2("cne", cne).i("width", 8 * N);
    }
    void cmd(const std::string& op, Line& l) override {
        int v = (int)l.num();
        if (op == "put") {
            E x = (E)(I)l.u64();
            f[v] = x;
            n[v] = x;
            Ev e("put");
            e.i("v", v).seq("val", by(x));
            obs(e);
            return;
        }
        int w = (int)l.num();
        if (op == "not") {
            f[v] = (E)(I)~f[v].bits();
            n[v] = Ops ? notof<Ops>(n[v]) : (E)(I)~(I)n[v];
            Ev e("not");
            e.i("v", v);
            obs(e);
        } else if (op == "pure") {
            const F &a = f[v], &b = f[w];
            Ev e("pure");
            e.i("v", v).i("w", w).seq("por", by(a | b)).seq("pplus", by(a + b)).seq("pand", by(a & b)).seq("pxor", by(a ^ b)).seq("pminus", by(a - b));
            epure<Ops>(e, n[v], n[w]);
            obs(e);
        } else if (op == "chain") {
            std::string o1 = l.word(), o2 = l.word();
            F* r;
            compound(o1, f[v], f[w], &r);
            compound(o2, *r, f[w]);
            ecompound<Ops>(o1, n[v], n[w]);
            ecompound<Ops>(o2, n[v], n[w]);
            Ev e("chain");
            e.i("v", v).i("w", w).str("o1", o1.c_str()).str("o2", o2.c_str());
            obs(e);
        } else {
            int how = (int)l.num();
            bool s = how ? compound_e(op, f[v], n[w]) : compound(op, f[v], f[w]);
            s &= ecompound<Ops>(op, n[v], n[w]);
            Ev e(op.c_str());
            e.i("v", v).i("w", w).b("self", s);
            obs(e);
        }
    }
    template <bool B> static std::enable_if_t<B, E> notof(E v) { return ~v; }
    template <bool B> static std::enable_if_t<!B, E> notof(E v) { return (E)(I)~(I)v; }
};
template <typename E, typename I, typename N>
static void wide(const std::string& t, Line& l) {
    I i = (I)l.u64();
    N n = (N)l.u64();
    E v = (E)i;
    Ev e("wcmp");
    e.str("type", t.c_str()).seq("val", le((uint64_t)(N)i, 8)).seq("num", le((uint64_t)n, 8));
    e.seq("ceq", std::vector<long>{v == n, n == v}).seq("cne", std::vector<long>{v != n, n != v});
}
struct FlagsD : Driver {
    World* w = nullptr;
    void begin() override { w = nullptr; }
    void end() override { delete w; }
    void cmd(const std::string& op, Line& l) override {
        if (op == "wcmp") {
            std::string t = l.word();
            if (t == "WU8") return wide<WU8, uint8_t, int>(t, l);
            if (t == "WI8") return wide<WI8, int8_t, long>(t, l);
            if (t == "WU16") return wide<WU16, uint16_t, int32_t>(t, l);
            if (t == "WI16") return wide<WI16, int16_t, int64_t>(t, l);
            if (t == "WU32") return wide<WU32, uint32_t, int64_t>(t, l);
            if (t == "WI32") return wide<WI32, int32_t, int64_t>(t, l);
            if (t == "WV32") return wide<WV32, uint32_t, uint64_t>(t, l);
            bad_script(t);
        }
        if (op != "type")
            return w->cmd(op, l);
        std::string t = l.word();
#define USE(NAME, INT, O, C) if (t == #NAME) w = new WorldOf<NAME, INT, O, C>;
        USE(U8, uint8_t, true, true) USE(I8, int8_t, true, true) USE(U16, uint16_t, true, true) USE(I16, int16_t, true, true)
        USE(U32, uint32_t, true, true) USE(I32, int32_t, true, true) USE(U64, uint64_t, true, true) USE(I64, int64_t, true, true)
        USE(P32, uint32_t, true, false) USE(P8, uint8_t, true, false) USE(Bare, uint32_t, false, false)
        if (!w) bad_script(t);
    }
};
int main(int argc, char** argv) {
    FlagsD d;
    return drive(argc, argv, &d, 60);
}
