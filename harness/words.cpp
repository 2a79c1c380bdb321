// Driver for am-bits.h and am-arithmetic.h (C21, C22).
#include <stdint.h>
#include <amtl/am-arithmetic.h>
#include "vh.h"
#include <amtl/am-bits.h>
using namespace vh;

static void le(Ev& e, const char* k, uint64_t v, int n = 8) {
    char b[8];
    for (int i = 0; i < n; i++)
        b[i] = (char)(v >> (8 * i));
    e.bytes(k, b, n);
}
template <uintptr_t N>
static void tag(uintptr_t p, uintptr_t bits) {
    struct Big { char c[64]; };
    Big* q = ke::SetPointerBits((Big*)p, bits);
    void* v = ke::SetPointerBits((void*)p, bits);
    uintptr_t g = ke::GetPointerBits<N>((void*)q);
    Big* c = ke::ClearPointerBits<N>(q);
    Ev e("tag");
    le(e, "p", p);
    le(e, "bits", bits);
    e.i("n", N);
    le(e, "set", (void*)q == v ? (uintptr_t)q : ~(uintptr_t)q);
    le(e, "get", g);
    le(e, "clear", (uintptr_t)c);
}
struct Words : Driver {
    void begin() override {}
    void end() override {}
    void cmd(const std::string& op, Line& l) override {
        if (op == "pair") {
            uint64_t a = l.u64(), b = l.u64(), sent = l.u64();
            uint32_t a4 = (uint32_t)a, b4 = (uint32_t)b;
            uint64_t s = sent, p = sent;
            uint32_t s4 = (uint32_t)sent;
            bool as = ke::TryUint64Add(a, b, &s), ap = ke::TryUint64Multiply(a, b, &p), a4s = ke::TryUint32Add(a4, b4, &s4);
            Ev e("pair");
            le(e, "a", a);
            le(e, "b", b);
            le(e, "sent", sent);
            e.b("add64", as).b("mul64", ap).b("add32", a4s);
            le(e, "sum64", s);
            le(e, "prod64", p);
            le(e, "sum32", s4, 4);
            e.b("sadd64", ke::IsUint64AddSafe(a, b)).b("saddp", ke::IsUintPtrAddSafe(a, b)).b("sadd32", ke::IsUint32AddSafe(a4, b4));
            e.b("smul64", ke::IsUint64MultiplySafe(a, b)).b("smulp", ke::IsUintPtrMultiplySafe(a, b)).b("smul32", ke::IsUint32MultiplySafe(a4, b4));
        } else if (op == "word") {
            uint64_t a = l.u64();
            int k = (int)l.num();
            size_t al = (size_t)1 << k;
            Ev e("word");
            le(e, "a", a);
            e.i("k", k);
            if (a) {
                e.i("log2", (long long)ke::Log2(a)).i("left64", ke::FindLeftmostBit64(a)).i("right", (long long)ke::FindRightmostBit(a));
                if ((uint32_t)a)
                    e.i("left32", ke::FindLeftmostBit32((uint32_t)a));
            }
            e.b("pow2", ke::IsPowerOfTwo(a));
            le(e, "align", ke::Align(a, al));
            e.b("aligned", ke::IsAligned(a, al)).b("alignedp", ke::IsAligned((char*)a, al)).b("aligned32", ke::IsAligned((uint32_t)a, al));
            le(e, "base", (uint64_t)ke::AlignedBase((void*)a, al));
        } else if (op == "tag") {
            uintptr_t p = l.u64(), b = l.u64();
            switch (l.num()) {
                case 0: tag<0>(p, b); break;
                case 1: tag<1>(p, b); break;
                case 2: tag<2>(p, b); break;
                case 3: tag<3>(p, b); break;
                case 4: tag<4>(p, b); break;
                case 6: tag<6>(p, b); break;
                case 8: tag<8>(p, b); break;
                case 12: tag<12>(p, b); break;
                case 16: tag<16>(p, b); break;
                default: bad_script("n");
            }
        } else
            bad_script(op);
    }
};
int main(int argc, char** argv) {
    Words d;
    return drive(argc, argv, &d, 60);
}
