// Driver for the hash functions of am-hashtable.h (C31).
#include "vh.h"
#include <amtl/am-hashtable.h>
using namespace vh;

typedef std::vector<long> V;
static V v32(uint32_t h) { return {(long)(h >> 16), (long)(h & 0xffff)}; }
static std::string unhex(const std::string& h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
}
// The content at an address of the wanted alignment, between other bytes that vary, with its storage ending where it
// ends when tail is 0.
struct Placed {
    char* mem;
    char* p;
    size_t n;
    Placed(const std::string& s, size_t align, size_t tail) {
        static unsigned char junk = 1;
        n = s.size();
        mem = (char*)malloc(align + n + tail);
        memset(mem, junk += 37, align + n + tail);
        p = mem + align;
        memcpy(p, s.data(), n);
    }
    ~Placed() { free(mem); }
};
struct Hf : Driver {
    void begin() override {}
    void end() override {}
    static uint32_t chunked(const char* p, size_t n, const V& cut) {
        ke::CharacterStreamHasher h;
        size_t i = 0;
        for (long k : cut) {
            size_t m = std::min<size_t>(k < 0 ? -k : k, n - i);
            if (k < 0)  // byte by byte
                for (size_t j = 0; j < m; j++)
                    h.add(p[i + j]);
            else
                h.add(p + i, m);
            i += m;
        }
        h.add(p + i, n - i);
        return h.result();
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "hash") {
            size_t align = l.num(), tail = l.num();
            std::string s = unhex(l.word().substr(1));
            V cut;
            while (l.more())
                cut.push_back(l.num());
            Placed a(s, align, tail);
            Ev e("hash");
            e.bytes("c", s).seq("whole", v32(ke::HashCharSequence(a.p, a.n))).seq("fast", v32(ke::FastHashCharSequence(a.p, a.n)));
            e.seq("chunked", v32(chunked(a.p, a.n, cut)));
        } else if (op == "family") {
            size_t n = l.num(), pos = l.num(), seed = l.num(), align = l.num();
            V cut;
            while (l.more())
                cut.push_back(l.num());
            std::string s(n, 0);
            uint32_t x = seed * 2654435761u + 1;
            for (auto& c : s)
                c = (char)((x = x * 1664525 + 1013904223) >> 24);
            std::vector<V> w, f, ch;
            for (int b = 0; b < 256; b++) {
                s[pos] = (char)b;
                Placed a(s, align, b % 3);
                w.push_back(v32(ke::HashCharSequence(a.p, a.n)));
                f.push_back(v32(ke::FastHashCharSequence(a.p, a.n)));
                ch.push_back(v32(chunked(a.p, a.n, cut)));
            }
            Ev e("family");
            e.i("n", n).i("pos", pos).i("seed", seed).seq2("whole", w).seq2("fast", f).seq2("chunked", ch);
        } else if (op == "int32" || op == "int64" || op == "combine") {
            uint64_t v = strtoull(l.word().c_str(), 0, 16);
            uint64_t junk = strtoull(l.word().c_str(), 0, 16);  // other bits, for a 32-bit value in a wider word
            uint32_t h[2];
            if (op == "int32") {
                h[0] = ke::HashInt32((int32_t)v);
                h[1] = ke::HashInteger<4>((uintptr_t)((uint32_t)v | junk << 32));
            } else if (op == "int64") {
                h[0] = ke::HashInt64((int64_t)v);
                h[1] = ke::HashInteger<8>((uintptr_t)v);
            } else
                h[0] = h[1] = ke::HashCombine((uint32_t)(v >> 32), (uint32_t)v);
            for (uint32_t x : h) {
                Ev e("word");
                V w{op == "int32" ? 4L : op == "int64" ? 8L : 2L};
                for (int j = 0; j < (op == "int32" ? 2 : 4); j++)
                    w.push_back((v >> (16 * j)) & 0xffff);
                e.seq("w", w).seq("h", v32(x));
            }
        } else if (op == "pointer") {  // what is stored there, and the pointer's type, do not matter
            static int store[64];
            int k = l.num();
            for (int round = 0; round < 3; round++) {
                store[k] += round * 77 + 1;
                uint32_t h = round == 2 ? ke::HashPointer((const char*)&store[k]) : ke::HashPointer(&store[k]);
                Ev e("word");
                e.seq("w", V{1L, (long)k}).seq("h", v32(h));
            }
        } else
            bad_script(op);
    }
};
int main(int argc, char** argv) {
    Hf d;
    return drive(argc, argv, &d, 60);
}
