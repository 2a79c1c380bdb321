// Driver for C33: the small helpers, and the two parts of a program that share KE_LINKONCE variables.
#include "vh.h"
#include "helpers.h"
#include <amtl/am-bits.h>
#include <amtl/am-linking.h>
#include <amtl/am-platform.h>
#include <amtl/am-storagebuffer.h>
#include <amtl/am-unused.h>
#include <amtl/am-utility.h>
#include <math.h>
#include <memory>

using namespace vh;
extern "C" {
double __pow_finite(double, double);
double __atan2_finite(double, double);
double __log_finite(double);
double __acos_finite(double);
double __asin_finite(double);
float __powf_finite(float, float);
float __atan2f_finite(float, float);
float __logf_finite(float);
float __acosf_finite(float);
float __asinf_finite(float);
}

struct S3 { char c[3]; };
struct S12 { int a, b, c; };
struct S16 { long a, b; };
struct S100 { char c[100]; };
struct Pad { char c; int i; };
struct Empty {};
struct Bits { unsigned a : 3, b : 7; };
union Uni { char c[5]; int i; };
struct __attribute__((packed)) Packed { char c; int i; };
struct alignas(32) Wide { char c[33]; };
struct Poly { virtual ~Poly() {} long v; };
enum class Small : unsigned char { A };
enum Plain { PA = -5, PB = 70000 };

template <typename T> struct Ty { typedef T type; };
template <typename F>
static bool with_type(const std::string& t, F f) {
    if (t == "char") f(Ty<char>());
    else if (t == "short") f(Ty<short>());
    else if (t == "int") f(Ty<int>());
    else if (t == "long") f(Ty<long>());
    else if (t == "double") f(Ty<double>());
    else if (t == "ptr") f(Ty<void*>());
    else if (t == "s3") f(Ty<S3>());
    else if (t == "s12") f(Ty<S12>());
    else if (t == "s16") f(Ty<S16>());
    else if (t == "s100") f(Ty<S100>());
    else if (t == "pad") f(Ty<Pad>());
    else if (t == "empty") f(Ty<Empty>());
    else if (t == "bits") f(Ty<Bits>());
    else if (t == "uni") f(Ty<Uni>());
    else if (t == "packed") f(Ty<Packed>());
    else if (t == "wide") f(Ty<Wide>());
    else if (t == "enum") f(Ty<Small>());
    else return false;
    return true;
}
static std::vector<int> bits_of(uint64_t v) {
    std::vector<int> r;
    for (int i = 0; i < 64; i++)
        if (v >> i & 1)
            r.push_back(i);
    return r;
}
struct Buf {  // a storage buffer somewhere in the arena
    virtual ~Buf() {}
    virtual char* addr() = 0;
    virtual const char* caddr() const = 0;
    virtual void end() = 0;
    size_t off, size;
};
template <typename T>
struct BufOf : Buf {
    ke::StorageBuffer<T>* sb;
    explicit BufOf(char* p) { sb = new (p) ke::StorageBuffer<T>; size = sizeof(T); }
    char* addr() override { return (char*)sb->address(); }
    const char* caddr() const override { return (const char*)const_cast<const ke::StorageBuffer<T>*>(sb)->address(); }
    void end() override { sb->~StorageBuffer<T>(); }
};
struct Truth {
    bool v;
    explicit operator bool() const { return v; }
};
struct Holder {  // what the class comment has in mind: a member that is not destroyed
    ke::StorageBuffer<Tracked> b;
    long after = 99;
};

struct Helpers : Driver {
    alignas(64) char mem[256];
    Buf* slot[4];
    Holder* hold;
    void begin() override {
        memset(mem, 0x5a, sizeof mem);
        for (auto& s : slot) s = nullptr;
        hold = nullptr;
        life().reset();
        g_once = 7;
        for (int i = 0; i < 3; i++) g_twice[i] = i + 1;
    }
    void end() override {
        for (auto& s : slot) delete s;
    }
    void dump(Ev& e) { e.bytes("mem", mem, sizeof mem); }
    template <long N>
    static void big() {
        struct B { char c[N]; };
        std::vector<char> v((size_t)N + 256, (char)0xa7);
        ke::MemsetZero((B*)(v.data() + 128));
        struct A : ke::StorageBuffer<B> { char after[16]; };
        std::unique_ptr<A> a(new A);
        memset(a->after, 3, sizeof a->after);
        memset((void*)a->address(), 9, sizeof(B));
        long left = 0, out = 0;
        for (long i = 0; i < N + 256; i++)
            i >= 128 && i < 128 + N ? left += v[(size_t)i] != 0 : out += v[(size_t)i] != (char)0xa7;
        for (char c : a->after) out += c != 3;
        Ev e("big");
        e.i("n", N).i("left", left).i("out", out);
    }
    template <typename T, int... N>
    static bool len_of(int n, long* out) {
        bool hit = false;
        (void)std::initializer_list<int>{(n == N ? (([&] {
            static T a[N];
            T(*p)[N] = &a;
            const T(&r)[N] = a;
            hit = true;
            out[0] = (long)ARRAY_LENGTH(a);
            out[1] = (long)ARRAY_LENGTH(*p);
            out[2] = (long)ARRAY_LENGTH(r);
            out[3] = 100000 / ARRAY_LENGTH(a) * ARRAY_LENGTH(a);  // an operand like any other
        })(), 0) : 0)...};
        return hit;
    }
    template <typename T>
    static bool len(int n, long* out) { return len_of<T, 1, 2, 3, 7, 16, 255, 256, 1000, 65537>(n, out); }
    template <typename T>
    static void cast(uint64_t bits) {
        T t;
        memcpy(&t, &bits, sizeof t);
        const T ct = t;
        void* p = ke::cast_to_pointer<T>::cast(t);
        void* q = ke::cast_to_pointer<T>::cast(ct);
        Ev e("cast");
        e.i("w", sizeof(T) * 8).b("signed", std::is_signed<typename std::conditional<std::is_enum<T>::value, std::underlying_type<T>, Ty<T>>::type::type>::value);
        e.seq("bits", bits_of(sizeof(T) == 8 ? bits : bits & ((1ull << sizeof(T) * 8) - 1))).seq("res", bits_of((uint64_t)p)).b("same", p == q);
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "fill") {
            int a = (int)l.num(), b = (int)l.num();
            for (size_t i = 0; i < sizeof mem; i++) mem[i] = (char)(i * a + b);
            Ev e("fill");
            e.i("a", a).i("b", b);
            dump(e);
        } else if (op == "zero") {
            std::string t = l.word();
            size_t off = (size_t)l.num(), size = 0;
            if (t == "arr") ke::MemsetZero((int(*)[7])(mem + off)), size = sizeof(int[7]);
            else if (t == "cube") ke::MemsetZero((short(*)[3][5])(mem + off)), size = sizeof(short[3][5]);
            else if (!with_type(t, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                size = sizeof(T);
                ke::MemsetZero((T*)(mem + off));
            })) bad_script(t);
            Ev e("zero");
            e.str("ty", t.c_str()).i("off", (long)off).i("size", (long)size);
            dump(e);
        } else if (op == "big") {  // objects too large to record: bytes left as they were inside, and changed on either side
            long n = l.num();
            switch (n) {
            case 257: big<257>(); break;
            case 1000: big<1000>(); break;
            case 4096: big<4096>(); break;
            case 4097: big<4097>(); break;
            case 65536: big<65536>(); break;
            case 70001: big<70001>(); break;
            case 3000000: big<3000000>(); break;
            default: bad_script(op);
            }
        } else if (op == "place") {
            int i = (int)l.num();
            std::string t = l.word();
            size_t off = (size_t)l.num(), sbs = 0, sba = 0, al = 0;
            if (!with_type(t, [&](auto ty) {
                typedef typename decltype(ty)::type T;
                slot[i] = new BufOf<T>(mem + off);
                sbs = sizeof(ke::StorageBuffer<T>), sba = alignof(ke::StorageBuffer<T>), al = alignof(T);
            })) bad_script(t);
            slot[i]->off = off;
            Ev e("place");
            e.i("slot", i).str("ty", t.c_str()).i("off", (long)off).i("sbsize", (long)sbs).i("sbalign", (long)sba).i("size", (long)slot[i]->size).i("align", (long)al);
            e.i("addr", slot[i]->addr() - mem).i("caddr", slot[i]->caddr() - mem).i("mod", (long)((uintptr_t)slot[i]->addr() % al));
            dump(e);
        } else if (op == "put") {
            int i = (int)l.num(), v = (int)l.num();
            memset(slot[i]->addr(), v, slot[i]->size);
            Ev e("put");
            e.i("slot", i).i("v", v);
            dump(e);
        } else if (op == "get") {
            int i = (int)l.num();
            Ev e("get");
            e.i("slot", i).bytes("got", slot[i]->caddr(), slot[i]->size);
            dump(e);
        } else if (op == "unplace") {
            int i = (int)l.num();
            slot[i]->end();
            delete slot[i];
            slot[i] = nullptr;
            Ev e("unplace");
            e.i("slot", i);
            dump(e);
        } else if (op == "hold" || op == "make" || op == "see" || op == "kill" || op == "drop") {
            long v = -1;
            if (op == "hold") hold = new Holder;
            else if (op == "make") new (hold->b.address()) Tracked(l.num());
            else if (op == "see") v = const_cast<const Holder*>(hold)->b.address()->get();
            else if (op == "kill") hold->b.address()->~Tracked();
            else hold->~Holder(), hold = nullptr;  // its memory stays: an object not ended keeps its place
            Ev e(op.c_str());
            e.i("v", op == "make" ? hold->b.address()->get() : v).i("live", (long)life().live.size()).i("made", life().made).i("faults", life().faults);
            e.b("after", !hold || hold->after == 99);
        } else if (op == "once") {
            int tu = (int)l.num(), which = (int)l.num();
            long v = l.num();
            long* p = tu ? once_of_other(which) : which ? &g_twice[which - 1] : &g_once;
            if (v >= 0) *p = v;
            Ev e("once");
            e.i("tu", tu).i("which", which).i("set", v).i("v", *p);
        } else if (op == "likely") {
            std::string k = l.word();
            int n = 0;
            bool r = false;
            std::vector<int> bits;
            if (k == "int") {
                volatile long v = l.num();
                bits = bits_of((uint64_t)v);
                if (KE_CRITICAL_LIKELY((n++, (int)v))) r = true;
            } else if (k == "wide") {
                volatile uint64_t v = l.u64();
                bits = bits_of(v);
                if (KE_CRITICAL_LIKELY((n++, v))) r = true;
            } else if (k == "neg") {   // the macro's argument under other operators
                volatile uint64_t v = l.u64();
                bits = bits_of(v);
                r = !KE_CRITICAL_LIKELY(n++ ? 0 : v == 0);
            } else if (k == "dbl") {
                volatile double v = ldexp((double)l.num(), -20);
                double m = fabs(v) * (1 << 20);
                bits = bits_of((uint64_t)m);
                if (KE_CRITICAL_LIKELY((n++, v))) r = true;
            } else if (k == "ptr") {
                const void* volatile v = (const void*)l.u64();
                bits = bits_of((uint64_t)v);
                if (KE_CRITICAL_LIKELY((n++, v))) r = true;
            } else if (k == "obj") {
                Truth t{l.num() != 0};
                bits = bits_of(t.v);
                if (KE_CRITICAL_LIKELY((n++, t))) r = true;
            } else bad_script(k);
            Ev e("likely");
            e.str("k", k.c_str()).seq("bits", bits).b("res", r).i("n", n);
        } else if (op == "cast") {
            std::string k = l.word();
            uint64_t v = l.u64();
            if (k == "u8") cast<uint8_t>(v);
            else if (k == "s8") cast<int8_t>(v);
            else if (k == "u16") cast<uint16_t>(v);
            else if (k == "s16") cast<int16_t>(v);
            else if (k == "u32") cast<uint32_t>(v);
            else if (k == "s32") cast<int32_t>(v);
            else if (k == "u64") cast<uint64_t>(v);
            else if (k == "s64") cast<int64_t>(v);
            else if (k == "char") cast<char>(v);
            else if (k == "enum8") cast<Small>(v);
            else if (k == "enum32") cast<Plain>(v);
            else if (k == "uptr") cast<uintptr_t>(v);
            else if (k == "ptr") {
                int* p = (int*)v;
                const int* c = p;
                void* a = ke::cast_to_pointer<int*>::cast(p);
                const void* b = ke::cast_to_pointer<int*>::cast(c);
                static_assert(std::is_same<decltype(ke::cast_to_pointer<int*>::cast(p)), void*>::value, "");
                static_assert(std::is_same<decltype(ke::cast_to_pointer<int*>::cast(c)), const void*>::value, "");
                Ev e("cast");
                e.i("w", 64).b("signed", false).seq("bits", bits_of(v)).seq("res", bits_of((uint64_t)a)).b("same", a == b);
            } else bad_script(k);
        } else if (op == "len") {
            std::string t = l.word();
            int n = (int)l.num();
            long out[4] = {};
            bool hit = t == "char" ? len<char>(n, out) : t == "int" ? len<int>(n, out) : t == "long" ? len<long>(n, out)
                     : t == "s12" ? len<S12>(n, out) : t == "row" ? len<int[3]>(n, out) : t == "ptr" ? len<char*>(n, out)
                     : t == "str" ? len<std::string>(n, out) : len<S100>(n, out);
            if (!hit) bad_script(t);
            Ev e("len");
            e.i("n", n).seq("out", std::vector<long>(out, out + 4));
        } else if (op == "aligned") {
            uint64_t a = l.u64();
            int k = (int)l.num();
            bool c = k >= 0;
            size_t al = (size_t)1 << k;
            char* p = (char*)a;
            Ev e("aligned");
            e.seq("bits", bits_of(a)).i("k", k).b("r1", IS_ALIGNED(a, al)).b("r2", IS_ALIGNED(p, (size_t)1 << k)).b("r3", IS_ALIGNED(c ? p : nullptr, al | 0));
            e.b("r4", !IS_ALIGNED(p, al));
        } else if (op == "const") {
            std::string k = l.word();
            size_t v = k == "kb" ? ke::kKB : k == "mb" ? ke::kMB : k == "gb" ? ke::kGB : ke::kMallocAlignment;
            Ev e("const");
            e.str("k", k.c_str()).seq("bits", bits_of(v));
        } else if (op == "malloc") {
            size_t n = (size_t)l.num();
            std::vector<void*> v;
            long off = 0;
            for (int i = 0; i < 20; i++) {
                v.push_back(i & 1 ? malloc(n) : operator new(n));
                off += (uintptr_t)v.back() % ke::kMallocAlignment != 0;
            }
            for (int i = 0; i < 20; i++) i & 1 ? free(v[i]) : operator delete(v[i]);
            Ev e("malloc");
            e.i("n", (long)n).i("off", off);
        } else if (op == "unused") {
            int n = 0;
            ke::Unused() << (n++, n);
            ke::Unused u;
            u << (n++, Empty());
            u << std::string(l.word() + std::to_string(n++));
            Ev e("unused");
            e.i("n", n);
        } else if (op == "atleast") {
            int x = (int)l.num(), y = (int)l.num();
#if defined(__clang__)
            bool r = KE_CLANG_AT_LEAST(x, y), s = !KE_CLANG_AT_LEAST(x, y);
            int a = __clang_major__, b = __clang_minor__;
#else
            bool r = KE_GCC_AT_LEAST(x, y), s = !KE_GCC_AT_LEAST(x, y);
            int a = __GNUC__, b = __GNUC_MINOR__;
#endif
            Ev e("atleast");
            e.i("x", x).i("y", y).i("major", a).i("minor", b).b("r", r).b("no", s);
        } else if (op == "fin") {
            std::string f = l.word();
            double x, y, z, w;
            uint64_t bx = l.u64(), by = l.u64();
            memcpy(&x, &bx, 8);
            memcpy(&y, &by, 8);
            float fx = (float)x, fy = (float)y;
            volatile double vx = x, vy = y;
            volatile float gx = fx, gy = fy;
            if (f == "pow") z = __pow_finite(vx, vy), w = pow(vx, vy);
            else if (f == "atan2") z = __atan2_finite(vx, vy), w = atan2(vx, vy);
            else if (f == "log") z = __log_finite(vx), w = log(vx);
            else if (f == "acos") z = __acos_finite(vx), w = acos(vx);
            else if (f == "asin") z = __asin_finite(vx), w = asin(vx);
            else if (f == "powf") z = __powf_finite(gx, gy), w = powf(gx, gy);
            else if (f == "atan2f") z = __atan2f_finite(gx, gy), w = atan2f(gx, gy);
            else if (f == "logf") z = __logf_finite(gx), w = logf(gx);
            else if (f == "acosf") z = __acosf_finite(gx), w = acosf(gx);
            else if (f == "asinf") z = __asinf_finite(gx), w = asinf(gx);
            else bad_script(f);
            if (f.back() == 'f') x = fx, y = fy;
            Ev e("fin");
            e.str("f", f.c_str());
            put(e, "x", x), put(e, "y", y), put(e, "z", z), put(e, "want", w);
        } else {
            bad_script(op);
        }
    }
    static void put(Ev& e, const char* k, double v) {
        uint64_t b;
        memcpy(&b, &v, 8);
        e.w64(k, b);
    }
};
int main(int argc, char** argv) {
    Helpers d;
    return drive(argc, argv, &d, 60);
}
