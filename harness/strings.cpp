// Driver for the string functions (C18, C19, C20).
#include "vh.h"
#include <limits.h>
#include <locale.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <wchar.h>
#include <amtl/am-string.h>
#include <amtl/os/am-path.h>
using namespace vh;

// Memory that ends at a page nobody may touch, and starts behind another one.
struct Guarded {
    char* base;
    size_t pg = 4096, room;
    explicit Guarded(size_t pages) : room(pages * 4096) {
        base = (char*)mmap(nullptr, room + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base, pg, PROT_NONE);
        mprotect(base + pg + room, pg, PROT_NONE);
    }
    char* tail(size_t n) { return base + pg + room - n; }
    char* head() { return base + pg; }
};
static Guarded g_dst(4), g_src(64), g_aux(64);

struct Dest {  // m bytes at one end of the guarded memory; the rest must stay as it is
    char* p;
    size_t m;
    bool tail;
    Dest(size_t m_, int where) : m(m_), tail(where == 0) {
        memset(g_dst.head(), 0xC5, g_dst.room);
        p = tail ? g_dst.tail(m) : where == 1 ? g_dst.head() : g_dst.head() + 777;
    }
    std::string bytes() const { return std::string(p, m); }
    bool outside_intact() const {
        for (char* q = g_dst.head(); q < g_dst.head() + g_dst.room; q++)
            if ((q < p || q >= p + m) && *q != (char)0xC5)
                return false;
        return true;
    }
};
static const char* put(Guarded& g, const std::string& s, bool term) {
    char* p = g.tail(s.size() + (term ? 1 : 0));
    memcpy(p, s.data(), s.size());
    if (term)
        p[s.size()] = 0;
    return p;
}
static std::unique_ptr<char[]> v_sprintf(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::SprintfArgs(f, ap);
    va_end(ap);
    return r;
}
static std::string v_string(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::StringPrintfVa(f, ap);
    va_end(ap);
    return r;
}
static size_t v_safe(char* b, size_t m, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::SafeVsprintf(b, m, f, ap);
    va_end(ap);
    return r;
}
static size_t v_path(char* b, size_t m, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::path::FormatVa(b, m, f, ap);
    va_end(ap);
    return r;
}
static std::string dup_pct(const std::string& s) {
    std::string r;
    for (char c : s) {
        r += c;
        if (c == '%')
            r += c;
    }
    return r;
}

struct Strs : Driver {
    void begin() override {}
    void end() override {}
    // One formatting call in all its forms; fill adds what describes it to the event.
    template <typename Fill, typename... A>
    void format(Line& l, const std::string& f, bool fails, Fill fill, A... a) {
        const char* fmt = put(g_src, f, true);
        int how = (int)l.num();
        if (how < 4) {
            Ev e("whole");
            e.str("fn", how < 2 ? "chars" : "string").b("fails", fails);
            fill(e);
            if (how < 2) {
                std::unique_ptr<char[]> r = how ? v_sprintf(fmt, a...) : ke::Sprintf(fmt, a...);
                e.b("null", !r);
                std::string t = r ? r.get() : "";
                e.bytes("text", t).i("len", (long)t.size());
            } else {
                std::string r = how == 2 ? ke::StringPrintf(fmt, a...) : v_string(fmt, a...);
                e.bytes("text", r).i("len", (long)r.size());
            }
            return;
        }
        size_t m = (size_t)l.num();
        Dest d(m, (int)l.num());
        std::string before = d.bytes();
        size_t ret = how == 4 ? ke::SafeSprintf(d.p, m, fmt, a...) : how == 5 ? v_safe(d.p, m, fmt, a...)
                     : how == 6 ? ke::path::Format(d.p, m, fmt, a...) : v_path(d.p, m, fmt, a...);
        Ev e("bounded");
        e.str("fn", how < 6 ? "text" : "path").b("fails", fails).i("m", m);
        fill(e);
        e.bytes("before", before).bytes("after", d.bytes()).i("ret", (long)ret).b("out", d.outside_intact());
    }
    template <typename... A>
    void libc(Line& l, const std::string& f, A... a) {
        // the complete text, as libc prints it with more than enough room
        static char big[65536];
        int n = snprintf(big, sizeof big, f.c_str(), a...);
        std::string full = n >= 0 && n < (int)sizeof big ? std::string(big, n) : "";
        format(l, f, n < 0, [&](Ev& e) { e.str("kind", "libc").bytes("full", full); }, a...);
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "strcpy" || op == "strcpyn") {
            int where = (int)l.num();
            size_t m = (size_t)l.num();
            long n = l.num();
            std::string s = l.hex();
            bool term = op == "strcpy" || l.num();  // without terminator only n bytes may be read
            Dest d(m, where);
            const char* src = put(g_src, s, term);
            std::string before = d.bytes();
            size_t ret = op == "strcpy" ? ke::SafeStrcpy(d.p, m, src) : ke::SafeStrcpyN(d.p, m, src, (size_t)n);
            Ev e(op.c_str());
            e.i("m", m).i("n", (size_t)n > 1000000 ? 1000000 : n).bytes("src", s).bytes("before", before).bytes("after", d.bytes()).i("ret", (long)ret).b("out", d.outside_intact());
        } else if (op == "nulldest") {
            const char* src = put(g_src, "abc", true);
            size_t a = ke::SafeStrcpy(nullptr, 5, src), b = ke::SafeStrcpyN(nullptr, 5, src, 2);
            Ev e("strcpy");
            e.i("m", 0).i("n", 0).bytes("src", "abc", 3).bytes("before", "", 0).bytes("after", "", 0).i("ret", (long)(a + b)).b("out", true);
        } else if (op == "strcat") {
            int where = (int)l.num();
            size_t m = (size_t)l.num();
            std::string d0 = l.hex(), s = l.hex();
            size_t room = std::max(m, d0.size() + 1);
            Dest d(room, where);
            memcpy(d.p, d0.data(), d0.size());
            d.p[d0.size()] = 0;
            const char* src = put(g_src, s, true);
            std::string before = d.bytes();
            size_t ret = ke::SafeStrcat(d.p, m, src);
            std::string after = d.bytes();
            // beyond the limit nothing may have changed either
            bool out = d.outside_intact() && (m >= room || after.substr(m) == before.substr(m));
            Ev e("strcat");
            e.i("m", m).i("n", 0).bytes("src", s).bytes("before", before).bytes("after", after).i("ret", (long)ret).b("out", out);
        } else if (op == "huge") {
            // limits beyond what 31 or 32 bits hold, with that much memory behind them
            std::string fn = l.word();
            int sh = (int)l.num();
            size_t m = ((size_t)1 << sh) + l.num();
            std::string d0 = l.hex(), s = l.hex();
            size_t n = (size_t)l.num();
            static char* mem = (char*)mmap(nullptr, ((size_t)1 << 33) + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (mem == (char*)MAP_FAILED)
                return;
            const size_t seen = 64;
            memset(mem, 0xC5, seen);
            memcpy(mem, d0.c_str(), d0.size() + 1);
            std::string before(mem, seen);
            size_t ret;
            if (fn == "print") {
                const char* src = put(g_src, s, true);
                ret = n & 1 ? ke::path::Format(mem, m, "%s", src) : ke::SafeSprintf(mem, m, "%s", src);
                Ev e("bounded");
                e.str("fn", n & 1 ? "path" : "text").b("fails", false).i("m", 1 << 30).str("kind", "libc").bytes("full", s);
                e.bytes("before", before).bytes("after", std::string(mem, seen)).i("ret", ret < 100000 ? (long)ret : 100000).b("out", true);
                return;
            }
            const char* src = put(g_src, s, true);
            if (fn == "strcpy")
                ret = ke::SafeStrcpy(mem, m, src);
            else if (fn == "strcat")
                ret = ke::SafeStrcat(mem, m, src);
            else
                ret = ke::SafeStrcpyN(mem, m, src, n);
            Ev e(fn.c_str());
            e.i("m", 1 << 30).i("n", std::min<size_t>(n, 1000000)).bytes("src", s).bytes("before", before).bytes("after", std::string(mem, seen));
            e.i("ret", ret < 100000 ? (long)ret : 100000).b("out", true);
        } else if (op == "long") {
            // texts longer than the recorder takes: the text follows a pattern, so its length says what it is
            std::string fn = l.word();
            size_t d0 = (size_t)l.u64(), n = (size_t)l.u64(), m = (size_t)l.u64(), k = (size_t)l.u64();
            auto pat = [](size_t i) { return (char)(1 + i % 251); };
            size_t room = std::max(m, d0 + 1) + 64;
            std::unique_ptr<char[]> d(new char[room]), src(new char[n + 1]);
            memset(d.get(), 0, room);
            memset(d.get() + std::max(m, d0 + 1), 0x5A, 64);
            for (size_t i = 0; i < d0; i++)
                d[i] = pat(i);
            for (size_t i = 0; i < n; i++)
                src[i] = pat(i + (fn == "strcat" ? d0 : 0));
            src[n] = 0;
            size_t ret = fn == "strcpy" ? ke::SafeStrcpy(d.get(), m, src.get()) : fn == "strcat" ? ke::SafeStrcat(d.get(), m, src.get())
                         : ke::SafeStrcpyN(d.get(), m, src.get(), k);
            size_t len = strnlen(d.get(), room);
            bool same = true, out = true;
            for (size_t i = 0; i < len; i++)
                same &= d[i] == pat(i);
            for (size_t i = std::max(m, d0 + 1); i < room; i++)
                out &= d[i] == 0x5A;
            Ev e("long");
            e.str("fn", fn.c_str()).i("d0", d0).i("n", n).i("m", m).i("k", k).i("len", len).i("ret", std::min<size_t>(ret, 1u << 30)).b("same", same).b("out", out);
        } else if (op == "fmt") {
            // l0..l4 s1 w1 p1 m1 d w2 m2 z2 g2 c s2 w3 p3 m3
            std::string lit[5];
            for (auto& x : lit)
                x = l.hex();
            std::string s1 = l.hex();
            int w1 = (int)l.num(), p1 = (int)l.num(), m1 = (int)l.num();
            int d = (int)l.num(), w2 = (int)l.num(), m2 = (int)l.num(), z2 = (int)l.num(), g2 = (int)l.num();
            int c = (int)l.num();
            std::string s2 = l.hex();
            int w3 = (int)l.num(), p3 = (int)l.num(), m3 = (int)l.num();
            std::string f = dup_pct(lit[0]) + "%" + (m1 ? "-" : "") + "*.*s" + dup_pct(lit[1]) + "%" + (m2 ? "-" : "") + (z2 ? "0" : "") +
                            (g2 ? "+" : "") + "*d" + dup_pct(lit[2]) + "%c" + dup_pct(lit[3]) + "%" + (m3 ? "-" : "") + "*.*s" + dup_pct(lit[4]);
            auto fill = [&](Ev& e) {
                e.str("kind", "model").key("a").s += "{\"l\":[";
                for (int i = 0; i < 5; i++) {
                    e.s += i ? ",[" : "[";
                    for (size_t k = 0; k < lit[i].size(); k++)
                        e.s += (k ? "," : "") + std::to_string((unsigned char)lit[i][k]);
                    e.s += "]";
                }
                e.s += "],\"k\":0";
                e.bytes("s1", s1).i("w1", w1).i("p1", p1).b("m1", m1).i("d", d).i("w2", w2).b("m2", m2).b("z2", z2).b("g2", g2).i("c", c & 255);
                e.bytes("s2", s2).i("w3", w3).i("p3", p3).b("m3", m3);
                e.s += "}";
            };
            // a string that is cut by its precision needs no terminator
            const char* q1 = put(g_aux, s1, p1 < 0 || (size_t)p1 > s1.size());
            std::string s2z = s2;
            format(l, f, false, fill, w1, p1, q1, w2, d, c, w3, p3, s2z.c_str());
        } else if (op == "libc") {  // conversions left to libc
            std::string f = l.hex();
            std::string ty = l.word();
            if (ty == "none")
                libc(l, f);
            else if (ty == "double") {
                double v = strtod(l.word().c_str(), nullptr);
                libc(l, f, v);
            } else if (ty == "u64") {
                uint64_t v = l.u64();
                libc(l, f, v);
            } else if (ty == "long") {
                long v = l.num();
                libc(l, f, v);
            } else if (ty == "wide") {  // %ls: some values cannot be encoded
                wchar_t w[3] = {L'a', (wchar_t)l.u64(), 0};
                libc(l, f, (const wchar_t*)w);
            } else if (ty == "many") {
                long a = l.num();
                double b = strtod(l.word().c_str(), nullptr);
                std::string s = l.hex();
                libc(l, f, (int)a, b, s.c_str(), a, (unsigned)a, b, s.c_str(), (size_t)a, (void*)a, s.c_str());
            } else
                bad_script(ty);
        } else if (op == "big") {
            long w = l.num();
            int how = (int)l.num();
            std::string got;
            if (how == 0)
                got = ke::StringPrintf("%*s|", (int)w - 1, "x");
            else if (how == 1)
                got = ke::Sprintf("%*s|", (int)w - 1, "x").get();
            else {
                std::vector<char> b(w + 10, 'Z');
                size_t n = how == 2 ? ke::SafeSprintf(b.data(), w + 1, "%*s|", (int)w - 1, "x") : ke::path::Format(b.data(), w + 1, "%*s|", (int)w - 1, "x");
                got.assign(b.data(), n);
            }
            bool same = (long)got.size() == w && got.back() == '|' && got[w - 2] == 'x' && got.find_first_not_of(' ') == (size_t)w - 2;
            Ev e("big");
            e.i("want", w).i("len", (long)got.size()).b("same", same);
        } else if (op == "split") {
            int how = (int)l.num();
            std::string s = l.hex(), sep = l.hex();
            const char* p = put(g_src, s, true);
            const char* q = put(g_aux, sep, true);
            std::vector<std::string> r = how ? ke::Split(s, q) : ke::Split(p, q);
            std::string back = ke::Join(r, q);
            Ev e("split");
            e.bytes("s", s).bytes("sep", sep).bytes("back", back);
            e.seq2("pieces", uns(r));
        } else if (op == "lsplit") {  // by lengths: the separator's, then runs of pieces: length, how many
            int how = (int)l.num();
            long n = l.num();
            std::string sep, s;
            for (long i = 0; i < n; i++)
                sep += (char)('A' + i % 23);
            std::vector<std::string> in;
            std::vector<std::vector<long>> lens, got;
            while (l.more()) {
                long len = l.num(), k = l.num();
                lens.push_back({len, k});
                for (long j = 0; j < k; j++) {
                    std::string x;
                    while ((long)x.size() < len) {  // almost a separator, and something that never is one
                        long m = std::min((long)(in.size() % 3 ? n - 1 : 0), len - (long)x.size() - 1);
                        x += sep.substr(0, (size_t)std::max(m, 0L)) + (char)('a' + (x.size() + in.size()) % 26);
                    }
                    if (!in.empty() || j)
                        s += sep;
                    s += x;
                    in.push_back(x);
                }
            }
            const char* q = put(g_aux, sep, true);
            std::vector<std::string> r = how ? ke::Split(s, q) : ke::Split(put(g_src, s, true), q);
            bool same = s.empty() || r == in;
            for (auto& x : r) {
                if (!got.empty() && got.back()[0] == (long)x.size())
                    got.back()[1]++;
                else if (got.size() < 500)
                    got.push_back({(long)x.size(), 1});
            }
            Ev e("lsplit");
            e.i("sep", n).seq2("lens", lens).seq2("got", got).b("same", same).b("back", ke::Join(r, q) == s).i("size", (long)s.size());
        } else if (op == "join") {
            std::string sep = l.hex();
            std::vector<std::string> v;
            while (l.more())
                v.push_back(l.hex());
            std::string t = ke::Join(v, put(g_aux, sep, true));
            Ev e("join");
            e.bytes("sep", sep).seq2("pieces", uns(v)).bytes("text", t);
        } else if (op == "starts" || op == "ends") {
            int how = (int)l.num();
            std::string s = l.hex(), p = l.hex();
            bool r;
            if (op == "ends")
                r = ke::EndsWith(s, p);
            else
                r = how ? ke::StartsWith(s, put(g_aux, p, true)) : ke::StartsWith(put(g_src, s, true), put(g_aux, p, true));
            Ev e(op.c_str());
            e.bytes("s", s).bytes("p", p).b("res", r);
        } else if (op == "casecmp") {
            std::string a = l.hex(), c = l.hex();
            const char* p = put(g_src, a, true);
            const char* q = put(g_aux, c, true);
            int x = ke::StrCaseCmp(p, q), y = ke::StrCaseCmp(q, p);
            Ev e("casecmp");
            e.bytes("s", a).bytes("p", c).i("res", (x > 0) - (x < 0)).i("rev", (y > 0) - (y < 0));
        } else if (op == "up" || op == "down") {
            std::string s = l.hex();
            const char* p = put(g_src, s, true);
            std::string t = op == "up" ? ke::Uppercase(p) : ke::Lowercase(p);
            Ev e(op.c_str());
            e.bytes("s", s).bytes("text", t);
        } else
            bad_script(op);
    }
    static std::vector<std::vector<long>> uns(const std::vector<std::string>& v) {
        std::vector<std::vector<long>> r;
        for (auto& s : v) {
            r.emplace_back();
            for (char c : s)
                r.back().push_back((unsigned char)c);
        }
        return r;
    }
};
int main(int argc, char** argv) {
    Strs d;
    return drive(argc, argv, &d, 60);
}
