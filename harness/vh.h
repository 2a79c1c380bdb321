// Common parts of the drivers: script reader, event recorder, tracked elements, counting allocators.
#pragma once
#include <assert.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vh {

static FILE* g_out;
static std::vector<std::string> g_tok;
static size_t g_pos;

// ---- events ---------------------------------------------------------------------------------
struct Ev {
    std::string s;
    explicit Ev(const char* op) {
        s = "{\"op\":\"";
        s += op;
        s += "\"";
    }
    Ev(const Ev&) = delete;
    ~Ev() {
        s += "}\n";
        fwrite(s.data(), 1, s.size(), g_out);
        fflush(g_out);
    }
    Ev& key(const char* k) {
        s += ",\"";
        s += k;
        s += "\":";
        return *this;
    }
    Ev& i(const char* k, long long v) {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    Ev& b(const char* k, bool v) {
        key(k);
        s += v ? "true" : "false";
        return *this;
    }
    Ev& str(const char* k, const char* v) {  // plain identifier-like text
        key(k);
        s += "\"";
        for (; *v; v++) {
            if (*v == '"' || *v == '\\')
                s += '\\';
            s += *v;
        }
        s += "\"";
        return *this;
    }
    template <typename C>
    Ev& seq(const char* k, const C& v) {
        key(k);
        s += "[";
        bool first = true;
        for (const auto& x : v) {
            if (!first)
                s += ",";
            first = false;
            s += std::to_string((long long)x);
        }
        s += "]";
        return *this;
    }
    template <typename C>
    Ev& seq2(const char* k, const C& v) {  // sequence of sequences
        key(k);
        s += "[";
        bool first = true;
        for (const auto& x : v) {
            if (!first)
                s += ",";
            first = false;
            s += "[";
            bool f2 = true;
            for (const auto& y : x) {
                if (!f2)
                    s += ",";
                f2 = false;
                s += std::to_string((long long)y);
            }
            s += "]";
        }
        s += "]";
        return *this;
    }
    Ev& bytes(const char* k, const char* p, size_t n) {  // byte values 0..255
        key(k);
        s += "[";
        for (size_t j = 0; j < n; j++) {
            if (j)
                s += ",";
            s += std::to_string((unsigned)(unsigned char)p[j]);
        }
        s += "]";
        return *this;
    }
    Ev& bytes(const char* k, const std::string& v) {
        return bytes(k, v.data(), v.size());
    }
    // 64-bit word as four 16-bit limbs, least significant first
    Ev& w64(const char* k, uint64_t v) {
        key(k);
        s += "[";
        for (int j = 0; j < 4; j++) {
            if (j)
                s += ",";
            s += std::to_string((unsigned)((v >> (16 * j)) & 0xffff));
        }
        s += "]";
        return *this;
    }
};

// ---- script ---------------------------------------------------------------------------------
[[noreturn]] static inline void bad_script(const std::string& why) {
    fprintf(stderr, "bad script: %s\n", why.c_str());
    fflush(stderr);
    _exit(3);
}
struct Line {
    std::vector<std::string> t;
    size_t p = 0;
    std::string word() {
        if (p >= t.size())
            bad_script("missing token after " + (t.empty() ? std::string("?") : t[0]));
        return t[p++];
    }
    bool more() const {
        return p < t.size();
    }
    long num() {
        return strtol(word().c_str(), nullptr, 0);
    }
    uint64_t u64() {
        return strtoull(word().c_str(), nullptr, 0);
    }
    // bytes written as hex; "-" is the empty string
    std::string hex() {
        std::string h = word(), r;
        if (h == "-")
            return r;
        if (h.size() % 2)
            bad_script("odd hex");
        for (size_t j = 0; j < h.size(); j += 2)
            r += (char)strtol(h.substr(j, 2).c_str(), nullptr, 16);
        return r;
    }
};

// The driver supplies: start of a trace, one command, end of a trace.
struct Driver {
    virtual ~Driver() {}
    virtual void begin() = 0;
    virtual void cmd(const std::string& op, Line& l) = 0;
    virtual void end() = 0;
};

static inline int drive(int argc, char** argv, Driver* d, unsigned limit = 30) {
    if (argc < 3)
        return 3;
    std::vector<Line> lines;
    {
        FILE* f = fopen(argv[1], "r");
        if (!f)
            return 3;
        std::string cur;
        int c;
        Line l;
        auto flushw = [&]() {
            if (!cur.empty())
                l.t.push_back(cur);
            cur.clear();
        };
        while ((c = fgetc(f)) != EOF) {
            if (c == '\n') {
                flushw();
                if (!l.t.empty())
                    lines.push_back(l);
                l = Line();
            } else if (c == ' ') {
                flushw();
            } else {
                cur += (char)c;
            }
        }
        fclose(f);
    }
    g_out = fopen(argv[2], "w");
    if (!g_out)
        return 3;
    bool open = false;
    for (auto& l : lines) {
        std::string op = l.word();
        if (op == "T") {
            if (open)
                d->end();
            fprintf(g_out, "#T %s\n", l.word().c_str());
            fflush(g_out);
            alarm(limit);
            open = true;
            d->begin();
        } else {
            d->cmd(op, l);
        }
    }
    if (open)
        d->end();
    fclose(g_out);
    return 0;
}

// ---- tracked elements ------------------------------------------------------------------------
// Every construction and destruction is recorded by address; anything done to an address that
// holds no live object, and any construction over a live one, is counted as a fault.
struct Life {
    std::set<const void*> live;
    long faults = 0;
    long made = 0;
    const char* what = "";
    void fault(const char* w) {
        faults++;
        what = w;
    }
    void construct(const void* p) {
        made++;
        if (!live.insert(p).second)
            fault("construct over live");
    }
    void destroy(const void* p) {
        if (!live.erase(p))
            fault("destroy of dead");
    }
    void use(const void* p) {
        if (!live.count(p))
            fault("use of dead");
    }
    void reset() {
        live.clear();
        faults = 0;
        made = 0;
        what = "";
    }
};
// Never destroyed, so that objects dying at exit are safe. One instance per program.
inline Life& life() {
    static Life* l = new Life;
    return *l;
}

// A value that owns a heap cell, so that ASan sees misuse as well. moved-from holds -1.
struct Tracked {
    long* cell;
    static const long kMoved = -1;
    Tracked() : cell(new long(0)) { life().construct(this); }
    Tracked(long v) : cell(new long(v)) { life().construct(this); }
    Tracked(const Tracked& o) {
        life().use(&o);
        cell = new long(*o.cell);
        life().construct(this);
    }
    Tracked(Tracked&& o) noexcept {
        life().use(&o);
        cell = new long(*o.cell);
        *o.cell = kMoved;
        life().construct(this);
    }
    Tracked& operator=(const Tracked& o) {
        life().use(this);
        life().use(&o);
        *cell = *o.cell;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        life().use(this);
        life().use(&o);
        if (this != &o) {
            *cell = *o.cell;
            *o.cell = kMoved;
        }
        return *this;
    }
    ~Tracked() {
        life().destroy(this);
        *cell = -77;
        delete cell;
        cell = nullptr;
    }
    long get() const {
        life().use(this);
        return *cell;
    }
    bool operator==(const Tracked& o) const { return get() == o.get(); }
    bool operator!=(const Tracked& o) const { return get() != o.get(); }
    bool operator<(const Tracked& o) const { return get() < o.get(); }
};

// Move-only version.
struct TrackedMO {
    Tracked t;
    TrackedMO() {}
    TrackedMO(long v) : t(v) {}
    TrackedMO(TrackedMO&& o) noexcept = default;
    TrackedMO& operator=(TrackedMO&& o) noexcept = default;
    TrackedMO(const TrackedMO&) = delete;
    TrackedMO& operator=(const TrackedMO&) = delete;
    long get() const { return t.get(); }
    bool operator==(const TrackedMO& o) const { return get() == o.get(); }
    bool operator!=(const TrackedMO& o) const { return get() != o.get(); }
    bool operator<(const TrackedMO& o) const { return get() < o.get(); }
};

// ---- counting allocation policy ----------------------------------------------------------------
struct Arena {
    std::map<void*, size_t> live;
    long faults = 0;       // frees of what is not (or no longer) allocated here
    long overflows = 0;    // reportAllocationOverflow calls
    long oom = 0;          // reportOutOfMemory calls
    long mallocs = 0;
    long fail_in = -1;     // refuse the allocation when this reaches 0; -1 never
    long fail_for = 0;     // and so many following ones
    void reset() {
        for (auto& p : live)
            ::free(p.first);
        *this = Arena();
    }
};
} // namespace vh
