// Driver for am-time.h (C29).
#include "vh.h"
#include <amtl/am-time.h>
using namespace vh;

static std::vector<long> limbs(long long v) {  // base 10^6, the first one signed
    std::vector<long> r(5);
    for (int i = 4; i > 0; i--) {
        long m = v % 1000000;
        if (m < 0)
            m += 1000000;
        r[i] = m;
        v = (v - m) / 1000000;  // v - m can leave the range: see below
    }
    r[0] = v;
    return r;
}
static std::vector<long> safe_limbs(long long v) {
    // v = q * 10^6 + m first, so that nothing overflows at the ends of the range
    long long m = v % 1000000, q = v / 1000000;
    if (m < 0) {
        m += 1000000;
        q--;
    }
    std::vector<long> h = limbs(q), r(h.begin() + 1, h.end());
    r[0] += h[0] * 1000000;
    r.push_back(m);
    return r;
}
template <typename Rep, typename Period>
struct Clk {
    typedef Rep rep;
    typedef Period period;
    typedef std::chrono::duration<Rep, Period> duration;
    typedef std::chrono::time_point<Clk> time_point;
    static const bool is_steady = false;
};
template <typename C>
static void point(std::string& s, timespec ts, long long unit, const char* factors) {
    auto tp = ke::TimespecToTimePoint<C>(ts);
    static_assert(std::is_same<decltype(tp), std::chrono::time_point<C, std::chrono::nanoseconds>>::value, "");
    long long n = tp.time_since_epoch().count();
    auto put = [&](const char* k, long long v) {
        s += std::string("\"") + k + "\":[";
        bool f = true;
        for (long x : safe_limbs(v)) {
            s += (f ? "" : ",") + std::to_string(x);
            f = false;
        }
        s += "],";
    };
    s += s.empty() ? "{" : ",{";
    put("ns", n);
    put("q", n / unit);
    s += std::string("\"unit\":[") + factors + "]}";
}
static std::string unhex(const std::string& h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
}
struct Tm : Driver {
    void begin() override {}
    void end() override {}
    void cmd(const std::string& op, Line& l) override {
        if (op == "span") {
            timespec ts;
            ts.tv_sec = strtoll(l.word().c_str(), 0, 10);
            ts.tv_nsec = strtoll(l.word().c_str(), 0, 10);
            auto d = ke::TimespecToDuration(ts);
            static_assert(std::is_same<decltype(d), std::chrono::nanoseconds>::value, "");
            std::string s;
            point<std::chrono::system_clock>(s, ts, 1, "1");
            point<std::chrono::steady_clock>(s, ts, 1, "1");
            point<Clk<long long, std::ratio<1, 10000000>>>(s, ts, 100, "100");
            point<Clk<long long, std::micro>>(s, ts, 1000, "1000");
            point<Clk<long long, std::milli>>(s, ts, 1000000, "1000,1000");
            point<Clk<long long, std::ratio<1>>>(s, ts, 1000000000, "1000,1000,1000");
            point<Clk<long long, std::ratio<60>>>(s, ts, 60000000000LL, "1000,1000,1000,60");
            point<Clk<int, std::ratio<3600>>>(s, ts, 3600000000000LL, "1000,1000,1000,60,60");
            Ev e("span");
            e.seq("sec", safe_limbs(ts.tv_sec)).seq("nsec", safe_limbs(ts.tv_nsec)).seq("dur", safe_limbs(d.count()));
            e.key("clocks").s += "[" + s + "]";
        } else if (op == "epoch") {
            long long t = strtoll(l.word().c_str(), 0, 10);
            std::vector<std::vector<long>> r;
            namespace c = std::chrono;
            r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::system_clock::time_point>(t).time_since_epoch().count()));
            r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::steady_clock::time_point>(t).time_since_epoch().count()));
            r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::time_point<c::system_clock, c::seconds>>(t).time_since_epoch().count()));
            r.push_back(safe_limbs(ke::EpochValueToTimePoint<Clk<long long, std::micro>::time_point>(t).time_since_epoch().count()));
            r.push_back(safe_limbs(ke::EpochValueToTimePoint<Clk<long long, std::ratio<86400>>::time_point>(t).time_since_epoch().count()));
            if (t >= 0)
                r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::system_clock::time_point>((uint64_t)t).time_since_epoch().count()));
            if (t == (int)t) {
                r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::system_clock::time_point>((int)t).time_since_epoch().count()));
                r.push_back(safe_limbs(ke::EpochValueToTimePoint<Clk<int, std::ratio<1>>::time_point>(t).time_since_epoch().count()));
                r.push_back(safe_limbs((long long)ke::EpochValueToTimePoint<Clk<double, std::ratio<1>>::time_point>(t).time_since_epoch().count()));
            }
            if (t >= 0 && t == (long long)(unsigned)t)
                r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::system_clock::time_point>((unsigned)t).time_since_epoch().count()));
            if (t == (signed char)t)
                r.push_back(safe_limbs(ke::EpochValueToTimePoint<c::system_clock::time_point>((signed char)t).time_since_epoch().count()));
            Ev e("epoch");
            e.seq("t", safe_limbs(t)).seq2("counts", r);
        } else if (op == "format") {
            struct tm t;
            memset(&t, 0, sizeof t);
            t.tm_year = l.num();
            t.tm_mon = l.num();
            t.tm_mday = l.num();
            t.tm_hour = l.num();
            t.tm_min = l.num();
            t.tm_sec = l.num();
            t.tm_wday = l.num();
            t.tm_yday = l.num();
            std::string f = l.more() ? unhex(l.word()) : "";
            // the argument ends where its storage ends
            char* p = strdup(f.c_str());
            std::string a = ke::FormatTime(t, p), b = ke::FormatTime(t, f);
            free(p);
            Ev e("format");
            e.bytes("f", f).bytes("out", a).bytes("out2", b);
            e.key("tm").s += "{\"year\":" + std::to_string(t.tm_year) + ",\"mon\":" + std::to_string(t.tm_mon) + ",\"mday\":" + std::to_string(t.tm_mday) +
                             ",\"hour\":" + std::to_string(t.tm_hour) + ",\"min\":" + std::to_string(t.tm_min) + ",\"sec\":" + std::to_string(t.tm_sec) +
                             ",\"wday\":" + std::to_string(t.tm_wday) + ",\"yday\":" + std::to_string(t.tm_yday) + "}";
        } else
            bad_script(op);
    }
};
int main(int argc, char** argv) {
    Tm d;
    return drive(argc, argv, &d, 60);
}
