// Driver for the option parser (C15, C16, C17).
#include "vh.h"
#include <limits.h>
#include <memory>
#include <stdarg.h>
#include <functional>
#include <amtl/experimental/am-argparser.h>
using namespace vh;
using namespace ke;
using namespace ke::args;

typedef std::vector<std::string> Texts;
static void texts(Ev& e, const char* k, const Texts& v) {
    std::vector<std::vector<long>> o;
    for (auto& s : v) {
        o.emplace_back();
        for (char c : s)
            o.back().push_back((unsigned char)c);
    }
    e.seq2(k, o);
}
static std::string jbytes(const std::string& s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++)
        r += (i ? "," : "") + std::to_string((unsigned)(unsigned char)s[i]);
    return r + "]";
}
static std::string jtexts(const Texts& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++)
        r += (i ? "," : "") + jbytes(v[i]);
    return r + "]";
}
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c < 32 || c >= 127 || c == '"' || c == '\\') {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r + "\"";
}
static Texts words(const std::string& s) {
    Texts r;
    std::string cur;
    for (char c : s) {
        if (c == ' ') {
            if (!cur.empty())
                r.push_back(cur);
            cur.clear();
        } else
            cur += c;
    }
    if (!cur.empty())
        r.push_back(cur);
    return r;
}
static std::string jwords(const std::string& s) {
    std::string r = "[";
    for (auto& w : words(s))
        r += (r.size() > 1 ? "," : "") + jstr(w);
    return r + "]";
}
static std::string show(bool b) { return b ? "1" : "0"; }
static std::string show(int n) { return std::to_string(n); }
static std::string show(const std::string& s) { return s; }
template <typename T>
static T read(const std::string& s);
template <>
bool read<bool>(const std::string& s) { return s == "1"; }
template <>
int read<int>(const std::string& s) { return atoi(s.c_str()); }
template <>
std::string read<std::string>(const std::string& s) { return s; }

struct Decl {
    std::string kind, s, l, n, help;
    bool has_def = false;
    std::string def;
};
struct Opt {
    virtual ~Opt() {}
    virtual Texts vals() = 0;
    virtual bool sane() { return true; }   // the ways of asking agree
};
template <typename T>
struct ValOpt : Opt {
    std::unique_ptr<Option<T>> o;
    Texts vals() override { return o->hasValue() ? Texts{show(o->value())} : Texts(); }
    bool sane() override {
        auto m = o->maybeValue();
        return m.isValid() == o->hasValue() && (!m.isValid() || m.get() == o->value());
    }
};
template <typename O>
struct FlagOpt : Opt {
    std::unique_ptr<O> o;
    Texts vals() override { return Texts{show(o->value())}; }
};
template <typename T>
struct RepOpt : Opt {
    std::unique_ptr<RepeatOption<T>> o;
    Texts vals() override {
        Texts r;
        for (const auto& v : static_cast<const RepeatOption<T>*>(o.get())->values())
            r.push_back(show(v));
        return r;
    }
};
static const char* cstr(const std::string& s) { return s.empty() ? nullptr : s.c_str(); }

template <typename T>
static Maybe<T> dflt(const Decl& d) {
    return d.has_def ? Maybe<T>(Some(read<T>(d.def))) : Maybe<T>();
}
template <typename... P>
static std::unique_ptr<Opt> make(const Decl& d, P&... p) {
    if (d.kind == "str" || d.kind == "int" || d.kind == "bool") {
        auto go = [&](auto* tag) -> std::unique_ptr<Opt> {
            typedef std::decay_t<decltype(*tag)> T;
            auto r = std::make_unique<ValOpt<T>>();
            if (!d.n.empty())
                r->o = std::make_unique<Option<T>>(p..., d.n.c_str(), d.help.c_str());
            else
                r->o = std::make_unique<Option<T>>(p..., cstr(d.s), cstr(d.l), dflt<T>(d), d.help.c_str());
            return r;
        };
        if (d.kind == "str")
            return go((std::string*)nullptr);
        if (d.kind == "int")
            return go((int*)nullptr);
        return go((bool*)nullptr);
    }
    if (d.kind == "en") {
        auto r = std::make_unique<FlagOpt<EnableOption>>();
        r->o = std::make_unique<EnableOption>(p..., cstr(d.s), cstr(d.l), d.def == "1", d.help.c_str());
        return r;
    }
    if (d.kind == "tog") {
        auto r = std::make_unique<FlagOpt<ToggleOption>>();
        r->o = std::make_unique<ToggleOption>(p..., cstr(d.s), cstr(d.l), dflt<bool>(d), d.help.c_str());
        return r;
    }
    if (d.kind == "stop") {
        auto r = std::make_unique<FlagOpt<StopOption>>();
        r->o = std::make_unique<StopOption>(p..., cstr(d.s), cstr(d.l), dflt<bool>(d), d.help.c_str());
        return r;
    }
    if (d.kind == "rstr") {
        auto r = std::make_unique<RepOpt<std::string>>();
        r->o = std::make_unique<RepeatOption<std::string>>(p..., cstr(d.s), cstr(d.l), d.help.c_str());
        return r;
    }
    if (d.kind == "rint") {
        auto r = std::make_unique<RepOpt<int>>();
        r->o = std::make_unique<RepeatOption<int>>(p..., cstr(d.s), cstr(d.l), d.help.c_str());
        return r;
    }
    if (d.kind == "rbool") {
        auto r = std::make_unique<RepOpt<bool>>();
        r->o = std::make_unique<RepeatOption<bool>>(p..., cstr(d.s), cstr(d.l), d.help.c_str());
        return r;
    }
    bad_script(d.kind);
}

#ifdef STATIC_OPTS
static const std::vector<Decl>& static_decls() {
    static std::vector<Decl> v;
    if (v.empty()) {
        Decl d;
        d.kind = "str"; d.s = "S"; d.l = "sstr"; d.help = "static string help"; d.has_def = true; d.def = "sd";
        v.push_back(d);
        d = Decl(); d.kind = "int"; d.s = "I"; d.help = "static number"; v.push_back(d);
        d = Decl(); d.kind = "bool"; d.l = "sbool"; d.help = "static boolean option"; v.push_back(d);
        d = Decl(); d.kind = "en"; d.l = "senable"; d.has_def = true; d.def = "1"; d.help = "h1"; v.push_back(d);
        d = Decl(); d.kind = "tog"; d.s = "T"; d.l = "stog"; d.help = "h2"; v.push_back(d);
        d = Decl(); d.kind = "stop"; d.s = "X"; d.help = "h3"; v.push_back(d);
        d = Decl(); d.kind = "rstr"; d.s = "R"; d.l = "srep"; d.help = "h4"; v.push_back(d);
        d = Decl(); d.kind = "tog"; d.s = "U"; d.l = "utog"; d.has_def = true; d.def = "1"; d.help = "h5"; v.push_back(d);
        d = Decl(); d.kind = "rint"; d.s = "N"; d.help = "h6"; v.push_back(d);
        d = Decl(); d.kind = "rbool"; d.l = "srbool"; d.help = "h7"; v.push_back(d);
        d = Decl(); d.kind = "en"; d.s = "E"; d.l = "e0"; d.has_def = true; d.def = "0"; d.help = "h8"; v.push_back(d);
        d = Decl(); d.kind = "stop"; d.l = "sstop"; d.has_def = true; d.def = "1"; d.help = "h9"; v.push_back(d);
        d = Decl(); d.kind = "str"; d.n = "spos"; d.help = "static positional"; v.push_back(d);
    }
    return v;
}
#endif
static std::vector<std::unique_ptr<Opt>>* g_static;

struct Instance {
    std::unique_ptr<Parser> p;
    std::vector<std::unique_ptr<Opt>> own;
    std::vector<Opt*> all;
};
struct Args : Driver {
    bool has_help = false;
    std::string help, usage_line;
    std::string modes;
    std::vector<Decl> decls;
    std::vector<std::pair<std::string, std::string>> lines;
    std::unique_ptr<Instance> in;
    Texts last;
    void begin() override {
        in.reset();
        has_help = false;
        help = usage_line = modes = "";
        decls.clear();
        lines.clear();
        last.clear();
    }
    void end() override { in.reset(); }
    std::unique_ptr<Instance> build() {
        auto r = std::make_unique<Instance>();
        if (has_help)
            r->p = std::make_unique<Parser>(help.c_str());
        else
            r->p = std::make_unique<Parser>();
        if (g_static)
            for (auto& o : *g_static)
                r->all.push_back(o.get());
        for (char c : modes) {
            if (c == 'i')
                r->p->enable_inline_values();
            if (c == 's')
                r->p->allow_slashes();
            if (c == 'e')
                r->p->collect_extra_args();
            if (c == 'p')
                r->p->allow_passthrough_args();
        }
        if (!usage_line.empty())
            r->p->set_usage_line(usage_line.c_str());
        for (auto& d : decls) {
            r->own.push_back(make(d, *r->p));
            r->all.push_back(r->own.back().get());
        }
        for (auto& l : lines)
            r->p->add_usage_line(l.first.c_str(), l.second.c_str());
        if (g_static)
            r->p->reset();
        return r;
    }
    static std::string jdecl(const Decl& d) {
        Texts def;
        if (d.kind == "en" || d.kind == "tog" || d.kind == "stop")
            def = {d.has_def && d.def == "1" ? "1" : "0"};
        else if (d.has_def)
            def = {d.def};
        return "{\"k\":\"" + d.kind + "\",\"s\":" + jbytes(d.s) + ",\"l\":" + jbytes(d.l) + ",\"n\":" + jbytes(d.n) +
               ",\"def\":" + jtexts(def) + ",\"fs\":" + jstr("-" + d.s) + ",\"fl\":" + jstr("--" + d.l) + ",\"wn\":" + jwords(d.n) + ",\"wh\":" + jwords(d.help) + "}";
    }
    void report() {
        Ev e("begin");
        e.key("D");
        std::vector<std::string> ds;
        if (has_help) {
            Decl d;
            d.kind = "stop";
            d.s = "h";
            d.l = "help";
            d.help = "Display this help menu.";
            ds.push_back(jdecl(d));
        }
#ifdef STATIC_OPTS
        for (auto& d : static_decls())
            ds.push_back(jdecl(d));
#endif
        for (auto& d : decls)
            ds.push_back(jdecl(d));
        e.s += "[";
        for (size_t i = 0; i < ds.size(); i++)
            e.s += (i ? "," : "") + ds[i];
        e.s += "]";
        auto has = [&](char c) { return modes.find(c) != std::string::npos; };
        e.key("M");
        e.s += std::string("{\"inl\":") + (has('i') ? "true" : "false") + ",\"sl\":" + (has('s') ? "true" : "false") +
               ",\"ex\":" + (has('e') ? "true" : "false") + ",\"pt\":" + (has('p') ? "true" : "false") +
               ",\"help\":" + (has_help ? "1" : "0") + "}";
        e.key("help").s += jwords(has_help ? help : "");
        e.key("uline").s += jwords(usage_line);
        e.key("lines");
        e.s += "[";
        for (size_t i = 0; i < lines.size(); i++)
            e.s += (i ? ",{\"wn\":" : "{\"wn\":") + jwords(lines[i].first) + ",\"wh\":" + jwords(lines[i].second) + "}";
        e.s += "]";
    }
    static bool parse(Parser& p, int how, const Texts& a) {
        if (how == 3 && a.size() <= 6) {
            const char* q[8] = {};
            for (size_t i = 0; i < a.size(); i++)
                q[i] = a[i].c_str();
            return p.parsev(q[0], q[1], q[2], q[3], q[4], q[5], q[6]);
        }
        if (how == 2)
            return p.parse(a);
        std::vector<const char*> v;
        for (auto& s : a)
            v.push_back(s.c_str());
        if (how == 1)
            return p.parse(v);
        v.insert(v.begin(), "--not-an-argument");
        int argc = (int)v.size();
        v.push_back(nullptr);
        return p.parse(argc, (char**)v.data());
    }
    // what usage() prints, when called with these arguments
    static std::string usage_text(Parser& p, const std::string& prog, const Texts& a) {
        char* buf = nullptr;
        size_t n = 0;
        FILE* f = open_memstream(&buf, &n);
        std::vector<char*> v;
        v.push_back((char*)prog.c_str());
        for (auto& s : a)
            v.push_back((char*)s.c_str());
        int argc = (int)v.size();
        v.push_back(nullptr);
        p.usage(f, argc, v.data());
        fclose(f);
        std::string r(buf, n);
        free(buf);
        return r;
    }
    static std::string error_of(Parser& p) {
        std::string t = usage_text(p, "prog", {});
        size_t k = t.find("\nerror: ");
        return k == std::string::npos ? "" : t.substr(k + 8);
    }
    void values(Ev& e, Instance& x) {
        e.key("vals");
        e.s += "[";
        // the help option is the parser's own; what it holds shows in the result
        bool first = true;
        bool sane = true;
        if (has_help) {
            e.s += "[]";
            first = false;
        }
        for (auto* o : x.all) {
            e.s += (first ? "" : ",") + jtexts(o->vals());
            first = false;
            sane = sane && o->sane();
        }
        e.s += "]";
        e.b("sane", sane);
        texts(e, "extra", x.p->extra_args());
        texts(e, "thru", x.p->passthrough_args());
    }
    void run_parse(const char* name, Instance& x, int how, const Texts& a, bool compare) {
        bool res = parse(*x.p, how, a);
        Ev e(name);
        e.b("res", res);
        texts(e, "args", a);
        values(e, x);
        std::string err = error_of(*x.p);
        e.bytes("err", err);
        if (compare && !g_static) {
            auto f = build();
            bool r2 = parse(*f->p, how, a);
            e.b("same", r2 == res && error_of(*f->p) == err);
        } else {
            e.b("same", true);
        }
    }
    void need() {
        if (!in) {
            in = build();
            report();
        }
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "parser") {
            modes = l.word();
            has_help = l.num();
            help = l.hex();
        } else if (op == "uline") {
            usage_line = l.hex();
        } else if (op == "opt") {  // kind short long default help, in hex; default "none"
            Decl d;
            d.kind = l.word();
            d.s = l.hex();
            d.l = l.hex();
            std::string def = l.word();
            if (def != "none") {
                Line x;
                x.t.push_back(def);
                d.has_def = true;
                d.def = x.hex();
            }
            d.help = l.hex();
            decls.push_back(d);
        } else if (op == "pos") {
            Decl d;
            d.kind = l.word();
            d.n = l.hex();
            d.help = l.hex();
            decls.push_back(d);
        } else if (op == "line") {
            std::string a = l.hex(), b = l.hex();
            lines.push_back({a, b});
        } else if (op == "parse" || op == "fresh") {
            need();
            int how = (int)l.num();
            Texts a;
            while (l.more())
                a.push_back(l.hex());
            last = a;
            if (op == "fresh") {
                auto f = build();
                run_parse("fresh", *f, how, a, false);
            } else {
                run_parse("parse", *in, how, a, true);
            }
        } else if (op == "reset") {
            need();
            in->p->reset();
            Ev e("reset");
            values(e, *in);
            e.bytes("err", error_of(*in->p));
        } else if (op == "usage") {  // program name, then the arguments of the last parse
            need();
            std::string prog = l.hex();
            std::string t = usage_text(*in->p, prog, last);
            Ev e("usage");
            e.str("prog", prog.c_str());
            texts(e, "args", last);
            size_t er = t.find("\nerror: ");
            e.bytes("err", er == std::string::npos ? "" : t.substr(er + 8));
            e.key("text").s += "[";
            for (size_t k = 0; k < t.size();) {
                size_t nl = t.find('\n', k);
                if (nl == std::string::npos)
                    nl = t.size();
                std::string ln = t.substr(k, nl - k);
                size_t n = ln.size();
                while (n && ln[n - 1] == ' ')
                    n--;
                e.s += (k ? ",{\"n\":" : "{\"n\":") + std::to_string(n) + ",\"ind\":" + (ln[0] == ' ' ? "true" : "false") + ",\"ws\":[";
                bool first = true;
                for (auto& w : words(ln)) {
                    size_t q = w.find('=');
                    e.s += (first ? "[" : ",[") + jstr(w) + "," + jstr(q == std::string::npos ? w : w.substr(0, q + 1)) + "]";
                    first = false;
                }
                e.s += "]}";
                k = nl + 1;
            }
            e.s += "]";
        } else
            bad_script(op);
    }
};
int main(int argc, char** argv) {
#ifdef STATIC_OPTS
    g_static = new std::vector<std::unique_ptr<Opt>>;
    for (auto& d : static_decls())
        g_static->push_back(make(d));
#endif
    Args d;
    return drive(argc, argv, &d, 100);
}
