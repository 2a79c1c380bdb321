// Driver for am-fsutil.h (C27). Works below a directory of its own.
#include "vh.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>
#include <amtl/os/am-fsutil.h>
using namespace vh;

static std::string g_root;
static int rm1(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }

static std::vector<long> ids(const std::string& p) {  // "a/b/.." -> 1,2,0
    std::vector<long> r;
    size_t i = 0;
    while (i < p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos)
            j = p.size();
        std::string n = p.substr(i, j - i);
        if (!n.empty())
            r.push_back(n == ".." ? 0 : n == "." ? -1 : n[0] - 'a' + 1);
        i = j + 1;
    }
    if (p.size() > 1 && p.back() == '/')
        r.push_back(-1);
    return r;
}
static std::string js(const std::vector<long>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
struct Fs : Driver {
    std::vector<std::string> asks;
    bool rel = false;
    long names = 0, pad = 0;
    std::string home;
    // what the components a, b and c are called on disk
    std::string disk(char c) {
        static const std::string odd[3][3] = {{"a", "b", "c"}, {" a b", "\xc3\xa9%s%n", "..c"}, {"-rf*", "\\b\n", std::string(255, 'c')}};
        return c >= 'a' && c <= 'c' ? odd[names][c - 'a'] : std::string(1, c);
    }
    std::string tr(const std::string& p) {
        std::string r;
        for (size_t i = 0; i < p.size(); i++)
            if ((i == 0 || p[i - 1] == '/') && (i + 1 == p.size() || p[i + 1] == '/'))
                r += disk(p[i]);
            else
                r += p[i];
        return r;
    }
    long id(const std::string& n) {
        for (char c = 'a'; c <= 'z'; c++)
            if (n == disk(c))
                return c - 'a' + 1;
        return 99;
    }
    void begin() override {
        if (home.empty()) {
            char b[4096];
            home = getcwd(b, sizeof b);
        }
        std::string t = home + "/fsXXXXXX";
        g_root = mkdtemp(&t[0]);
        g_root += "/root";
        mkdir(g_root.c_str(), 0755);
        asks.clear();
        rel = false;
        names = pad = 0;
        umask(022);
    }
    void end() override {
        if (chdir(home.c_str()))
            abort();
        std::string t = g_root.substr(0, g_root.size() - 5);
        nftw(t.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
    }
    std::string full(const std::string& p) {
        std::string r = rel ? "." : g_root, q = tr(p);
        for (long i = 0; i < pad; i++)
            r += i % 3 ? "/." : "//";
        return q.empty() ? r : rel && !pad ? q : r + "/" + q;
    }
    void list(const std::string& dir, std::vector<long> at, std::string& out) {
        DIR* d = opendir(dir.c_str());
        if (!d)
            return;
        while (struct dirent* x = readdir(d)) {
            std::string n = x->d_name;
            if (n == "." || n == "..")
                continue;
            struct stat s;
            lstat((dir + "/" + n).c_str(), &s);
            std::vector<long> p = at;
            p.push_back(id(n));
            const char* k = S_ISDIR(s.st_mode) ? "dir" : S_ISREG(s.st_mode) ? "file" : S_ISLNK(s.st_mode) ? "link" : S_ISSOCK(s.st_mode) ? "sock" : "fifo";
            out += (out.empty() ? "" : ",") + ("{\"p\":" + js(p)) + ",\"k\":\"" + k + "\",\"mode\":" + std::to_string(s.st_mode & 01777) + "}";
            if (S_ISDIR(s.st_mode))
                list(dir + "/" + n, p, out);
        }
        closedir(d);
    }
    void obs(Ev& e) {
        std::string t, q;
        list(g_root, {}, t);
        for (auto& a : asks) {
            std::string p = full(a);
            bool x = ke::file::PathExists(p.c_str()), f = ke::file::IsFile(p.c_str()), d = ke::file::IsDirectory(p.c_str());
            q += (q.empty() ? "" : ",") + ("{\"p\":" + js(ids(a))) + ",\"r\":" + js({x, f, d}) + "}";
        }
        e.key("tree").s += "[" + t + "]";
        e.key("ask").s += "[" + q + "]";
    }
    void cmd(const std::string& op, Line& l) override {
        if (op == "ask") {  // the paths to ask about from now on
            asks.clear();
            while (l.more())
                asks.push_back(l.word());
            return;
        }
        if (op == "relative") {
            if (chdir(g_root.c_str()))
                abort();
            rel = true;
            return;
        }
        if (op == "odd") {  // other names, and longer ways to say the same path
            names = l.num();
            pad = l.num();
            return;
        }
        if (op == "nowhere") {  // no such path, and paths that cannot be one
            std::string lng(5000, 'x'), comp = g_root + "/" + std::string(300, 'y');
            bool any = false;
            for (const char* p : {"", lng.c_str(), comp.c_str()})
                any |= ke::file::PathExists(p) | ke::file::IsFile(p) | ke::file::IsDirectory(p) | ke::file::CreateDirectory(p);
            bool dev = ke::file::PathExists("/dev/null") && !ke::file::IsFile("/dev/null") && !ke::file::IsDirectory("/dev/null");
            Ev e(any || !dev ? "nowhere" : "query");
            obs(e);
            return;
        }
        if (op == "query") {
            Ev e("query");
            obs(e);
            return;
        }
        std::string p = l.word();
        std::string f = full(p);
        if (op == "create") {
            long mode = l.num();  // -1: the default
            long um = l.num();
            umask(um);
            bool ok = mode < 0 ? ke::file::CreateDirectory(f.c_str()) : ke::file::CreateDirectory(f.c_str(), (unsigned)mode);
            umask(022);
            if (p.back() == '/')
                p.pop_back();
            Ev e("create");
            e.seq("p", ids(p)).i("mode", mode < 0 ? 0755 : mode).i("umask", um).b("ok", ok);
            obs(e);
            return;
        }
        if (op == "file") {
            int fd = open(f.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_NOFOLLOW, 0644);
            if (fd < 0)
                bad_script("file " + p);
            // a size and permissions
            off_t size = l.more() ? (off_t)l.num() : 0;
            mode_t m = l.more() ? (mode_t)l.num() : 0644;
            if (ftruncate(fd, size) && errno != EFBIG && errno != EINVAL || fchmod(fd, m))
                bad_script("file " + p);
            close(fd);
            Ev e("file");
            e.seq("p", ids(p)).i("mode", 0);
            obs(e);
        } else if (op == "fifo" || op == "sock") {
            if (mknod(f.c_str(), (op == "fifo" ? S_IFIFO : S_IFSOCK) | 0600, 0))
                bad_script(op + " " + p);
            Ev e(op.c_str());
            e.seq("p", ids(p)).i("mode", 0);
            obs(e);
        } else if (op == "dir") {
            if (mkdir(f.c_str(), 0755))
                bad_script("dir " + p);
            Ev e("dir");
            e.seq("p", ids(p)).i("mode", 0755);
            obs(e);
        } else if (op == "link") {
            bool abs = l.num();
            std::string to = l.word();  // "." is the root or the directory itself
            std::string t = abs ? (to == "." ? g_root : g_root + "/" + tr(to)) : tr(to);
            if (symlink(t.c_str(), f.c_str()))
                bad_script("link " + p);
            Ev e("link");
            e.seq("p", ids(p)).b("abs", abs).seq("to", ids(to));
            obs(e);
        } else if (op == "rm") {
            if (remove(f.c_str()))
                bad_script("rm " + p);
            Ev e("rm");
            e.seq("p", ids(p));
            obs(e);
        } else
            bad_script(op);
    }
};
int main(int argc, char** argv) {
    Fs d;
    return drive(argc, argv, &d, 60);
}
