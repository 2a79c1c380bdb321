// Driver for InlineList (C10).
#include "vh.h"
#include <memory>
#include <amtl/am-inlinelist.h>
using namespace vh;

struct Pad {
    long pad[3] = {7, 8, 9};
    virtual ~Pad() {}
};
struct Item : Pad, ke::InlineListNode<Item> {  // the links do not sit at the start of the object
    int id;
    explicit Item(int i) : id(i) {}
};
typedef ke::InlineList<Item> List;

struct ListDriver : Driver {
    static const int NL = 4, NN = 7;
    List* L[NL] = {};
    Item* N[NN] = {};
    bool listed[NN] = {};
    void begin() override {
        for (int i = 1; i < NL; i++)
            L[i] = new List();
        for (int i = 1; i < NN; i++) {
            N[i] = new Item(i);
        }
    }
    void end() override {
        for (int i = 1; i < NL; i++) {
            delete L[i];
            L[i] = nullptr;
        }
        for (int i = 1; i < NN; i++) {
            delete N[i];
            N[i] = nullptr;
        }
    }
    static std::vector<long> fwd(List* l) {
        std::vector<long> r;
        for (List::iterator i = l->begin(); i != l->end() && r.size() < 50;) {
            List::iterator was = i++;
            r.push_back((*was)->id);
        }
        // the other increment and access forms have to agree
        size_t n = 0;
        for (List::iterator i = l->begin(); !(i == l->end()) && n < 50; ++i, n++)
            if (n >= r.size() || i->id != r[n])
                r.push_back(-5);
        if (n != r.size())
            r.push_back(-6);
        return r;
    }
    static std::vector<long> back(List* l) {
        std::vector<long> r;
        for (List::reverse_iterator i = l->rbegin(); i != l->rend() && r.size() < 50;) {
            List::reverse_iterator was = i++;
            r.push_back(was->id);
        }
        for (List::reverse_iterator i = l->rbegin(); i != l->rend() && r.size() < 100;) {
            List::reverse_iterator now = ++i;
            if (now != i)
                r.push_back(-7);
        }
        size_t n = 0;
        for (List::reverse_iterator i = l->rbegin(); !(i == l->rend()) && n < 50; i++, n++)
            if (n >= r.size() || i->id != r[n])
                r.push_back(-5);
        if (n != r.size())
            r.push_back(-6);
        return r;
    }
    void obs(Ev& e) {
        std::vector<std::vector<long>> f, b;
        std::vector<long> em, len, in;
        for (int i = 1; i < NL; i++) {
            if (L[i]) {
                f.push_back(fwd(L[i]));
                b.push_back(back(L[i]));
                em.push_back(L[i]->empty());
                len.push_back((long)L[i]->length());
            } else {
                f.push_back({});
                b.push_back({});
                em.push_back(-1);
                len.push_back(-1);
            }
        }
        for (int i = 1; i < NN; i++)
            in.push_back(N[i]->isInList());
        e.seq2("fwd", f).seq2("back", b).seq("empty", em).seq("len", len).seq("inlist", in);
    }
    bool has(int l, int n) {
        if (!L[l])
            return false;
        for (long x : fwd(L[l]))
            if (x == n)
                return true;
        return false;
    }
    bool anywhere(int n) { return has(1, n) || has(2, n) || has(3, n); }
    // The node numbers as runs of consecutive ones.
    static void runs(std::vector<std::vector<long>>& r, long id, long step) {
        if (!r.empty() && r.back()[0] + step * r.back()[1] == id)
            r.back()[1]++;
        else
            r.push_back({id, 1});
    }
    // A list of n nodes, of which every k-th leaves in the given way.
    void bulk(long n, long k, const std::string& how) {
        std::vector<std::unique_ptr<Item>> v;
        List l;
        for (long i = 1; i <= n; i++) {
            v.emplace_back(new Item((int)i));
            l.append(v.back().get());
        }
        long full = (long)l.length(), in = 0;
        if (how == "self")
            for (long i = k; i <= n; i += k)
                v[i - 1]->removeFromParentList();
        else if (how == "remove")
            for (long i = k; i <= n; i += k)
                l.remove(v[i - 1].get());
        else if (how == "erase")
            for (List::iterator i = l.begin(); i != l.end();)
                if (i->id % k == 0)
                    i = l.erase(i);
                else
                    ++i;
        else
            for (List::reverse_iterator i = l.rbegin(); i != l.rend();)
                if (i->id % k == 0)
                    i = l.erase(i);
                else
                    ++i;
        std::vector<std::vector<long>> f, b;
        long steps = 0;
        for (List::iterator i = l.begin(); i != l.end() && steps <= n; ++i, steps++)
            runs(f, i->id, 1);
        for (List::reverse_iterator i = l.rbegin(); i != l.rend() && steps <= 2 * n; ++i, steps++)
            runs(b, i->id, -1);
        for (auto& p : v)
            in += p->isInList();
        long len = (long)l.length();
        while (!l.empty() && steps <= 3 * n) {
            l.remove(*l.begin());
            steps++;
        }
        Ev e("bulk");
        e.i("n", n).i("k", k).seq2("fwd", f).seq2("back", b).i("full", full).i("len", len).i("in", in).i("left", (long)l.length());
    }
    void cmd(const std::string& op, Line& l) override {
        int a = (int)labs(l.num());
        if (op == "bulk") {
            long k = l.num();
            bulk(a, k, l.word());
            return;
        }
        if (op == "append") {
            int b = (int)l.num();
            if (!L[a] || anywhere(b))
                return;
            L[a]->append(N[b]);
            Ev e("append");
            e.i("a", a).i("b", b);
            obs(e);
        } else if (op == "remove") {
            int b = (int)l.num();
            if (!has(a, b))
                return;
            L[a]->remove(N[b]);
            Ev e("remove");
            e.i("a", a).i("b", b);
            obs(e);
        } else if (op == "rmself") {
            if (!anywhere(a))
                return;
            N[a]->removeFromParentList();
            Ev e("rmself");
            e.i("a", a);
            obs(e);
        } else if (op == "ef" || op == "er") {
            int b = (int)l.num();
            if (!has(a, b))
                return;
            long next;
            if (op == "ef") {
                List::iterator i = L[a]->begin();
                while ((*i)->id != b)
                    ++i;
                List::iterator n = L[a]->erase(i);
                next = n == L[a]->end() ? 0 : (*n)->id;
            } else {
                List::reverse_iterator i = L[a]->rbegin();
                while ((*i)->id != b)
                    i++;
                List::reverse_iterator n = L[a]->erase(i);
                next = n == L[a]->rend() ? 0 : (*n)->id;
            }
            Ev e(op.c_str());
            e.i("a", a).i("b", b).i("next", next);
            obs(e);
        } else if (op == "sweep") {
            int back = (int)l.num();
            std::set<long> s;
            while (l.more())
                s.insert(l.num());
            if (!L[a])
                return;
            std::vector<long> seen;
            if (!back) {
                List::iterator i = L[a]->begin();
                while (i != L[a]->end() && seen.size() < 50) {
                    seen.push_back(i->id);
                    if (s.count(i->id))
                        i = L[a]->erase(i);
                    else
                        i++;
                }
            } else {
                List::reverse_iterator i = L[a]->rbegin();
                while (i != L[a]->rend() && seen.size() < 50) {
                    seen.push_back(i->id);
                    if (s.count(i->id))
                        i = L[a]->erase(i);
                    else
                        ++i;
                }
            }
            Ev e("sweep");
            e.i("a", a).i("back1", back).seq("set", s).seq("seen", seen);
            obs(e);
        } else if (op == "kill") {
            if (!L[a])
                return;
            std::vector<long> m = fwd(L[a]);
            delete L[a];
            L[a] = nullptr;
            bool clears = true;
#ifdef NDEBUG
            clears = false;
#endif
            {
                Ev e("kill");
                e.i("a", a).b("clears", clears);
                obs(e);
            }
            if (!clears)
                for (long x : m) {
                    delete N[x];
                    N[x] = new Item((int)x);
                    Ev e("newnode");
                    e.i("a", x);
                    obs(e);
                }
        } else if (op == "newlist") {
            if (L[a])
                return;
            L[a] = new List();
            Ev e("newlist");
            e.i("a", a);
            obs(e);
        } else {
            bad_script(op);
        }
    }
};
int main(int argc, char** argv) {
    ListDriver d;
    return drive(argc, argv, &d);
}
