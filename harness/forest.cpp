// Forest properties G01..G05: random histories of structural operations on several forests, compared
// after every step with an explicit ordered-tree model.
#include "pbt.hpp"

#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>

#include <list>
#include <memory>
#include <optional>
#include <vector>

namespace {

// Value with live-instance accounting: every construction must be matched by exactly one destruction.
struct V {
    static long live;
    int v;
    unsigned magic = 0xfeedbeef;
    V(int x = -1) : v(x) { ++live; }
    V(const V& o) : v(o.v) {
        o.check();
        ++live;
    }
    V(V&& o) noexcept : v(o.v) {
        o.check();
        o.v = -7777;
        ++live;
    }
    V& operator=(const V& o) {
        check();
        o.check();
        v = o.v;
        return *this;
    }
    V& operator=(V&& o) noexcept {
        check();
        o.check();
        v = o.v;
        if (this != &o) o.v = -7777;
        return *this;
    }
    ~V() {
        check();
        magic = 0xdeadbeef;
        --live;
    }
    void check() const {
        if (magic != 0xfeedbeef) std::abort();
    }
    friend bool operator==(const V& a, const V& b) { return a.v == b.v; }
    friend bool operator!=(const V& a, const V& b) { return a.v != b.v; }
};
long V::live = 0;

using F = stlab::forest<V>;
using It = F::iterator;
using CIt = F::const_iterator;
using Ch = F::child_iterator;
using stlab::child_begin;
using stlab::child_end;
using stlab::forest_edge;
using stlab::leading_of;
using stlab::trailing_of;

struct N {
    int val = 0;
    N* par = nullptr;
    std::vector<N*> ch;
    It it;
    V* addr = nullptr;
};

struct Pos {
    N* n;
    bool leading;
    bool operator==(const Pos& o) const { return n == o.n && leading == o.leading; }
};

struct M { // model forest
    std::unique_ptr<F> f = std::make_unique<F>();
    N root;
};

struct World {
    pbt::Case& c;
    std::vector<std::unique_ptr<N>> pool;
    std::vector<std::unique_ptr<M>> fs;
    int next_val = 0;
    unsigned values;
    bool did_relink = false, did_erase_inner = false, did_copy = false;
    std::size_t maxnodes = 0;

    World(pbt::Case& c_, int nf) : c(c_) {
        values = c.src.flip() ? 3 : 1000000;
        for (int i = 0; i < nf; ++i) {
            fs.push_back(std::make_unique<M>());
            fs.back()->root.it = fs.back()->f->root();
        }
    }

    N* mk(int v) {
        pool.push_back(std::make_unique<N>());
        pool.back()->val = v;
        return pool.back().get();
    }
    int fresh() { return values == 3 ? int(c.src.draw(3)) : next_val++; }

    static void walk(N* n, std::vector<Pos>& out) {
        for (N* k : n->ch) {
            out.push_back({k, true});
            walk(k, out);
            out.push_back({k, false});
        }
    }
    static std::vector<Pos> seq(M& m) {
        std::vector<Pos> r;
        walk(&m.root, r);
        r.push_back({&m.root, false}); // end()
        return r;
    }
    static std::size_t count(N* n) {
        std::size_t r = 0;
        for (N* k : n->ch) r += 1 + count(k);
        return r;
    }
    static std::size_t index_of(N* n) {
        auto& v = n->par->ch;
        return static_cast<std::size_t>(std::find(v.begin(), v.end(), n) - v.begin());
    }
    It real(const Pos& p) {
        It i = p.n->it;
        i.edge() = p.leading ? forest_edge::leading : forest_edge::trailing;
        return i;
    }
    // where an insertion at p lands: (parent, index)
    std::pair<N*, std::size_t> slot(const Pos& p) {
        if (p.leading) return {p.n->par, index_of(p.n)};
        return {p.n, p.n->ch.size()};
    }
    Pos pos_of(N* parent, std::size_t idx) {
        if (idx < parent->ch.size()) return {parent->ch[idx], true};
        return {parent, false};
    }
    M& pick() { return *fs[c.src.draw(fs.size())]; }
    Pos pick_pos(M& m) {
        auto s = seq(m);
        return s[s.size() - 1 - c.src.draw(s.size())];
    }
    N* pick_node(M& m, bool with_root) {
        std::vector<Pos> s = seq(m);
        std::vector<N*> v;
        if (with_root) v.push_back(&m.root);
        for (auto& p : s)
            if (p.leading) v.push_back(p.n);
        if (v.empty()) return nullptr;
        return v[c.src.draw(v.size())];
    }
    // child range within some parent
    struct CR {
        N* par;
        std::size_t a, b;
    };
    CR pick_children(M& m) {
        N* p = pick_node(m, true);
        std::size_t n = p->ch.size();
        std::size_t a = c.src.draw(n + 1);
        std::size_t b = a + c.src.draw(n - a + 1);
        return {p, a, b};
    }
    Ch child_at(N* par, std::size_t i) {
        if (i < par->ch.size()) return Ch(real({par->ch[i], true}));
        return child_end(real({par, true}));
    }
    static bool inside(N* n, const CR& r) { // n is one of the range's nodes or below it
        for (N* x = n; x && x->par; x = x->par)
            if (x->par == r.par) {
                std::size_t i = index_of(x);
                return i >= r.a && i < r.b;
            }
        return false;
    }
    int fidx(M& m) {
        for (std::size_t i = 0; i < fs.size(); ++i)
            if (fs[i].get() == &m) return int(i);
        return -1;
    }
    std::string show(N* n) {
        std::string r;
        for (N* k : n->ch) {
            r += std::to_string(k->val);
            if (!k->ch.empty()) r += "(" + show(k) + ")";
            r += " ";
        }
        return r;
    }

    // ---- verification ------------------------------------------------------------------------
    void verify(M& m, bool deep) {
        F& f = *m.f;
        auto s = seq(m);
        It i = f.begin();
        std::size_t k = 0;
        for (; k + 1 < s.size(); ++k, ++i) {
            PBT_CHECK(c, i != f.end(), "forest " << fidx(m) << " traversal ended early at step " << k << " of " << s.size() - 1);
            PBT_CHECK(c, i == real(s[k]), "full-order step " << k << ": wrong node or edge");
            PBT_CHECK(c, i->v == s[k].n->val, "value at step " << k << ": " << i->v << " expected " << s[k].n->val);
            PBT_CHECK(c, &*i == s[k].n->addr, "node identity changed at step " << k);
            i->check();
        }
        PBT_CHECK(c, i == f.end(), "forest " << fidx(m) << " traversal longer than the model (" << s.size() - 1 << ")");
        for (k = s.size() - 1; k > 0;) {
            --k;
            --i;
            PBT_CHECK(c, i == real(s[k]), "backward full-order step " << k << ": wrong node or edge");
        }
        PBT_CHECK(c, i == f.begin(), "backward traversal does not end at begin");
        PBT_CHECK(c, f.empty() == m.root.ch.empty(), "empty()");
        if (!m.root.ch.empty()) {
            PBT_CHECK(c, &f.front() == m.root.ch.front()->addr, "front()");
            PBT_CHECK(c, &f.back() == m.root.ch.back()->addr, "back()");
            const F& cf = f;
            PBT_CHECK(c, &cf.front() == m.root.ch.front()->addr, "front() const");
            PBT_CHECK(c, &cf.back() == m.root.ch.back()->addr, "back() const");
        }
        if (f.size_valid()) PBT_CHECK(c, f.size() == count(&m.root), "size() (known) is " << f.size() << " expected " << count(&m.root));
        if (deep) PBT_CHECK(c, f.size() == count(&m.root), "size() is " << f.size() << " expected " << count(&m.root));
    }
    void verify_all(bool deep) {
        std::size_t t = 0;
        for (auto& m : fs) {
            verify(*m, deep);
            t += count(&m->root);
        }
        maxnodes = std::max(maxnodes, t);
        PBT_CHECK(c, V::live == long(t), "live values " << V::live << " but the forests hold " << t << " nodes");
    }

    void adopt(N* n, It i) {
        n->it = leading_of(i);
        n->addr = &*i;
    }

    // ---- operations --------------------------------------------------------------------------
    void op_insert(M& m) {
        Pos p = pick_pos(m);
        int v = fresh();
        It r = m.f->insert(real(p), V(v));
        auto [par, idx] = slot(p);
        N* n = mk(v);
        n->par = par;
        par->ch.insert(par->ch.begin() + idx, n);
        PBT_CHECK(c, r.edge() == forest_edge::leading, "insert returned a trailing edge");
        PBT_CHECK(c, r->v == v, "insert returned a wrong node");
        adopt(n, r);
        PBT_LOG(c, "f" << fidx(m) << ".insert " << v << " -> " << show(&m.root));
    }
    void op_push(M& m) {
        int v = fresh();
        unsigned k = c.src.draw(4);
        N* par = &m.root;
        if (k >= 2) par = pick_node(m, true);
        It pi = par->it;
        N* n = mk(v);
        n->par = par;
        bool back = k % 2 == 0;
        V val(v);
        if (k < 2) {
            if (back) m.f->push_back(val);
            else m.f->push_front(val);
        } else {
            stlab::child_adaptor<F> ca(*m.f, pi);
            if (back) ca.push_back(val);
            else ca.push_front(val);
            PBT_CHECK(c, (back ? ca.back() : ca.front()).v == v, "child_adaptor back/front after push");
        }
        if (back) par->ch.push_back(n);
        else par->ch.insert(par->ch.begin(), n);
        It r = back ? (--child_end(leading_of(pi))).base() : child_begin(leading_of(pi)).base();
        adopt(n, r);
        PBT_LOG(c, "f" << fidx(m) << ".push_" << (back ? "back " : "front ") << v << " -> " << show(&m.root));
    }
    void promote(N* n) {
        std::size_t i = index_of(n);
        auto& v = n->par->ch;
        v.erase(v.begin() + i);
        v.insert(v.begin() + i, n->ch.begin(), n->ch.end());
        for (N* k : n->ch) k->par = n->par;
        if (!n->ch.empty()) did_erase_inner = true;
        n->ch.clear();
        n->par = nullptr;
    }
    void op_pop(M& m) {
        unsigned k = c.src.draw(4);
        N* par = &m.root;
        if (k >= 2) par = pick_node(m, true);
        if (par->ch.empty()) return;
        bool back = k % 2 == 0;
        N* victim = back ? par->ch.back() : par->ch.front();
        It pi = par->it;
        if (k < 2) {
            if (back) m.f->pop_back();
            else m.f->pop_front();
        } else {
            stlab::child_adaptor<F> ca(*m.f, pi);
            if (back) ca.pop_back();
            else ca.pop_front();
        }
        promote(victim);
        PBT_LOG(c, "f" << fidx(m) << ".pop_" << (back ? "back" : "front") << " -> " << show(&m.root));
    }
    void op_erase(M& m) {
        N* n = pick_node(m, false);
        if (!n) return;
        bool lead = c.src.flip();
        auto s = seq(m);
        std::size_t i = 0;
        while (!(s[i] == Pos{n, lead})) ++i;
        ++i;
        if (s[i].n == n) ++i; // the other edge goes too
        Pos expect = s[i];
        It r = m.f->erase(real({n, lead}));
        promote(n);
        PBT_CHECK(c, r == real(expect), "erase returned the wrong position");
        PBT_LOG(c, "f" << fidx(m) << ".erase " << n->val << (lead ? " leading" : " trailing") << " -> " << show(&m.root));
    }
    void op_erase_range(M& m) {
        auto s = seq(m);
        std::size_t a = c.src.draw(s.size());
        std::size_t b = a + c.src.draw(s.size() - a);
        std::vector<N*> victims;
        for (std::size_t i = a; i < b; ++i)
            if (s[i].leading)
                for (std::size_t j = i + 1; j < b; ++j)
                    if (s[j].n == s[i].n) victims.push_back(s[i].n);
        It last = real(s[b]);
        It r = m.f->erase(real(s[a]), last);
        PBT_CHECK(c, r == last, "erase(first, last) must return last");
        for (N* n : victims) promote(n);
        PBT_LOG(c, "f" << fidx(m) << ".erase range [" << a << "," << b << ") -> " << show(&m.root));
    }
    void copy_sub(N* from, N* to_parent, std::size_t at) {
        N* n = mk(from->val);
        n->par = to_parent;
        to_parent->ch.insert(to_parent->ch.begin() + at, n);
        for (std::size_t i = 0; i < from->ch.size(); ++i) copy_sub(from->ch[i], n, i);
    }
    void rebind(M& m) { // attach model nodes of a freshly copied structure to the real nodes
        It i = m.f->begin();
        m.root.it = m.f->root();
        auto s = seq(m);
        for (std::size_t k = 0; k + 1 < s.size(); ++k, ++i) {
            PBT_CHECK(c, i != m.f->end(), "copied structure is smaller than its source");
            PBT_CHECK(c, stlab::is_leading(i) == s[k].leading, "copied structure has a different shape");
            if (s[k].leading) {
                if (s[k].n->addr) PBT_CHECK(c, s[k].n->addr == &*i, "existing node moved by a copy insertion");
                adopt(s[k].n, i);
            }
        }
        PBT_CHECK(c, i == m.f->end(), "copied structure is larger than its source");
    }
    void op_insert_copy(M& m) {
        M& src = pick();
        CR r = pick_children(src);
        Pos p = pick_pos(m);
        if (&src == &m && (inside(p.n, r))) return; // would insert into the range being copied
        if (count(&src.root) > 60 || count(&m.root) > 120) return;
        F::const_child_iterator a(CIt(child_at(r.par, r.a).base())), b(CIt(child_at(r.par, r.b).base()));
        std::vector<N*> kids(r.par->ch.begin() + r.a, r.par->ch.begin() + r.b);
        auto [par, idx] = slot(p);
        if (&src == &m && par == r.par && idx == r.b) return; // the range would grow while it is copied
        It ret = m.f->insert(real(p), a, b);
        PBT_CHECK(c, ret == real(p), "insert(range) must return the insertion position");
        for (std::size_t i = 0; i < kids.size(); ++i) copy_sub(kids[i], par, idx + i);
        rebind(m);
        did_copy = did_copy || !kids.empty();
        PBT_LOG(c, "f" << fidx(m) << ".insert copy of " << kids.size() << " children of f" << fidx(src) << " -> " << show(&m.root));
    }
    void move_children(const CR& r, N* par, std::size_t idx) {
        std::vector<N*> kids(r.par->ch.begin() + r.a, r.par->ch.begin() + r.b);
        r.par->ch.erase(r.par->ch.begin() + r.a, r.par->ch.begin() + r.b);
        if (par == r.par && idx > r.a) idx -= kids.size();
        par->ch.insert(par->ch.begin() + idx, kids.begin(), kids.end());
        for (N* k : kids) k->par = par;
    }
    void op_splice(M& m) {
        M& x = pick();
        unsigned kind = c.src.draw(4);
        CR r;
        if (kind == 0) {
            if (&x == &m) return;
            r = {&x.root, 0, x.root.ch.size()};
        } else if (kind == 1) {
            N* n = pick_node(x, false);
            if (!n) return;
            std::size_t i = index_of(n);
            r = {n->par, i, i + 1};
        } else
            r = pick_children(x);
        Pos p = pick_pos(m);
        if (&x == &m && inside(p.n, r)) {
            // only the leading edge of the first node is a legal destination (a no-op)
            if (!(r.a < r.b && p == Pos{r.par->ch[r.a], true})) return;
        }
        std::size_t n = 0;
        for (std::size_t i = r.a; i < r.b; ++i) n += 1 + count(r.par->ch[i]);
        It rp = real(p);
        It first = r.a < r.b ? real({r.par->ch[r.a], true}) : rp;
        It ret;
        switch (kind) {
            case 0: ret = m.f->splice(rp, *x.f); break;
            case 1: {
                It i = first;
                if (c.src.flip()) i.edge() = forest_edge::trailing;
                ret = m.f->splice(rp, *x.f, i);
                break;
            }
            case 2: ret = m.f->splice(rp, *x.f, child_at(r.par, r.a), child_at(r.par, r.b)); break;
            default: ret = m.f->splice(rp, *x.f, child_at(r.par, r.a), child_at(r.par, r.b), n); break;
        }
        bool noop = r.a == r.b || (p.leading && p.n == r.par->ch[r.a]);
        if (r.a == r.b) PBT_CHECK(c, ret == rp, "splice of nothing must return the position");
        else PBT_CHECK(c, ret == first, "splice must return the first spliced node");
        if (!noop) {
            auto [par, idx] = slot(p);
            move_children(r, par, idx);
            did_relink = true;
        }
        PBT_LOG(c, "f" << fidx(m) << ".splice kind " << kind << " of " << (r.b - r.a) << " children from f" << fidx(x) << " -> " << show(&m.root) << " | src " << show(&x.root));
    }
    void op_insert_parent(M& m) {
        CR r = pick_children(m);
        int v = fresh();
        Ch a = child_at(r.par, r.a), b = child_at(r.par, r.b);
        It ret;
        {
            V val(v);
            ret = m.f->insert_parent(a, b, val);
        }
        N* n = mk(v);
        n->par = r.par;
        r.par->ch.insert(r.par->ch.begin() + r.b, n);
        adopt(n, ret);
        move_children(r, n, 0);
        PBT_CHECK(c, ret->v == v, "insert_parent must return the new node");
        if (r.a != r.b) did_relink = true;
        PBT_LOG(c, "f" << fidx(m) << ".insert_parent of " << (r.b - r.a) << " -> " << show(&m.root));
    }
    void op_reverse(M& m) {
        CR r = pick_children(m);
        m.f->reverse(child_at(r.par, r.a), child_at(r.par, r.b));
        std::reverse(r.par->ch.begin() + r.a, r.par->ch.begin() + r.b);
        if (r.b - r.a > 1) did_relink = true;
        PBT_LOG(c, "f" << fidx(m) << ".reverse " << (r.b - r.a) << " children -> " << show(&m.root));
    }
    void clear_model(M& m) { m.root.ch.clear(); }
    static void move_model(M& to, M& from) {
        to.root.ch = std::move(from.root.ch);
        from.root.ch.clear();
        for (N* k : to.root.ch) k->par = &to.root;
    }
    void op_clear(M& m) {
        m.f->clear();
        clear_model(m);
        PBT_LOG(c, "f" << fidx(m) << ".clear");
    }
    void op_value(M& m) { // copy / move / assign / swap
        M& x = pick();
        unsigned k = c.src.draw(6);
        if (k <= 1 && count(&x.root) > 80) return;
        switch (k) {
            case 0: // copy construct, replace m
            case 1: { // copy assign
                if (&x == &m) return;
                if (k == 0) m.f = std::make_unique<F>(*x.f);
                else *m.f = *x.f;
                clear_model(m);
                for (std::size_t i = 0; i < x.root.ch.size(); ++i) copy_sub(x.root.ch[i], &m.root, i);
                rebind(m);
                PBT_CHECK(c, *m.f == *x.f && !(*m.f != *x.f), "a copy must equal its source");
                did_copy = true;
                break;
            }
            case 2: { // move construct
                if (&x == &m) return;
                auto n = std::make_unique<F>(std::move(*x.f));
                m.f = std::move(n);
                clear_model(m);
                move_model(m, x);
                m.root.it = m.f->root();
                break;
            }
            case 3: { // move assign
                if (&x == &m) return;
                *m.f = std::move(*x.f);
                clear_model(m);
                move_model(m, x);
                break;
            }
            default: {
                if (&x == &m) return;
                m.f->swap(*x.f);
                M tmp;
                move_model(tmp, m);
                move_model(m, x);
                move_model(x, tmp);
            }
        }
        PBT_LOG(c, "value op " << k << " f" << fidx(m) << " <- f" << fidx(x) << " : " << show(&m.root) << " | " << show(&x.root));
    }
    void op_size(M& m) {
        PBT_CHECK(c, m.f->size() == count(&m.root), "size() " << m.f->size() << " expected " << count(&m.root));
        PBT_CHECK(c, m.f->size_valid(), "size_valid() after size()");
        PBT_LOG(c, "f" << fidx(m) << ".size");
    }
    void op_mutate(M& m) {
        N* n = pick_node(m, false);
        if (!n) return;
        int v = fresh();
        *n->it = V(v);
        n->val = v;
    }
    static bool same(N* a, N* b) {
        if (a->ch.size() != b->ch.size()) return false;
        for (std::size_t i = 0; i < a->ch.size(); ++i)
            if (a->ch[i]->val != b->ch[i]->val || !same(a->ch[i], b->ch[i])) return false;
        return true;
    }
    static bool same_shape(N* a, N* b) {
        if (a->ch.size() != b->ch.size()) return false;
        for (std::size_t i = 0; i < a->ch.size(); ++i)
            if (!same_shape(a->ch[i], b->ch[i])) return false;
        return true;
    }
    void op_compare() {
        M& a = pick();
        M& b = pick();
        bool shape = c.src.flip();
        if (shape) {
            bool want = same_shape(&a.root, &b.root);
            bool got = stlab::forests::equal_shape(*a.f, *b.f);
            PBT_CHECK(c, got == want, "equal_shape is " << got << " for " << show(&a.root) << " / " << show(&b.root));
            c.tag(want ? "equal_shape true" : "equal_shape false");
        } else {
            bool want = same(&a.root, &b.root);
            PBT_CHECK(c, (*a.f == *b.f) == want, "operator== for " << show(&a.root) << " / " << show(&b.root));
            PBT_CHECK(c, (*a.f != *b.f) == !want, "operator!=");
            c.tag(want ? "== true" : "== false");
        }
        PBT_LOG(c, "compare f" << fidx(a) << " f" << fidx(b));
    }
    void grow(M& m, int n) { // initial random shape, built by the model's own insertion
        for (int i = 0; i < n; ++i) op_insert(m);
    }
};

struct Weights {
    unsigned insert, push, pop, erase, erase_range, copy, splice, parent, reverse, clear, value, size, mutate, compare;
};

void history(pbt::Case& c, const Weights& w, int nf, int initial, int maxops) {
    V::live = 0;
    World W(c, nf);
    for (int i = 0; i < nf; ++i) W.grow(*W.fs[i], c.src.range(0, initial));
    W.verify_all(false);
    int n = c.src.range(1, maxops);
    for (int i = 0; i < n; ++i) {
        M& m = W.pick();
        switch (c.src.weighted({w.insert, w.push, w.pop, w.erase, w.erase_range, w.copy, w.splice, w.parent, w.reverse, w.clear, w.value, w.size, w.mutate, w.compare})) {
            case 0: W.op_insert(m); break;
            case 1: W.op_push(m); break;
            case 2: W.op_pop(m); break;
            case 3: W.op_erase(m); break;
            case 4: W.op_erase_range(m); break;
            case 5: W.op_insert_copy(m); break;
            case 6: W.op_splice(m); break;
            case 7: W.op_insert_parent(m); break;
            case 8: W.op_reverse(m); break;
            case 9: W.op_clear(m); break;
            case 10: W.op_value(m); break;
            case 11: W.op_size(m); break;
            case 12: W.op_mutate(m); break;
            case 13: W.op_compare(); break;
        }
        W.verify_all(false);
    }
    W.verify_all(true);
    if (W.did_relink) c.tag("relink");
    if (W.did_erase_inner) c.tag("erase inner node");
    if (W.did_copy) c.tag("copy");
    if (W.maxnodes >= 10) c.tag(">=10 nodes");
    if (W.maxnodes >= 30) c.tag(">=30 nodes");
    c.nontrivial = (W.did_relink || W.did_erase_inner || W.did_copy) && W.maxnodes >= 4;
    W.fs.clear();
    PBT_CHECK(c, V::live == 0, "values leaked or destroyed twice: live " << V::live);
}

} // namespace

PBT_PROP(G01, "a history of structural edits that erases an inner node or relinks, on at least 4 nodes") {
    history(c, {20, 8, 5, 12, 8, 6, 3, 3, 2, 1, 2, 6, 2, 2}, 2, 12, 40);
}

PBT_PROP(G02, "a history in which a splice, insert_parent or reverse moved at least one node, on at least 4 nodes") {
    history(c, {8, 2, 2, 4, 2, 2, 24, 12, 14, 1, 2, 8, 2, 2}, 3, 14, 40);
}

PBT_PROP(G04, "a history with copies, moves or swaps between forests with at least 4 nodes") {
    history(c, {8, 2, 2, 4, 3, 5, 8, 3, 3, 2, 24, 8, 8, 16}, 3, 10, 40);
}

// A random walk over a bidirectional range whose positions are `want`: every way to step, then where it stands.
template <class I>
void check_walk(pbt::Case& c, I first, I last, const std::vector<N*>& want, int steps, const char* what) {
    std::size_t k = 0, n = want.size();
    I i; // assigned, not constructed
    i = first;
    if (c.src.flip()) {
        i = last;
        k = n;
    }
    auto at = [&](std::size_t k) { return std::next(first, std::ptrdiff_t(k)); };
    for (int t = 0; t < steps; ++t) {
        unsigned op = c.src.draw(4);
        std::size_t was = k;
        I prev = i, got = i;
        if (op == 0 && k < n) ++k, got = ++i, prev = i;
        else if (op == 1 && k < n) ++k, got = i++;
        else if (op == 2 && k > 0) --k, got = --i, prev = i;
        else if (op == 3 && k > 0) --k, got = i--;
        PBT_CHECK(c, got == prev && !(got != prev), what << ": step " << op << " from " << was << " returned another position");
        PBT_CHECK(c, i == at(k), what << ": step " << op << " from " << was << " did not lead to " << k);
        if (was != k) PBT_CHECK(c, i != at(was) && !(i == at(was)), what << ": step " << op << " from " << was << " did not move");
        PBT_CHECK(c, (i == last) == (k == n) && (i == first) == (k == 0), what << ": at " << k << " of " << n << " taken for an end");
        if (k < n) {
            PBT_CHECK(c, &*i == want[k]->addr, what << ": step " << op << " from " << was << " stands on the wrong node");
            PBT_CHECK(c, i.operator->() == want[k]->addr, what << ": operator-> at " << k);
        }
    }
}

// The same over a full-order range, whose positions have an edge that can be assigned; `want` ends with the end position.
template <class I>
void check_stroll(pbt::Case& c, I first, I last, const std::vector<Pos>& want, int steps, const char* what) {
    std::size_t k = 0, n = want.size() - 1;
    auto find = [&](Pos p) {
        std::size_t r = 0;
        while (!(want[r] == p)) ++r;
        return r;
    };
    auto parent = [&](std::size_t k) { // trailing edge of the nearest enclosing position
        std::size_t r = find({want[k].n, false});
        for (int open = 1; open > 0;) open += want[++r].leading ? 1 : -1;
        return r;
    };
    auto children = [&](std::size_t k) { // outermost nodes between the two edges
        std::vector<N*> v;
        int open = 0;
        for (std::size_t r = find({want[k].n, true}) + 1; !(want[r] == Pos{want[k].n, false}); ++r)
            if (want[r].leading) {
                if (open++ == 0) v.push_back(want[r].n);
            } else --open;
        return v;
    };
    I i;
    i = first;
    if (c.src.flip()) {
        i = last;
        k = n;
    }
    auto at = [&](std::size_t k) { return std::next(first, std::ptrdiff_t(k)); };
    for (int t = 0; t < steps; ++t) {
        unsigned op = c.src.draw(9);
        std::size_t was = k;
        I prev = i, got = i;
        if (op == 0 && k < n) ++k, got = ++i, prev = i;
        else if (op == 1 && k < n) ++k, got = i++;
        else if (op == 2 && k > 0) --k, got = --i, prev = i;
        else if (op == 3 && k > 0) --k, got = i--;
        else if (op == 4 && k < n) k = find({want[k].n, !want[k].leading}), stlab::pivot(i), got = prev = i;
        else if (op == 5 && k < n) k = find({want[k].n, !want[k].leading}), i = stlab::pivot_of(i), got = prev = i;
        else if (op == 6 && k < n) k = find({want[k].n, true}), i = leading_of(i), got = prev = i;
        else if (op == 7 && k < n) k = find({want[k].n, false}), i = trailing_of(i), got = prev = i;
        else if (op == 8 && k < n) k = parent(k), i = stlab::find_parent(i), got = prev = i;
        const I& ci = i;
        PBT_CHECK(c, got == prev && !(got != prev), what << ": step " << op << " from " << was << " returned another position");
        PBT_CHECK(c, i == at(k), what << ": step " << op << " from " << was << " did not lead to " << k);
        if (was != k) PBT_CHECK(c, i != at(was) && !(i == at(was)), what << ": step " << op << " from " << was << " did not move");
        PBT_CHECK(c, (i == last) == (k == n) && (i == first) == (k == 0), what << ": at " << k << " of " << n << " taken for an end");
        PBT_CHECK(c, ci.edge() == (want[k].leading ? forest_edge::leading : forest_edge::trailing), what << ": step " << op << " from " << was << " stands on the wrong edge");
        PBT_CHECK(c, stlab::is_leading(ci) == want[k].leading && stlab::is_trailing(ci) == !want[k].leading, what << ": is_leading, is_trailing");
        if (k < n) {
            PBT_CHECK(c, &*i == want[k].n->addr, what << ": step " << op << " from " << was << " stands on the wrong node");
            PBT_CHECK(c, i.operator->() == want[k].n->addr, what << ": operator-> at " << k);
            std::size_t o = c.src.draw(n);
            PBT_CHECK(c, ci.equal_node(at(o)) == (want[o].n == want[k].n), what << ": equal_node of " << k << " and " << o);
            std::vector<N*> ch = children(k);
            PBT_CHECK(c, stlab::has_children(ci) == !ch.empty(), what << ": has_children at " << k);
            if (c.src.draw(4) == 0) check_walk(c, child_begin(ci), child_end(ci), ch, 6, what);
        }
    }
}

// The conversions from an iterator of a forest to one of the const forest keep the position.
template <class C, class I, class J>
void check_const(pbt::Case& c, I first, J cfirst, std::size_t n, const char* what) {
    I i = first;
    std::size_t k = c.src.draw(n + 1);
    for (std::size_t t = 0; t < k; ++t) ++i;
    C x(i);
    PBT_CHECK(c, x == std::next(cfirst, std::ptrdiff_t(k)), what << ": the conversion to const at " << k << " changed the position");
    std::size_t t = k;
    for (; t < n && c.src.draw(4); ++t) ++x;
    for (; t > 0 && c.src.draw(4); --t) --x;
    PBT_CHECK(c, x == std::next(cfirst, std::ptrdiff_t(t)), what << ": a converted iterator walks elsewhere");
}

// Traversals and iterator adaptors against the recursive definition.
PBT_PROP(G03, "a tree of at least 4 nodes with depth at least 2") {
    V::live = 0;
    World W(c, 1);
    M& m = *W.fs[0];
    W.grow(m, c.src.range(0, 24));
    int extra = c.src.range(0, 6);
    for (int i = 0; i < extra; ++i) {
        switch (c.src.draw(4)) {
            case 0: W.op_erase(m); break;
            case 1: W.op_insert_parent(m); break;
            case 2: W.op_splice(m); break;
            default: W.op_insert(m);
        }
    }
    W.verify_all(false);
    F& f = *m.f;
    const F& cf = f;
    {
        decltype(stlab::depth_range(f).begin()) none;
        PBT_CHECK(c, none.depth() == 0, "a default constructed depth iterator has depth " << none.depth());
    }
    auto s = World::seq(m);
    PBT_LOG(c, "tree " << W.show(&m.root));
    std::vector<N*> pre, post;
    for (auto& p : s) {
        if (p.n == &m.root) continue;
        (p.leading ? pre : post).push_back(p.n);
    }
    auto expect_nodes = [&](auto range, const std::vector<N*>& want, const char* what) {
        std::size_t k = 0;
        auto i = range.begin();
        for (; i != range.end(); ++i, ++k) {
            PBT_CHECK(c, k < want.size(), what << " too long");
            PBT_CHECK(c, &*i == want[k]->addr, what << " wrong at " << k);
        }
        PBT_CHECK(c, k == want.size(), what << " has " << k << " elements, expected " << want.size());
        i = range.end(); // it compares equal to what the end was reached with; does it also step back alike?
        for (; k > 0;) {
            --k;
            if (c.src.draw(2)) --i;
            else i--;
            PBT_CHECK(c, &*i == want[k]->addr, what << " backward wrong at " << k);
        }
        PBT_CHECK(c, i == range.begin(), what << " backward does not reach begin");
        // post-increment returns the old position
        if (!want.empty()) {
            auto j = range.begin();
            auto o = j++;
            PBT_CHECK(c, o == range.begin() && j == std::next(range.begin()), what << " post-increment");
        }
    };
    expect_nodes(stlab::preorder_range(f), pre, "preorder");
    expect_nodes(stlab::preorder_range(cf), pre, "const preorder");
    expect_nodes(stlab::postorder_range(f), post, "postorder");
    expect_nodes(stlab::postorder_range(cf), post, "const postorder");
    // children of every node, forwards, backwards and through std::reverse_iterator
    std::vector<N*> all = pre;
    all.push_back(&m.root);
    for (N* n : all) {
        It ni = n->it;
        if (c.src.flip()) ni.edge() = forest_edge::trailing; // both edges denote the same node
        expect_nodes(stlab::child_range(ni), n->ch, "children");
        std::vector<N*> rev(n->ch.rbegin(), n->ch.rend());
        std::size_t k = 0;
        for (F::reverse_child_iterator i(child_end(ni)), l(child_begin(ni)); i != l; ++i, ++k)
            PBT_CHECK(c, k < rev.size() && &*i == rev[k]->addr, "reverse children wrong at " << k);
        PBT_CHECK(c, k == rev.size(), "reverse children length");
        if (n != &m.root) {
            PBT_CHECK(c, stlab::has_children(ni) == !n->ch.empty(), "has_children");
            It p = stlab::find_parent(ni);
            PBT_CHECK(c, p.equal_node(n->par->it), "find_parent");
            PBT_CHECK(c, p.edge() == forest_edge::trailing, "find_parent edge");
            PBT_CHECK(c, stlab::pivot_of(stlab::pivot_of(ni)) == ni && stlab::pivot_of(ni) != ni, "pivot");
        }
        std::size_t d = static_cast<std::size_t>(std::distance(child_begin(ni), child_end(ni)));
        PBT_CHECK(c, d == n->ch.size(), "number of children");
    }
    // reverse full-order: mirror image, with edges exchanged
    auto rev_check = [&](auto range, const char* what) {
        std::size_t k = s.size() - 1;
        auto i = range.begin();
        for (; i != range.end(); ++i) {
            PBT_CHECK(c, k > 0, what << " too long");
            --k;
            PBT_CHECK(c, &*i == s[k].n->addr, what << " wrong node at " << k);
            PBT_CHECK(c, stlab::is_leading(i.edge()) == !s[k].leading, what << " wrong edge at " << k);
            PBT_CHECK(c, i.base() == (k + 1 < s.size() ? W.real(s[k + 1]) : f.end()), what << " base");
        }
        PBT_CHECK(c, k == 0, what << " too short");
        i = range.end();
        for (k = 0; k + 1 < s.size(); ++k) {
            --i;
            PBT_CHECK(c, &*i == s[k].n->addr, what << " backward wrong at " << k);
        }
        PBT_CHECK(c, i == range.begin(), what << " backward does not reach begin");
    };
    rev_check(stlab::reverse_fullorder_range(f), "reverse full-order");
    rev_check(stlab::reverse_fullorder_range(cf), "const reverse full-order");
    {
        auto i = f.rbegin();
        std::size_t k = s.size() - 1;
        for (; i != f.rend(); ++i) {
            --k;
            PBT_CHECK(c, &*i == s[k].n->addr, "rbegin/rend wrong at " << k);
        }
        PBT_CHECK(c, k == 0, "rbegin/rend length");
    }
    // pre-order obtained from the reversed traversal = reversed post-order
    {
        auto rr = stlab::reverse_fullorder_range(f);
        std::size_t k = post.size();
        using RI = decltype(rr.begin());
        for (stlab::edge_iterator<RI, forest_edge::leading> i(rr.begin()), l(rr.end()); i != l; ++i) {
            PBT_CHECK(c, k > 0, "leading edges of the reverse range");
            --k;
            PBT_CHECK(c, &*i == post[k]->addr, "leading edges of the reverse range at " << k);
        }
        PBT_CHECK(c, k == 0, "leading edges of the reverse range: length");
    }
    // depth
    std::size_t maxdepth = 0;
    {
        auto depth_of = [&](N* n) {
            std::ptrdiff_t d = 0;
            for (N* x = n; x->par; x = x->par) ++d;
            return d;
        };
        auto r = stlab::depth_range(f);
        auto i = r.begin();
        std::size_t k = 0;
        for (; i != r.end(); ++i, ++k) {
            std::ptrdiff_t d = depth_of(s[k].n) - 1;
            maxdepth = std::max(maxdepth, std::size_t(d + 1));
            PBT_CHECK(c, i.depth() == d, "depth at step " << k << " is " << i.depth() << " expected " << d);
            PBT_CHECK(c, &*i == s[k].n->addr && stlab::is_leading(i.edge()) == s[k].leading, "depth range position " << k);
        }
        while (k > 0) {
            --k;
            --i;
            std::ptrdiff_t d = depth_of(s[k].n) - 1;
            PBT_CHECK(c, i.depth() == d, "depth backward at step " << k << " is " << i.depth() << " expected " << d);
        }
    }
    unsigned which = c.src.draw(4); // which iterators to take for a random walk
    c.tag(which == 0 ? "stroll full order, const, preorder, postorder, children" : which == 1 ? "stroll reverse" : which == 2 ? "stroll filter" : "stroll depth");
    if (which == 0) {
        check_stroll(c, f.begin(), f.end(), s, 20, "stroll");
        check_stroll(c, cf.begin(), cf.end(), s, 20, "stroll, const");
        check_const<CIt>(c, f.begin(), cf.begin(), s.size() - 1, "full order");
        CIt ci;
        ci = f.begin();
        PBT_CHECK(c, ci == cf.begin() && CIt(f.end()) == cf.end(), "assigned const iterator");
        auto r = stlab::preorder_range(f);
        auto cr = stlab::preorder_range(cf);
        check_walk(c, r.begin(), r.end(), pre, 12, "walk, preorder");
        check_walk(c, cr.begin(), cr.end(), pre, 12, "walk, const preorder");
        check_const<decltype(cr.begin())>(c, r.begin(), cr.begin(), pre.size(), "preorder");
        auto q = stlab::postorder_range(f);
        auto cq = stlab::postorder_range(cf);
        check_walk(c, q.begin(), q.end(), post, 12, "walk, postorder");
        check_walk(c, cq.begin(), cq.end(), post, 12, "walk, const postorder");
        check_const<decltype(cq.begin())>(c, q.begin(), cq.begin(), post.size(), "postorder");
        N* n = all[c.src.draw(all.size())];
        CIt cn = n->it;
        check_walk(c, child_begin(n->it), child_end(n->it), n->ch, 12, "walk, children");
        check_walk(c, child_begin(cn), child_end(cn), n->ch, 12, "walk, const children");
        check_const<F::const_child_iterator>(c, child_begin(n->it), child_begin(cn), n->ch.size(), "children");
    } else if (which == 1) {
        std::vector<Pos> rs;
        for (std::size_t k = s.size() - 1; k-- > 0;) rs.push_back({s[k].n, !s[k].leading});
        rs.push_back({&m.root, false});
        check_stroll(c, f.rbegin(), f.rend(), rs, 20, "stroll, reverse");
        check_stroll(c, cf.rbegin(), cf.rend(), rs, 20, "stroll, const reverse");
        check_const<F::const_reverse_iterator>(c, f.rbegin(), cf.rbegin(), rs.size() - 1, "reverse");
        auto i = f.rbegin(); // base() after the edge was assigned
        if (std::size_t k = c.src.draw(rs.size()); k + 1 < rs.size()) {
            std::advance(i, std::ptrdiff_t(k));
            auto j = f.rbegin();
            std::size_t o = 0;
            while (!(rs[o] == Pos{rs[k].n, !rs[k].leading})) ++o, ++j;
            PBT_CHECK(c, stlab::pivot_of(i).base() == j.base(), "base() of the other edge of a reverse iterator");
        }
    } else if (which == 3) {
        auto r = stlab::depth_range(f);
        auto cr = stlab::depth_range(cf);
        check_stroll(c, r.begin(), r.end(), s, 20, "stroll, depth");
        check_stroll(c, cr.begin(), cr.end(), s, 10, "stroll, const depth");
        check_const<decltype(cr.begin())>(c, r.begin(), cr.begin(), s.size() - 1, "depth");
        std::size_t k = c.src.draw(s.size());
        auto i = std::next(r.begin(), std::ptrdiff_t(k));
        decltype(cr.begin()) ci(i);
        PBT_CHECK(c, ci.depth() == i.depth(), "the conversion to const changed the depth");
        // the depth follows the node, also through find_parent and the children
        if (k + 1 < s.size()) {
            auto d = i.depth();
            PBT_CHECK(c, stlab::pivot_of(i).depth() == d && stlab::find_parent(i).depth() == d - 1, "depth of the other edge or of the parent");
            for (auto b = child_begin(i), e = child_end(i); b != e; ++b)
                PBT_CHECK(c, b.base().depth() == d + 1, "depth of a child");
        }
    }
    // filter: nodes not satisfying the predicate are skipped with everything below them
    {
        unsigned mod = 2 + c.src.draw(3), rem = c.src.draw(mod);
        struct Pred { // assignable, unlike a lambda
            unsigned mod, rem;
            bool operator()(const V& v) const { return unsigned(v.v) % mod != rem; }
        };
        Pred pred{mod, rem};
        std::vector<Pos> want;
        std::function<void(N*)> w = [&](N* n) {
            for (N* k : n->ch)
                if (pred(V(k->val))) {
                    want.push_back({k, true});
                    w(k);
                    want.push_back({k, false});
                }
        };
        w(&m.root);
        bool from_end = c.src.flip();
        auto check = [&](auto r, const char* what) {
            std::size_t k = 0;
            auto i = r.begin();
            for (; i != r.end(); ++i, ++k) {
                PBT_CHECK(c, k < want.size(), what << " too long");
                PBT_CHECK(c, &*i == want[k].n->addr && stlab::is_leading(i.edge()) == want[k].leading, what << " wrong at " << k);
            }
            PBT_CHECK(c, k == want.size(), what << " length " << k << " expected " << want.size());
            if (from_end) i = r.end();
            while (k > 0) {
                --k;
                --i;
                PBT_CHECK(c, &*i == want[k].n->addr && stlab::is_leading(i.edge()) == want[k].leading, what << " backward wrong at " << k);
            }
            PBT_CHECK(c, i == r.begin(), what << " backward does not reach begin");
        };
        check(stlab::filter_fullorder_range(f, pred), "filter");
        check(stlab::filter_fullorder_range(cf, pred), "const filter");
        if (want.size() != s.size() - 1 && !want.empty()) c.tag("filter drops some nodes");
        if (which == 2) {
            want.push_back(s.back());
            auto r = stlab::filter_fullorder_range(f, pred);
            auto cr = stlab::filter_fullorder_range(cf, pred);
            check_stroll(c, r.begin(), r.end(), want, 20, "stroll, filter");
            check_stroll(c, cr.begin(), cr.end(), want, 10, "stroll, const filter");
            check_const<decltype(cr.begin())>(c, r.begin(), cr.begin(), want.size() - 1, "filter");
            auto ci = cr.begin();
            ci = r.begin();
            PBT_CHECK(c, ci.predicate().mod == mod && ci.predicate().rem == rem, "predicate() of a converted filter iterator");
        }
    }
    if (maxdepth >= 3) c.tag("depth>=3");
    c.nontrivial = pre.size() >= 4 && maxdepth >= 2;
}

// Shape algorithms: flatten / unflatten, transcribe, equal_shape.
PBT_PROP(G05, "a forest of at least 3 nodes that is not a plain list") {
    V::live = 0;
    World W(c, 2);
    M& a = *W.fs[0];
    M& b = *W.fs[1];
    W.grow(a, c.src.range(0, 20));
    int extra = c.src.range(0, 6);
    for (int i = 0; i < extra; ++i) {
        switch (c.src.draw(4)) {
            case 0: W.op_splice(a); break;
            case 1: W.op_erase(a); break;
            case 2: W.op_insert_parent(a); break;
            default: W.op_size(a);
        }
    }
    W.verify_all(false);
    auto s = World::seq(a);
    PBT_LOG(c, "tree " << W.show(&a.root));
    // flatten writes one value per leading edge, nullopt per trailing edge, in full order
    std::vector<std::optional<V>> flat;
    stlab::forests::flatten(a.f->begin(), a.f->end(), std::back_inserter(flat));
    PBT_CHECK(c, flat.size() == s.size() - 1, "flatten wrote " << flat.size() << " items for " << s.size() - 1 << " edges");
    for (std::size_t i = 0; i < flat.size(); ++i) {
        PBT_CHECK(c, flat[i].has_value() == s[i].leading, "flatten edge " << i);
        if (flat[i]) PBT_CHECK(c, flat[i]->v == s[i].n->val, "flatten value " << i);
    }
    // flatten of any node's children
    if (N* n = W.pick_node(a, true)) {
        std::vector<std::optional<V>> sub;
        It l = child_begin(n->it).base(), e = child_end(n->it).base();
        stlab::forests::flatten(l, e, std::back_inserter(sub));
        std::vector<Pos> want;
        World::walk(n, want);
        PBT_CHECK(c, sub.size() == want.size(), "flatten of a subtree: size");
        for (std::size_t i = 0; i < sub.size(); ++i)
            PBT_CHECK(c, sub[i].has_value() == want[i].leading && (!sub[i] || sub[i]->v == want[i].n->val), "flatten of a subtree at " << i);
    }
    // unflatten is its inverse
    {
        F g;
        stlab::forests::unflatten(flat.begin(), flat.end(), g);
        PBT_CHECK(c, g == *a.f, "unflatten(flatten(f)) != f");
        PBT_CHECK(c, stlab::forests::equal_shape(g, *a.f) && stlab::forests::equal_shape(*a.f, g), "unflatten(flatten(f)) has another shape");
        std::vector<std::optional<V>> again;
        stlab::forests::flatten(g.begin(), g.end(), std::back_inserter(again));
        PBT_CHECK(c, again == flat, "flatten(unflatten(x)) != x");
    }
    // transcribe with a projection keeps the shape and maps each value
    {
        stlab::forest<long> g;
        bool iters = c.src.flip();
        auto proj = [](const V& v) { return long(v.v) * 3 + 1; };
        if (iters) stlab::forests::transcribe(a.f->begin(), a.f->end(), stlab::forests::transcriber(g), proj);
        else stlab::forests::transcribe(*a.f, stlab::forests::transcriber(g), proj);
        auto i = g.begin();
        std::size_t k = 0;
        for (; i != g.end(); ++i, ++k) {
            PBT_CHECK(c, k + 1 < s.size(), "transcribe produced too many nodes");
            PBT_CHECK(c, stlab::is_leading(i) == s[k].leading && *i == long(s[k].n->val) * 3 + 1, "transcribe at " << k);
        }
        PBT_CHECK(c, k == s.size() - 1, "transcribe produced " << k << " edges");
        PBT_CHECK(c, stlab::forests::equal_shape(g, *a.f), "transcribe changed the shape");
        PBT_CHECK(c, g.size() == a.f->size(), "transcribe changed the size");
    }
    // The algorithms take any full-order range, write at any position of a forest that may hold something already, and
    // hand on where they stopped.
    {
        struct Tree {
            long v;
            std::vector<Tree> ch;
        };
        stlab::forest<long> g;
        std::vector<Tree> want; // top level of g; targets are top-level or in the children of one node
        int old = c.src.range(0, 3);
        for (int i = 0; i < old; ++i) {
            g.insert(g.end(), -1 - i);
            want.push_back({-1 - i, {}});
        }
        auto at = g.begin();
        std::vector<Tree>* into = &want;
        std::size_t pos = 0;
        for (std::size_t k = c.src.draw(std::size_t(old) + 1); pos < k; ++pos) at = stlab::find_edge(std::next(stlab::trailing_of(at)), pos + 1 < want.size() ? forest_edge::leading : forest_edge::trailing);
        if (pos < want.size() && c.src.flip()) { // below the node instead of before it
            into = &want[pos].ch;
            at = stlab::trailing_of(at);
            pos = 0;
        }
        unsigned mod = 2 + c.src.draw(3), rem = c.src.draw(mod);
        auto pred = [=](const V& v) { return unsigned(v.v) % mod != rem; };
        auto proj = [](const V& v) { return long(v.v) + 5; };
        stlab::forests::transcribe_iterator<stlab::forest<long>> out(g, at);
        if (pos == 0 && into == &want && c.src.flip()) out = stlab::forests::transcriber(g);
        int rounds = c.src.range(1, 3);
        std::string log;
        for (int t = 0; t < rounds; ++t) {
            unsigned kind = c.src.draw(5);
            std::function<std::vector<Tree>(N*)> model = [&](N* n) {
                std::vector<Tree> r;
                for (N* x : n->ch)
                    if (kind != 1 || pred(V(x->val))) r.push_back({long(x->val) + 5, model(x)});
                if (kind == 2) std::reverse(r.begin(), r.end());
                return r;
            };
            N* sub = kind == 4 ? W.pick_node(a, false) : nullptr;
            if (kind == 1) {
                auto r = stlab::filter_fullorder_range(*a.f, pred);
                out = stlab::forests::transcribe(r.begin(), r.end(), out, proj);
                std::vector<std::optional<V>> fl;
                stlab::forests::flatten(r.begin(), r.end(), std::back_inserter(fl));
                std::size_t k = 0;
                for (auto i = r.begin(); i != r.end(); ++i, ++k)
                    PBT_CHECK(c, k < fl.size() && fl[k].has_value() == stlab::is_leading(i) && (!fl[k] || fl[k]->v == i->v), "flatten of a filtered range at " << k);
                PBT_CHECK(c, k == fl.size(), "flatten of a filtered range: size");
            } else if (kind == 2) {
                auto r = stlab::reverse_fullorder_range(std::as_const(*a.f));
                out = stlab::forests::transcribe(r.begin(), r.end(), out, proj);
            } else if (kind == 3) {
                auto r = stlab::depth_range(*a.f);
                out = stlab::forests::transcribe(r, out, proj);
            } else if (sub) // one node with all below it
                out = stlab::forests::transcribe(leading_of(sub->it), std::next(trailing_of(sub->it)), out, proj);
            else
                out = stlab::forests::transcribe(*a.f, out, proj, [](const auto& i) { return stlab::is_leading(i); });
            std::vector<Tree> add;
            if (sub) add.push_back({long(sub->val) + 5, model(sub)});
            else add = model(&a.root);
            into->insert(into->begin() + std::ptrdiff_t(pos), add.begin(), add.end());
            pos += add.size();
            if (!add.empty()) c.tag(kind == 1 ? "transcribe filtered" : kind == 2 ? "transcribe reversed" : sub ? "transcribe a subtree" : "transcribe into a forest");
        }
        auto i = g.begin();
        std::size_t total = 0;
        std::function<void(const std::vector<Tree>&)> cmp = [&](const std::vector<Tree>& v) {
            for (auto& x : v) {
                PBT_CHECK(c, i != g.end() && stlab::is_leading(i) && *i == x.v, "transcribe at a position: wrong node, expected " << x.v);
                ++i;
                ++total;
                cmp(x.ch);
                PBT_CHECK(c, i != g.end() && !stlab::is_leading(i) && *i == x.v, "transcribe at a position: wrong closing edge, expected " << x.v);
                ++i;
            }
        };
        cmp(want);
        PBT_CHECK(c, i == g.end() && g.size() == total, "transcribe at a position: too many nodes");
    }
    // equal_shape against a perturbed copy, with every combination of known / unknown sizes
    {
        *b.f = *a.f;
        W.clear_model(b);
        for (std::size_t i = 0; i < a.root.ch.size(); ++i) W.copy_sub(a.root.ch[i], &b.root, i);
        W.rebind(b);
        int edits = c.src.range(0, 3);
        for (int i = 0; i < edits; ++i) {
            switch (c.src.draw(5)) {
                case 0: W.op_insert(b); break;
                case 1: W.op_erase(b); break;
                case 2: W.op_splice(b); break;
                case 3: W.op_pop(b); break;
                default: W.op_mutate(b);
            }
        }
        auto maybe_forget = [&](F& f) {
            // moving a sub range between forests leaves the size to be recounted
            if (c.src.flip() && !f.empty()) {
                F t;
                t.splice(t.end(), f, Ch(f.begin()), Ch(f.end()));
                f.splice(f.end(), t, Ch(t.begin()), Ch(t.end()));
            }
        };
        maybe_forget(*a.f);
        maybe_forget(*b.f);
        bool want = World::same_shape(&a.root, &b.root);
        PBT_LOG(c, "equal_shape " << W.show(&a.root) << " / " << W.show(&b.root) << " sizes known " << a.f->size_valid() << b.f->size_valid());
        c.tag(want ? "equal_shape true" : "equal_shape false");
        PBT_CHECK(c, stlab::forests::equal_shape(*a.f, *b.f) == want, "equal_shape(a, b) should be " << want);
        PBT_CHECK(c, stlab::forests::equal_shape(*b.f, *a.f) == want, "equal_shape(b, a) should be " << want);
        bool eq = World::same(&a.root, &b.root);
        PBT_CHECK(c, (*a.f == *b.f) == eq, "operator== should be " << eq);
    }
    flat.clear();
    W.verify_all(true);
    bool deep = false;
    for (auto& p : s)
        if (p.n != &a.root && !p.n->ch.empty()) deep = true;
    c.nontrivial = s.size() > 3 && deep;
}

#define PBT_MAIN_DEF
