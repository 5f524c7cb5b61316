#pragma once
#include "machine.hpp"

namespace ch {

template <class V>
stlab::receiver<V> merge_zip(Node& n, stlab::executor_t e, const std::vector<stlab::receiver<V>*>& p);
template <class V>
stlab::receiver<V> merge_one(Node& n, stlab::executor_t e, const std::vector<stlab::receiver<V>*>& p);

template <class V>
struct Ops final : OpsBase {
    using OpsBase::OpsBase;
    static constexpr bool kCopy = std::is_copy_constructible_v<V>;
    struct RS {
        std::optional<stlab::receiver<V>> r;
        std::optional<stlab::receiver<void>> rv;
    };
    std::deque<RS> rs;
    std::deque<std::optional<stlab::sender<V>>> ss;
    std::deque<FnP<V>> ref_fn;
    std::deque<AyP<V>> ref_ay;
    std::deque<SinkP<V>> ref_sink;

    bool copyable() const override { return kCopy; }

    int add_r(stlab::receiver<V>&& r, int node) {
        rs.emplace_back();
        rs.back().r.emplace(std::move(r));
        ri.push_back({true, node, false, false});
        return int(ri.size()) - 1;
    }
    int add_r(stlab::receiver<void>&& r, int node) {
        rs.emplace_back();
        rs.back().rv.emplace(std::move(r));
        ri.push_back({true, node, false, true});
        return int(ri.size()) - 1;
    }
    Node& add_node(Node proto) {
        proto.id = int(w.nodes.size());
        w.nodes.push_back(proto);
        return w.nodes.back();
    }

    int source(int ex) override {
        Node p;
        p.kind = K_SRC;
        p.ex = ex;
        int id = add_node(p).id;
        auto [s, r] = stlab::channel<V>(w.executor(ex));
        ss.emplace_back(std::move(s));
        si.push_back({true, id});
        add_r(std::move(r), id);
        return id;
    }
    int generator(Node proto, int form, int ex2) override {
        Node& n = add_node(proto);
        auto r0 = stlab::channel<void>(w.executor(n.ex));
        (void)form;
        (void)ex2;
        return add_r(r0 | GenP<V>(n.id), n.id);
    }
    void link(Node& n) {
        for (std::size_t i = 0; i < n.ups.size(); ++i)
            w.nodes[std::size_t(n.ups[i])].kids.push_back({n.id, int(i)});
        n.pos.assign(n.ups.size(), 0);
    }
    int attach(int rh, Node proto, int form, int ex2, int abuf) override {
        proto.ups = {ri[std::size_t(rh)].node};
        Node& n = add_node(proto);
        link(n);
        auto& r = *rs[std::size_t(rh)].r;
        auto e = w.executor(n.ex), e2 = w.executor(ex2);
        switch (n.kind) {
        case K_FN:
            if (n.is_ref) {
                ref_fn.emplace_back(n.id);
                return add_r(attach_as<V, std::reference_wrapper<FnP<V>>, stlab::receiver<V>>(r, std::ref(ref_fn.back()), e, e2, abuf, form), n.id);
            }
            return add_r(attach_as<V, FnP<V>, stlab::receiver<V>>(r, FnP<V>(n.id), e, e2, abuf, form), n.id);
        case K_SINK:
            if (n.is_ref) {
                ref_sink.emplace_back(n.id);
                return add_r(attach_as<V, std::reference_wrapper<SinkP<V>>, stlab::receiver<void>>(r, std::ref(ref_sink.back()), e, e2, abuf, form), n.id);
            }
            return add_r(attach_as<V, SinkP<V>, stlab::receiver<void>>(r, SinkP<V>(n.id), e, e2, abuf, form), n.id);
        case K_AY:
            if (n.is_ref) {
                ref_ay.emplace_back(n.id);
                return add_r(attach_as<V, std::reference_wrapper<AyP<V>>, stlab::receiver<V>>(r, std::ref(ref_ay.back()), e, e2, abuf, form), n.id);
            }
            return add_r(attach_as<V, AyP<V>, stlab::receiver<V>>(r, AyP<V>(n.id), e, e2, abuf, form), n.id);
        case K_AYN: return add_r(attach_as<V, AynP<V>, stlab::receiver<V>>(r, AynP<V>(n.id), e, e2, abuf, form), n.id);
        case K_FP:
            if constexpr (kCopy) {
                auto f = std::make_shared<FnP<V>>(n.id);
                stlab::function_process<V(V)> fp([f](V v) { return (*f)(std::move(v)); });
                f.reset();
                return add_r(attach_as<V, stlab::function_process<V(V)>, stlab::receiver<V>>(r, std::move(fp), e, e2, abuf, form), n.id);
            } else
                std::abort();
        default: std::abort();
        }
    }
    int merge(std::vector<int> rhs, Node proto) override {
        for (int h : rhs) proto.ups.push_back(ri[std::size_t(h)].node);
        Node& n = add_node(proto);
        link(n);
        auto e = w.executor(n.ex);
        std::vector<stlab::receiver<V>*> p;
        for (int h : rhs) p.push_back(&*rs[std::size_t(h)].r);
        bool zip = n.kind == K_ZIP || n.kind == K_ZIPAY;
        return add_r(zip ? merge_zip<V>(n, e, p) : merge_one<V>(n, e, p), n.id);
    }
    void ready(int h) override {
        auto& x = rs[std::size_t(h)];
        if (x.r)
            x.r->set_ready();
        else
            x.rv->set_ready();
    }
    void send(int h, Item i) override { (*ss[std::size_t(h)])(V(i.node, i.seq)); }
    void send_error(int h, PErr e) override { (*ss[std::size_t(h)])(std::make_exception_ptr(e)); }
    void close(int h) override { ss[std::size_t(h)]->close(); }
    bool s_same(int a, int b) override {
        auto &x = *ss[std::size_t(a)], &y = *ss[std::size_t(b)];
        bool r = x == y;
        if (r == (x != y)) w.bad("== and != of two senders agree");
        return r;
    }
    bool r_same(int a, int b) override {
        auto &x = rs[std::size_t(a)], &y = rs[std::size_t(b)];
        if (bool(x.r) != bool(y.r)) return false;
        if (x.r) {
            if ((*x.r == *y.r) == (*x.r != *y.r)) w.bad("== and != of two receivers agree");
            return *x.r == *y.r;
        }
        return *x.rv == *y.rv;
    }
    int s_free(int h) override {
        auto f = ss[std::size_t(h)]->free_buffer();
        if (!f) return -1;
        return *f > 1000000000u ? 1000000000 : int(*f);
    }
    bool r_is_ready(int h) override {
        auto& x = rs[std::size_t(h)];
        return x.r ? x.r->ready() : x.rv->ready();
    }
    int r_pipe_error(int h) override {
        auto& x = rs[std::size_t(h)];
        try {
            if (x.r) {
                [[maybe_unused]] auto y = *x.r | [](V) {};
            } else
                return 0;
        } catch (const stlab::channel_error& e) {
            if (!e.what() || !*e.what()) w.bad("a channel error without a description");
            return int(e.code());
        }
        return 0;
    }
    template <class T>
    void h_op(int op, std::optional<T>& d, std::optional<T>& s) {
        switch (op) {
        case 0:
            if constexpr (std::is_copy_constructible_v<T>) d.emplace(*s);
            break;
        case 1: d.emplace(std::move(*s)); break;
        case 2:
            if constexpr (std::is_copy_assignable_v<T>) *d = *s;
            break;
        case 3: *d = std::move(*s); break;
        case 4: d->swap(*s); break;
        case 5: d.reset(); break;
        case 6: swap(*d, *s); break;
        default: d.emplace();
        }
    }
    void s_op(int op, int d, int s) override {
        if (std::size_t(d) >= ss.size()) {
            ss.emplace_back();
            si.push_back({});
        }
        h_op(op, ss[std::size_t(d)], ss[std::size_t(s)]);
    }
    void r_op(int op, int d, int s) override {
        if (std::size_t(d) >= rs.size()) {
            rs.emplace_back();
            ri.push_back({});
        }
        auto &x = rs[std::size_t(d)], &y = rs[std::size_t(s)];
        if (ri[std::size_t(s)].is_void)
            h_op(op, x.rv, y.rv);
        else
            h_op(op, x.r, y.r);
    }
    void clear() override {
        ref_fn.clear();
        ref_ay.clear();
        ref_sink.clear();
    }
};

} // namespace ch
