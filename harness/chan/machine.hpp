// Channels: programs over channel graphs, executed step by step on harness-owned executors.
//
// Oracle: every process records what it is given and what it gives, so each edge of the graph is
// checked on its own (the consumer sees a prefix of the producer's output, in order, exactly once),
// together with the protocol, ownership, back-pressure and progress rules.
#pragma once
#include "pbt.hpp"

#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include <stlab/config.hpp>

#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/immediate_executor.hpp>

namespace ch {

enum Kind { K_SRC, K_GEN, K_FN, K_AY, K_AYN, K_FP, K_SINK, K_ZIP, K_ZIPAY, K_RR, K_UN };

struct Item {
    bool err;
    int node, seq;
    bool operator==(const Item& o) const { return err == o.err && node == o.node && seq == o.seq; }
};
std::string show(const Item& i);

struct PErr {
    int node, seq;
};

struct Node {
    int id = 0;
    Kind kind = K_SRC;
    bool is_ref = false;
    bool is_void = false; // sink
    std::vector<int> ups;
    std::vector<std::pair<int, int>> kids; // child, index among its inputs
    int ex = 0;
    int buf = 1;
    int form = 0;
    int gain = 1; // values out for one value in, along the longest path
    std::vector<Item> outs;
    std::vector<std::size_t> pos; // consumed items per input
    // behaviour
    int k = 1;          // accumulate k values / repeat
    int mode = 0;       // 0 accumulate, 1 expand
    int flush = 0;      // values yielded on close
    int throw_mod = 0;  // throws on every throw_mod-th produced item
    int throw_where = 0; // 0: call or yield, 1: await
    int on_error = 0;    // values yielded for an error
    int gen_left = 0;
    // state of the process object
    int count = 0, pending = 0;
    bool closed = false;
    int in_call = 0;
    int calls = 0;
    int objects = 0; // live process objects
    bool dead = false;
    std::size_t rr = 0;
    bool err_closed = false;

    bool has_close() const { return kind == K_AY || kind == K_ZIPAY; }
    bool has_set_error() const { return kind == K_AY || kind == K_ZIPAY; }
    bool skips_errors() const { return kind == K_AYN || kind == K_FP; }
    bool functor() const { return kind == K_FN || kind == K_SINK || kind == K_ZIP || kind == K_RR || kind == K_UN; }
    bool stateful() const { return kind == K_AY || kind == K_AYN || kind == K_ZIPAY || kind == K_GEN; }
};

struct Opt {
    bool errors = false;
    bool merges = false;
    bool splits = true;
    bool handles = false;
    bool drops = false;
    bool process = true;
    bool annotate = true;
    bool gens = false;
    int max_nodes = 7;
    int max_buf = 4;
    int max_kids = 4;
    bool immediate = false;
    int send_w = 8;
};

struct OpsBase;
struct World;
extern World* g;

struct World {
    pbt::Case& c;
    Opt opt;
    std::deque<Node> nodes;
    std::vector<std::deque<stlab::task<void() noexcept>>> ex; // executor number ex.size() runs at once
    std::vector<int> cur; // executors whose task is being run, innermost last
    OpsBase* ops = nullptr;
    int values = 0; // live value objects
    int depth = 0;
    int budget = 400;
    std::function<void()> nested_op;
    bool dropped_nested = false; // a receiver was dropped while a process was running
    long consumed = 0;
    bool quiet = false; // shutting down: no new interleaving
    bool in_close = false; // what is full has no bearing on what has been given
    std::string first_bad;

    World(pbt::Case& cc, Opt o) : c(cc), opt(o) {}

    // Failures are remembered: the library catches what processes throw.
    void bad(const std::string& m) {
        if (first_bad.empty()) first_bad = m;
    }
    void check() {
        if (!first_bad.empty()) PBT_FAIL(c, first_bad);
    }

    stlab::executor_t executor(int e);
    bool immediate(int e) const { return e == int(ex.size()); }

    // ---- called by the processes
    bool next_is_error(const Node& n, std::size_t input);
    bool ensure_out(int up, std::size_t idx);
    bool forward(Node& n);
    void take(Node& n, std::size_t input, const Item& got);
    void consume_value(Node& n, const std::vector<Item>& got);
    void consume_error(Node& n, const Item& got);
    Item produce(Node& n);
    void enter(Node& n, const char* what);
    void leave(Node& n);
    void interleave();

    // ---- model
    bool alive(int id) const;
    bool started(int id) const;
    bool ended(int id);
    bool inputs_ended(const Node& n);
    bool avail(const Node& n);
    bool work(const Node& n);
    std::size_t qlen(const Node& n, std::pair<int, int> kid);
    std::size_t max_pos(const Node& n);
    bool has_item(const Node& n, std::size_t input, int deep);
    bool can_take(const Node& n, std::size_t input, int deep);
    bool full_kid(const Node& n, int deep = 0);
    void settle_errors();
    bool inputs_ended_but_errors(const Node& n);
    void check_bounds();
    void check_quiescent(bool final);
    bool idle() const;
    bool step();
    void drain();
};

struct Enter {
    Node& n;
    Enter(Node& x, const char* what) : n(x) { g->enter(n, what); }
    ~Enter() { g->leave(n); }
};

// ------------------------------------------------------------------ values
struct ValBase {
    int node = -1, seq = -1;
    bool valid = false;
    void born() { ++g->values; }
    void gone() { --g->values; }
    Item item() const {
        if (!valid) g->bad("a process was given a value that had been moved from");
        return Item{false, node, seq};
    }
};
struct CV : ValBase {
    CV(int n, int s) {
        node = n;
        seq = s;
        valid = true;
        born();
    }
    CV(const CV& o) : ValBase(o) { born(); }
    CV(CV&& o) noexcept : ValBase(o) {
        born();
        o.valid = false;
    }
    CV& operator=(const CV& o) = default;
    CV& operator=(CV&& o) noexcept {
        static_cast<ValBase&>(*this) = o;
        o.valid = false;
        return *this;
    }
    CV() { born(); }
    ~CV() { gone(); }
};
struct MV : ValBase {
    MV(int n, int s) {
        node = n;
        seq = s;
        valid = true;
        born();
    }
    MV(const MV&) = delete;
    MV(MV&& o) noexcept : ValBase(o) {
        born();
        o.valid = false;
    }
    MV& operator=(MV&& o) noexcept {
        static_cast<ValBase&>(*this) = o;
        o.valid = false;
        return *this;
    }
    MV() { born(); }
    ~MV() { gone(); }
};

// ------------------------------------------------------------------ processes
struct Obj { // identity of the process object
    int node = -1;
    explicit Obj(int n) : node(n) { ++g->nodes[std::size_t(n)].objects; }
    Obj(Obj&& o) noexcept : node(o.node) { o.node = -1; }
    Obj(const Obj&) = delete;
    ~Obj() {
        if (node >= 0) --g->nodes[std::size_t(node)].objects;
        node = -2;
    }
    Node& n() const {
        if (node < 0) g->bad(node == -2 ? "a process object was used after it was destroyed" : "a process object was used after it was moved from");
        return g->nodes[std::size_t(node < 0 ? 0 : node)];
    }
};

template <class V>
struct FnP {
    Obj o;
    explicit FnP(int n) : o(n) {}
    V operator()(V v) {
        Node& n = o.n();
        Enter e(n, "call");
        g->consume_value(n, {v.item()});
        g->interleave();
        Item i = g->produce(n);
        return V(i.node, i.seq);
    }
};
template <class V>
struct SinkP {
    Obj o;
    explicit SinkP(int n) : o(n) {}
    void operator()(V v) {
        Node& n = o.n();
        Enter e(n, "call");
        g->consume_value(n, {v.item()});
        g->interleave();
    }
};
template <class V, class... A>
struct ZipNP {
    Obj o;
    explicit ZipNP(int n) : o(n) {}
    V operator()(A... a) {
        Node& n = o.n();
        Enter e(n, "call");
        g->consume_value(n, {a.item()...});
        g->interleave();
        Item i = g->produce(n);
        return V(i.node, i.seq);
    }
};

void ay_await(Node& n, const std::vector<Item>& in);
Item ay_yield(Node& n);
stlab::process_state_scheduled ay_state(const Node& n);
void ay_close(Node& n);
void ay_error(Node& n, std::exception_ptr e);

template <class V>
struct AyP { // await, yield, state, close, set_error
    Obj o;
    explicit AyP(int n) : o(n) {}
    void await(V v) { ay_await(o.n(), {v.item()}); }
    V yield() {
        Item i = ay_yield(o.n());
        return V(i.node, i.seq);
    }
    stlab::process_state_scheduled state() const { return ay_state(o.n()); }
    void close() { ay_close(o.n()); }
    void set_error(std::exception_ptr e) { ay_error(o.n(), std::move(e)); }
};
template <class V>
struct AynP { // await, yield, state
    Obj o;
    explicit AynP(int n) : o(n) {}
    void await(V v) { ay_await(o.n(), {v.item()}); }
    V yield() {
        Item i = ay_yield(o.n());
        return V(i.node, i.seq);
    }
    stlab::process_state_scheduled state() const { return ay_state(o.n()); }
};
template <class V>
struct ZipAyP {
    Obj o;
    explicit ZipAyP(int n) : o(n) {}
    void await(V a, V b) { ay_await(o.n(), {a.item(), b.item()}); }
    V yield() {
        Item i = ay_yield(o.n());
        return V(i.node, i.seq);
    }
    stlab::process_state_scheduled state() const { return ay_state(o.n()); }
    void close() { ay_close(o.n()); }
    void set_error(std::exception_ptr e) { ay_error(o.n(), std::move(e)); }
};
template <class V>
struct GenP { // yield, state
    Obj o;
    explicit GenP(int n) : o(n) {}
    V yield() {
        Item i = ay_yield(o.n());
        return V(i.node, i.seq);
    }
    stlab::process_state_scheduled state() const { return ay_state(o.n()); }
};

constexpr int kForms = 17;
inline bool form_has_ex(int f) { return f == 1 || f == 2 || f >= 5; }
inline bool form_has_buf(int f) { return f >= 3; }

// R: type of the resulting receiver.  Instantiated explicitly, one translation unit each.
template <class V, class F, class R>
R attach_as(stlab::receiver<V>& r, F f, stlab::executor_t e, stlab::executor_t e2, int b, int form);

// Handles and their operations; implemented once per value type.
struct OpsBase {
    struct RInfo {
        bool live = false; // the object exists
        int node = -1; // -1: empty
        bool ready = false;
        bool is_void = false;
        bool busy = false;
    };
    struct SInfo {
        bool live = false;
        int node = -1; // -1: empty or closed
    };
    World& w;
    std::deque<RInfo> ri;
    std::deque<SInfo> si;

    explicit OpsBase(World& x) : w(x) {}
    virtual ~OpsBase() = default;
    virtual bool copyable() const = 0;
    virtual int source(int ex) = 0;                                       // new node, its handles are added
    virtual int generator(Node proto, int form, int ex2) = 0;
    virtual int attach(int rh, Node proto, int form, int ex2, int annotated_buf) = 0;
    virtual int merge(std::vector<int> rhs, Node proto) = 0;
    virtual void ready(int rh) = 0;
    virtual void send(int sh, Item i) = 0;
    virtual void send_error(int sh, PErr e) = 0;
    virtual void close(int sh) = 0;
    virtual bool s_same(int a, int b) = 0;
    virtual bool r_same(int a, int b) = 0;
    virtual int s_free(int sh) = 0;  // -1: none
    virtual bool r_is_ready(int rh) = 0;
    virtual int r_pipe_error(int rh) = 0; // channel_error code of attaching to it
    // handle operations; the caller keeps ri/si in step
    virtual void s_op(int op, int dst, int src) = 0; // 0 copy construct into dst, 1 move construct, 2 copy assign, 3 move assign, 4 swap, 5 destroy
    virtual void r_op(int op, int dst, int src) = 0;
    virtual void clear() = 0;

    bool has_handle(int node) const {
        for (auto& r : ri)
            if (r.node == node) return true;
        return false;
    }
};
std::unique_ptr<OpsBase> ops_copy(World& w);
std::unique_ptr<OpsBase> ops_move(World& w);

} // namespace ch
