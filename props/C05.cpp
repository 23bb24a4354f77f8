// C05: an asynchronous sink hands every accepted event to its wrapped sink, whole and in order
#include "vf_util.hpp"
#include "vf_cfg.hpp"
#include "vf_throw.hpp"
#include "vf_registry.hpp"
#include "vf_queue.hpp"    // also force-included in every translation unit
#include "blackhole/sink/asynchronous.hpp"
#include "src/sink/asynchronous.p.cpp"
using namespace blackhole;
namespace cfg = vf::cfg;
using sink::asynchronous_t;
using sink::overflow_policy_t;
using vf::sv;
using vf::sv_at;
// ---- threads: the new thread's body is kept for the harness to run
namespace {
struct threads {
    std::thread::_State* body = nullptr;
    const std::atomic<bool>* stopped = nullptr;
    int started = 0, joined = 0;
} threads;
void fresh() { threads.body = nullptr; threads.stopped = nullptr; threads.started = 0; threads.joined = 0; }
}
namespace std {
void thread::_M_start_thread(_State_ptr state, void (*)()) {
    ++threads.started;
    threads.body = state.release();
    _M_id = id(1);
}
void thread::join() {
    ++threads.joined;
    vf_check(joinable(), "only a running thread is joined");
    vf_check(!threads.stopped || threads.stopped->load(), "the worker is told to stop before it is waited for");
    _M_id = id();
}
}
namespace vf { queue_env queue; }
namespace {
typedef asynchronous_t::value_type value_type;
struct env {
    std::atomic<bool>* stopped;
    long fails, asked;          // times the queue is found full; times it was asked
    int puts;
    value_type* cell;
} E;
bool full() {
    vf_generalise();
    return E.asked++ < E.fails;
}
void put(void* cell) { ++E.puts; E.cell = static_cast<value_type*>(cell); }
void* nothing() { return nullptr; }
struct policy : overflow_policy_t {
    long retries, calls;
    explicit policy(long retries) : retries(retries), calls(0) {}
    auto overflow() -> action_t override {
        ++calls;
        return calls <= retries ? action_t::retry : action_t::drop;
    }
    auto wakeup() -> void override {}
};
struct target : sink_t {
    auto emit(const record_t&, const string_view&) -> void override { vf_ev("delivered early", 0, 0, "", 0); }
};
}
// ---- producer
extern "C" void vf_main_emit() {
    fresh();
    std::size_t n = vf_size("n", 0, 1 << 20);
    E.asked = 0; E.puts = 0; E.cell = nullptr;
    E.fails = vf_size("times found full", 0, 1 << 30);
    long retries = vf_size("retries", 0, 1 << 30);
    vf::queue = vf::queue_env{full, put, nothing};
    auto message = sv("message"), formatted = sv("formatted"), text = sv("text");
    long severity = vf_int("severity", -2147483648L, 2147483647L), tid, ts;
    policy* p = new policy(retries);
    asynchronous_t s(std::unique_ptr<sink_t>(new target), 10, std::unique_ptr<overflow_policy_t>(p));
    threads.stopped = &s.stopped;
    {
        std::unique_ptr<std::string> om(new std::string(message.data(), message.size())), of(new std::string(formatted.data(), formatted.size())), ot(new std::string(text.data(), text.size()));
        std::unique_ptr<string_view> vm(new string_view(*om)), vfm(new string_view(*of));
        std::unique_ptr<attribute_list> list(new attribute_list);
        list->~attribute_list();
        vf::make_small(list.get(), n, [](std::size_t i, void* slot) {
            new (slot) attribute_list::value_type(sv_at("key", i), vf::view(vf::value_at(i)));
        });
        std::unique_ptr<attribute_pack> pack(new attribute_pack{*list});
        record_t r((int)severity, *vm, *pack);
        r.activate(*vfm);
        tid = (long)r.tid();
        ts = r.timestamp().time_since_epoch().count();
        s.emit(r, string_view(*ot));
    }
    if (E.fails <= retries) {
        vf_check(E.puts == 1, "an event is put in the queue once");
        vf_check(E.asked == E.fails + 1 && p->calls == E.fails, "the policy is asked whenever the queue is full");
        record_t r = E.cell->record.into_view();
        vf::ev("message", 0, 0, r.message());
        vf::ev("formatted", 0, 0, r.formatted());
        vf::ev("text", 0, 0, E.cell->message);
        vf::ev("severity", int(r.severity()), (long)r.tid());
        vf::ev("timestamp", r.timestamp().time_since_epoch().count());
        for (const auto& l : r.attributes()) vf::dump(l.get(), 0);
        vf::ex("message", 0, 0, message);
        vf::ex("formatted", 0, 0, formatted.data() ? formatted : message);
        vf::ex("text", 0, 0, text);
        vf::ex("severity", severity, tid);
        vf::ex("timestamp", ts);
        for (std::size_t i = 0; i < n; ++i) {
            vf::ex("key", i, 0, sv_at("key", i));
            vf::ex_value(vf::value_at(i), i);
        }
        vf_cover("queued");
    } else {
        vf_check(E.puts == 0, "a dropped event is not queued");
        vf_check(p->calls == retries + 1 && E.asked == retries + 1, "the policy decides to drop an event");
        vf_cover("dropped");
    }
    vf_trace_eq("the queued event shows what was emitted and outlives it");
}
// ---- consumer: what other threads do is chosen at every operation of the worker on the queue
namespace {
struct world {
    long step;
    bool nonempty;              // is there an element in the queue?
    std::atomic<bool>* stopped; // was the destructor entered? Nothing is emitted after that.
} W;
// others emit events, until the sink is being destroyed
void others(const char* emits, const char* stops) {
    bool emitted = vf_int_at(emits, W.step, 0, 1), stopped = vf_int_at(stops, W.step, 0, 1);
    if (!vf_symbolic() && W.step > 20) stopped = true;
    bool stop = W.stopped->load();
    W.nonempty = W.nonempty | (emitted & !stop);
    W.stopped->store(stop | stopped);
}
void* take() {
    vf_generalise();
    ++W.step;
    others("emitted before", "stopped before");
    value_type* cell = nullptr;
    if (W.nonempty) {
        auto text = sv_at("text", W.step), message = sv_at("message", W.step);
        long severity = vf_int_at("severity", W.step, -2147483648L, 2147483647L);
        attribute_pack pack;
        record_t r((int)severity, message, pack);
        cell = static_cast<value_type*>(::operator new(sizeof(value_type)));
        new (cell) value_type{recordbuf_t(r), std::string(text.data(), text.size())};
        W.nonempty = vf_int_at("more", W.step, 0, 1);
        if (!vf_symbolic() && W.step > 40) W.nonempty = false;
        vf::ex("delivered", severity, 0, text);
        vf::ex("message", 0, 0, message);
    }
    others("emitted after", "stopped after");
    return cell;
}
struct wrapped_t : sink_t {
    bool* alive;
    explicit wrapped_t(bool* alive) : alive(alive) {}
    ~wrapped_t() { *alive = false; }
    auto emit(const record_t& r, const string_view& text) -> void override {
        vf::ev("delivered", int(r.severity()), 0, text);
        vf::ev("message", 0, 0, r.message());
        vf::fail(vf_int_at("fails", W.step, 0, vf::THROWS));
    }
};
}
extern "C" void vf_main_run() {
    fresh();
    vf::queue = vf::queue_env{full, put, take};
    W.step = 0;
    W.nonempty = vf_int("emitted before the worker runs", 0, 1);
    bool alive = true;
    {
        asynchronous_t s(std::unique_ptr<sink_t>(new wrapped_t(&alive)), 10, std::unique_ptr<overflow_policy_t>(new policy(0)));
        W.stopped = &s.stopped;
        threads.stopped = &s.stopped;
        vf_check(threads.started == 1, "one thread is started");
        s.stopped.store(vf_int("destroyed before the worker runs", 0, 1));
        threads.body->_M_run();
        vf_check(s.stopped.load(), "the worker runs until the sink is destroyed");
        vf_check(!W.nonempty, "every accepted event is delivered before the worker ends");
        vf_check(alive, "the wrapped sink lives as long as the worker");
    }
    vf_check(threads.joined == 1, "the worker is waited for");
    vf_check(!alive, "the wrapped sink is destroyed with the sink");
    vf_trace_eq("every accepted event is delivered once, whole, in order");
    vf_cover("reached");
}
// ---- construction
extern "C" void vf_main_construct() {
    fresh();
    vf::queue = vf::queue_env{full, put, nothing};
    bool alive = true, thrown = false;
    long how = vf_case("policy given", 0, 1);
    long factor = vf_size("factor", 0, 9223372036854775807L);
    try {
        std::unique_ptr<sink_t> w(new wrapped_t(&alive));
        std::unique_ptr<asynchronous_t> s;
        if (how) s.reset(new asynchronous_t(std::move(w), factor, std::unique_ptr<overflow_policy_t>(new policy(0))));
        else s.reset(new asynchronous_t(std::move(w), factor));
        threads.stopped = &s->stopped;
        vf_check(!s->stopped.load(), "a new sink is not being stopped");
        std::size_t capacity = 1;
        for (long i = 0; i < factor; ++i) capacity *= 2;
        vf_check(s->capacity() == capacity, "the capacity is two to the power of the factor");
        vf_check(threads.started == 1 && alive, "one worker is started");
        s.reset();
        vf_check(threads.joined == 1, "the worker is waited for");
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    vf_check(thrown == (factor < 2 || factor > 20), "a factor outside 2 to 20 is refused");
    vf_check(thrown == (threads.started == 0), "no worker is left behind by a refused construction");
    vf_check(!alive, "the wrapped sink is destroyed");
    vf_cover("reached");
}
extern "C" void vf_main_policies() {
    string_view name = sv("name");
    bool thrown = false;
    std::unique_ptr<overflow_policy_t> p;
    try {
        p = sink::overflow_policy_factory_t().create(std::string(name.data(), name.size()));
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    bool drop = name == string_view("drop"), wait = name == string_view("wait");
    vf_check(thrown == !(drop || wait), "only drop and wait name a policy");
    if (!thrown) {
        auto a = p->overflow();
        vf_check(a == (drop ? overflow_policy_t::action_t::drop : overflow_policy_t::action_t::retry), "drop drops, wait retries");
        p->wakeup();
    }
    vf_cover("reached");
}
namespace {
// what happens to an event emitted when the queue is full for a while
void emit_full(sink_t& s, bool drop, long fails) {
    E.asked = 0; E.puts = 0; E.cell = nullptr;
    E.fails = fails;
    attribute_pack pack;
    string_view message("message");
    record_t r(1, message, pack);
    s.emit(r, "text");
    vf_check(E.puts == (drop && E.fails ? 0 : 1), "an event is dropped only when the queue is full and the policy is to drop");
    vf_check(E.asked == (drop && E.fails ? 1 : E.fails + 1), "waiting goes on until there is room");
}
}
extern "C" void vf_main_builder() {
    fresh();
    vf::queue = vf::queue_env{full, put, nothing};
    bool alive = true;
    long how = vf_case("how", 0, 6);
    long fails = vf_size("times found full", 0, 1 << 30);
    long factor = how < 2 ? 10 : vf_case("factor", 2, 20);
    bool drop = how == 1 || how == 2 || how == 5;
    {
        builder<asynchronous_t> b(std::unique_ptr<sink_t>(new wrapped_t(&alive)));
        std::unique_ptr<sink_t> s;
        switch (how) {
        case 0: s = std::move(b).build(); break;
        case 1: b.drop(); s = std::move(b).build(); break;
        case 2: s = std::move(b).drop().factor(factor).build(); break;
        case 3: b.wait(); b.factor(factor); s = std::move(b).build(); break;
        case 4: s = std::move(b).factor(factor).drop().wait().build(); break;
        case 5: b.wait(); s = std::move(b).factor(factor).drop().build(); break;
        case 6: b.drop(); b.wait(); s = std::move(b).factor(factor).build(); break;
        }
        auto& a = static_cast<asynchronous_t&>(*s);
        threads.stopped = &a.stopped;
        vf_check(a.capacity() == std::size_t(1) << factor, "the queue has the size asked for");
        vf_check(alive && threads.started == 1, "the sink is ready");
        emit_full(*s, drop, fails);
    }
    vf_check(!alive && threads.joined == 1, "the sink is destroyed");
    vf_cover("reached");
}
namespace {
struct named_registry : vf::registry {
    auto sink(const std::string& type) const -> sink_factory override {
        vf::ev("asked for", 0, 0, type);
        return s;
    }
};
}
extern "C" void vf_main_config() {
    fresh();
    vf::queue = vf::queue_env{full, put, nothing};
    bool alive = true, thrown = false;
    long typed = vf_case("has type", 0, 1), drop = vf_case("drop", 0, 1), sized = vf_case("has factor", 0, 1), named = vf_case("has overflow", 0, 1);
    long factor = vf_case("factor", 2, 20);
    long fails = vf_size("times found full", 0, 1 << 30);
    string_view type = sv("type");
    cfg::entry inner[] = {{"level", cfg::sint(7)}, {"type", cfg::string(type)}};
    cfg::entry items[] = {{"type", cfg::string("asynchronous")}, {sized ? "factor" : "factors", cfg::uint(factor)}, {named ? "overflow" : "", cfg::string(drop ? "drop" : "wait")}, {"sink", cfg::object(inner, 1 + typed)}};
    named_registry reg;
    reg.s = [&](const config::node_t& c) -> std::unique_ptr<sink_t> {
        vf::ev("made", c["level"].to_sint64().get());
        return std::unique_ptr<sink_t>(new wrapped_t(&alive));
    };
    factory<asynchronous_t> f(reg);
    try {
        auto s = f.from(cfg::node(cfg::object(items, 4)));
        auto& a = static_cast<asynchronous_t&>(*s);
        threads.stopped = &a.stopped;
        vf_check(a.capacity() == std::size_t(1) << factor, "the queue has the configured size");
        emit_full(*s, drop, fails);
        vf::ex("asked for", 0, 0, type);
        vf::ex("made", 7);
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    vf_check(thrown == !(typed && sized && named), "the type of the sink to wrap, the factor and the policy are needed");
    if (thrown) return vf_cover("refused");
    vf_trace_eq("the wrapped sink is made from its own configuration");
    vf_cover("reached");
}
