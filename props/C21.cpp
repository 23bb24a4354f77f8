// C21: the blocking handler formats an event once and gives exactly that text to every sink, in order
#include "vf_cfg.hpp"
#include "vf_throw.hpp"
#include <functional>
#include "vf_registry.hpp"
#include "blackhole/builder.hpp"
#include "blackhole/handler/blocking.hpp"
using namespace blackhole;
using vf::sv;
namespace {
struct ghost_formatter : public formatter_t {
    long id; string_view prefix; mutable long fail;   // fails for the first `fail` events
    ghost_formatter(long id, string_view p, long fail) : id(id), prefix(p), fail(fail) {}
    void format(const record_t& r, writer_t& w) override {
        vf_ev("format", id, int(r.severity()), r.message().data(), r.message().size());
        w.inner << fmt::StringRef(prefix.data(), prefix.size()) << '|';
        for (std::size_t i = 0; i < r.message().size(); ++i) w.inner << r.message().data()[i];
        if (fail > 0 && fail--) vf::fail(vf_case("formatting fails by", 1, vf::THROWS));
    }
};
struct ghost_sink : public sink_t {
    long id, fail;
    explicit ghost_sink(long i, long fail = 0) : id(i), fail(fail) {}
    void emit(const record_t& r, const string_view& text) override {
        vf::ev("emit", id, int(r.severity()), text);
        vf::ev("record", r.attributes().size(), r.is_active(), r.message());
        if (fail > 0 && fail--) vf::fail(vf_case("sink fails by", 1, vf::THROWS));
    }
};
struct probe {
    string_view msg, prefix; int sev; attribute_list none; attribute_pack pack; record_t rec;
    probe() : msg(sv("message")), prefix(sv("prefix")), sev((int)vf_int("severity", -2147483648L, 2147483647L)),
        rec(sev, msg, pack) {}
    std::string text() const { std::string s(prefix.data(), prefix.size()); s += '|'; s.append(msg.data(), msg.size()); return s; }
    void expect(long n, long fmt = 7) const {
        auto t = text();
        vf::ex("format", fmt, sev, msg);
        for (long i = 0; i < n; ++i) { vf::ex("emit", i, sev, t); vf::ex("record", 0, 0, msg); }
    }
};
std::unique_ptr<formatter_t> mkf(long id, const probe& p, long fail = 0) { return std::unique_ptr<formatter_t>(new ghost_formatter(id, p.prefix, fail)); }
std::unique_ptr<sink_t> mks(long i, long fail = 0) { return std::unique_ptr<sink_t>(new ghost_sink(i, fail)); }
const char* SAME = "formatted once and every sink receives exactly that text, in order";
}
// any number of sinks
extern "C" void vf_main_many() {
    probe p;
    long n = vf_size("n", 0, 1 << 20);
    builder<handler::blocking_t> b;
    b.set(mkf(7, p));
    for (long i = 0; i < n; ++i) b.add(mks(i));
    auto h = std::move(b).build();
    h->handle(p.rec);
    p.expect(n);
    vf_trace_eq(SAME);
    vf_cover("reached");
}
// the builder as it is usually used, and a formatter that replaces an earlier one
extern "C" void vf_main_chain() {
    probe p;
    auto h = builder<handler::blocking_t>().set(mkf(6, p, 1)).add(mks(0)).set(mkf(7, p)).add(mks(1)).add(mks(2)).build();
    h->handle(p.rec);
    p.expect(3);
    vf_trace_eq(SAME);
    vf_cover("reached");
}
// successive events do not see each other's text
extern "C" void vf_main_sequence() {
    probe p, q;
    auto h = builder<handler::blocking_t>().set(mkf(7, p)).add(mks(0)).add(mks(1)).build();
    vf_share(h.get());
    h->handle(p.rec);
    record_t other(q.sev, q.msg, q.pack);
    h->handle(other);
    vf_unshare();
    p.expect(2);
    q.prefix = p.prefix;
    q.expect(2);
    vf_trace_eq(SAME);
    vf_cover("reached");
}
// a formatter that fails: the failure is reported and no sink receives a partial text
extern "C" void vf_main_failing() {
    probe p;
    auto h = builder<handler::blocking_t>().set(mkf(7, p, 1)).add(mks(0)).add(mks(1)).build();
    bool thrown = false;
    try { h->handle(p.rec); } catch (...) { thrown = true; }
    vf_check(thrown, "a formatting failure is reported");
    vf::ex("format", 7, p.sev, p.msg);
    // and nothing of it shows in the event after it
    h->handle(p.rec);
    p.expect(2);
    vf_trace_eq("no sink receives a partially formatted text, and later texts are complete");
    vf_cover("reached");
}
// a sink that fails leaves no trace in later events
extern "C" void vf_main_failing_sink() {
    probe p;
    auto h = builder<handler::blocking_t>().set(mkf(7, p)).add(mks(0)).add(mks(1, 1)).build();
    try { h->handle(p.rec); } catch (...) {}
    h->handle(p.rec);
    p.expect(2);
    p.expect(2);
    vf_trace_eq("texts of earlier events never appear in later ones");
    vf_cover("reached");
}
// a configured handler: the formatter and every sink of the configuration, each made from its own part of it
namespace {
namespace cfg = vf::cfg;
const probe* asking;
struct parts : vf::registry {
    auto sink(const std::string& type) const -> sink_factory override {
        vf::ev("asked", 0, 0, string_view(type.data(), type.size()));
        return [](const config::node_t& node) {
            vf::ev("node", node["id"].to_sint64().get_value_or(-1));
            return mks(node["id"].to_sint64().get_value_or(-1));
        };
    }
    auto formatter(const std::string& type) const -> formatter_factory override {
        bool known = type == "known";
        return [known](const config::node_t& node) {
            return mkf(known ? node["id"].to_sint64().get_value_or(-1) : -2, *asking);
        };
    }
};
cfg::tree sink_of(std::size_t i) {
    auto* items = new cfg::entry[2]{{"id", cfg::sint(i)}, {"type", cfg::string(vf::sv_at("type", i))}};
    return cfg::object(items, 2);
}
}
extern "C" void vf_main_configured() {
    probe p;
    asking = &p;
    std::size_t n = vf_size("n", 0, 1 << 20);
    cfg::entry fmt[] = {{"type", cfg::string("known")}, {"id", cfg::sint(9)}};
    cfg::entry items[] = {{"type", cfg::string("blocking")}, {"formatter", cfg::object(fmt, 2)}, {"sinks", cfg::vector(n, sink_of)}};
    parts r;
    auto h = factory<handler::blocking_t>(r).from(cfg::node(cfg::object(items, 3)));
    for (std::size_t i = 0; i < n; ++i) { vf::ex("asked", 0, 0, vf::sv_at("type", i)); vf::ex("node", i); }
    vf_trace_eq("every sink of the configuration is made once, in order, by the factory of its type");
    h->handle(p.rec);
    p.expect(n, 9);
    vf_trace_eq(SAME);
    vf_cover("reached");
}
// a part without a type is refused
extern "C" void vf_main_untyped() {
    probe p;
    asking = &p;
    long which = vf_case("without a type", 0, 4);
    cfg::entry fmt[] = {{"id", cfg::sint(9)}, {"type", cfg::string("known")}};
    cfg::entry typed[] = {{"id", cfg::sint(0)}, {"type", cfg::string("a")}};
    cfg::entry list[3];
    for (long i = 0; i < 3; ++i) list[i] = cfg::entry{"", cfg::object(typed, i == which ? 1 : 2)};
    cfg::entry items[] = {{"sinks", cfg::vector(list, 3)}, {"formatter", cfg::object(fmt, which == 3 ? 1 : 2)}};
    parts r;
    bool thrown = false;
    try { factory<handler::blocking_t>(r).from(cfg::node(cfg::object(items, which == 4 ? 1 : 2))); }
    catch (const std::invalid_argument&) { thrown = true; }
    vf_check(thrown, "a formatter or a sink without a type is refused");
    vf_cover("reached");
}
// a sink that hands another event to the same handler: the other sinks receive the text of their event
namespace {
struct nesting_sink : public sink_t {
    std::function<void()>& action;
    explicit nesting_sink(std::function<void()>& action) : action(action) {}
    void emit(const record_t&, const string_view&) override {
        if (!action) return;
        auto f = std::move(action);
        action = nullptr;
        f();
    }
};
}
extern "C" void vf_main_nested() {
    probe p, q;
    std::function<void()> action;
    auto h = builder<handler::blocking_t>().set(mkf(7, p)).add(std::unique_ptr<sink_t>(new nesting_sink(action))).add(mks(0)).build();
    record_t other(q.sev, q.msg, q.pack);
    action = [&] { h->handle(other); };
    h->handle(p.rec);
    auto t = p.text();
    vf::ex("format", 7, p.sev, p.msg);
    q.prefix = p.prefix;
    q.expect(1);
    vf::ex("emit", 0, p.sev, t);
    vf::ex("record", 0, 0, p.msg);
    vf_trace_eq("every sink receives the text of its event, whatever is logged in between");
    vf_cover("reached");
}
