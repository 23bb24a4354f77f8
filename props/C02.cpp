// C02: scoped attributes and wrapper attributes
#include "vf_util.hpp"
#include "blackhole/root.hpp"
#include "blackhole/wrapper.hpp"
#include "blackhole/scope/holder.hpp"
#include "blackhole/scope/manager.hpp"
#include "blackhole/scope/watcher.hpp"
using namespace blackhole;
using vf::sv;
using scope::holder_t;
using scope::watcher_t;
namespace {
struct ghost_handler : public handler_t {
    void handle(const record_t& r) override {
        vf::ev("record", int(r.severity()), 0, r.message());
        for (const auto& list : r.attributes())
            for (const auto& a : list.get()) { vf::ev("key", 0, 0, a.first); vf::dump(a.second, 0); }
    }
};
std::vector<std::unique_ptr<handler_t>> one() {
    std::vector<std::unique_ptr<handler_t>> r;
    r.emplace_back(new ghost_handler);
    return r;
}
// an attribute list; different ids are different lists
vf::value_in val(long i, bool mixed) {
    if (mixed) return vf::value_at(i);
    vf::value_in v;
    v.kind = 2;
    v.num = vf_int_at("number", i, -9223372036854775807L - 1, 9223372036854775807L);
    return v;
}
struct attr {
    long id, n; bool mixed;
    attr(long id, const char* label, long max = 1 << 20) : id(id << 24), n(vf_size(label, 0, max)), mixed(max > 1) {}   // any length
    explicit attr(long id) : id(id << 24), n(1), mixed(false) {}
    attributes_t own() const {
        attributes_t r;
        const long id = this->id; const bool mixed = this->mixed;
        if (!mixed) {
            for (long i = 0; i < n; ++i) { auto k = vf::sv_at("key", id + i); r.emplace_back(std::string(k.data(), k.size()), vf::value(val(id + i, false))); }
            return r;
        }
        vf::make_small(&r, n, [id](std::size_t i, void* slot) {
            auto k = vf::sv_at("key", id + i);
            new (slot) attribute_t(std::string(k.data(), k.size()), vf::value(val(id + i, true)));
        });
        return r;
    }
    attribute_list list() const {
        attribute_list r;
        const long id = this->id;
        for (long i = 0; i < n; ++i) r.emplace_back(vf::sv_at("key", id + i), vf::view(val(id + i, mixed)));
        return r;
    }
};
void ex_list(const attr& a) {
    for (long i = 0; i < a.n; ++i) { vf::ex("key", 0, 0, vf::sv_at("key", a.id + i)); vf::ex_value(val(a.id + i, a.mixed), 0); }
}
}
// scopes nest: the innermost live scope comes first, an ended one is gone, and what was before is back
extern "C" void vf_main_scopes() {
    auto msg = sv("message");
    attr a(1), b(2), c(3, "c"), e(4);
    root_logger_t log([](const record_t&) -> bool { return true; }, one());
    attribute_list own = e.list();
    {
        holder_t s1(log, a.own());
        {
            holder_t s2(log, b.own());
            holder_t s3(log, c.own());
            attribute_pack pack{own};
            log.log(1, msg, pack);
        }
        log.log(2, msg);
    }
    log.log(3, msg);
    vf::ex("record", 1, 0, msg);
    ex_list(e); ex_list(c); ex_list(b); ex_list(a);
    vf::ex("record", 2, 0, msg);
    ex_list(a);
    vf::ex("record", 3, 0, msg);
    vf_cover("reached");
    vf_trace_eq("scoped attributes are those of the live scopes, innermost first");
}
// scopes that carry nothing hide nothing
extern "C" void vf_main_empty_scopes() {
    auto msg = sv("message");
    attr a(1, "a", 1), b(2, "b", 1), c(3, "c", 1), e(4, "e", 1);
    root_logger_t log(one());
    attribute_list own = e.list();
    holder_t s1(log, a.own());
    {
        holder_t s2(log, b.own());
        wrapper_t w(log, c.own());
        attribute_pack pack{own};
        w.log(1, msg, pack);
        w.log(2, msg);
    }
    log.log(3, msg);
    vf::ex("record", 1, 0, msg);
    ex_list(e); ex_list(c); ex_list(b); ex_list(a);
    vf::ex("record", 2, 0, msg);
    ex_list(c); ex_list(b); ex_list(a);
    vf::ex("record", 3, 0, msg);
    ex_list(a);
    vf_cover("reached");
    vf_trace_eq("empty attribute lists hide no attributes");
}
// more scopes than an attribute pack holds inline
extern "C" void vf_main_deep() {
    auto msg = sv("message");
    const int N = 20;
    root_logger_t log(one());
    std::unique_ptr<holder_t> s[N];
    for (int i = 0; i < N; ++i) s[i].reset(new holder_t(log, attributes_t{{"k", vf_int_at("value", i, -1000, 1000)}}));
    log.log(1, msg);
    for (int i = N - 1; i >= N - 3; --i) s[i].reset();
    log.log(2, msg);
    for (int i = N - 4; i >= 0; --i) s[i].reset();
    log.log(3, msg);
    for (int r = 1; r < 4; ++r) {
        vf::ex("record", r, 0, msg);
        for (int i = (r == 1 ? N : r == 2 ? N - 3 : 0) - 1; i >= 0; --i) { vf::ex("key", 0, 0, "k"); vf::ex("signed", 0, vf_int_at("value", i, -1000, 1000)); }
    }
    vf_cover("reached");
    vf_trace_eq("scoped attributes are those of the live scopes, innermost first, however many");
}
// two loggers do not see each other's scopes
extern "C" void vf_main_scope_per_logger() {
    auto msg = sv("message");
    attr a(1, "a");
    root_logger_t log1(one()), log2(one());
    holder_t s1(log1, a.own());
    log2.log(1, msg);
    log1.log(2, msg);
    vf::ex("record", 1, 0, msg);
    vf::ex("record", 2, 0, msg);
    ex_list(a);
    vf_trace_eq("a scope shows on its own logger only");
}
// moving the logger keeps live scopes attached, and they still end properly
extern "C" void vf_main_scope_move() {
    auto msg = sv("message");
    attr a(1), b(2);
    bool assign = vf_int("assign", 0, 1);
    root_logger_t src(one());
    std::unique_ptr<holder_t> s1(new holder_t(src, a.own()));
    std::unique_ptr<holder_t> s2(new holder_t(src, b.own()));
    std::unique_ptr<root_logger_t> dst;
    if (assign) {
        vf_cover("assign");
        dst.reset(new root_logger_t(one()));
        *dst = std::move(src);
    } else {
        vf_cover("construct");
        dst.reset(new root_logger_t(std::move(src)));
    }
    dst->log(1, msg);
    s2.reset();
    dst->log(2, msg);
    {
        holder_t s3(*dst, b.own());
        dst->log(3, msg);
    }
    s1.reset();
    dst->log(4, msg);
    vf::ex("record", 1, 0, msg);
    ex_list(b); ex_list(a);
    vf::ex("record", 2, 0, msg);
    ex_list(a);
    vf::ex("record", 3, 0, msg);
    ex_list(b); ex_list(a);
    vf::ex("record", 4, 0, msg);
    vf_trace_eq("scopes follow a moved logger");
}
// wrappers add their attributes after the event's own, outermost wrapper first; scopes come last
extern "C" void vf_main_wrapper() {
    auto msg = sv("message");
    auto text = sv("formatted");
    attr a(1), b(2, "b"), c(3), e(4);
    int sev = (int)vf_int("severity", -2147483648L, 2147483647L);
    long mode = vf_int("mode", 0, 2);
    root_logger_t log(one());
    wrapper_t w1(log, a.own());
    wrapper_t w2(w1, b.own());
    holder_t s(w2, c.own());
    attribute_list own = e.list();
    attribute_pack pack{own};
    auto build = [&]() -> string_view { return text; };
    if (mode == 0) w2.log(sev, msg);
    else if (mode == 1) w2.log(sev, msg, pack);
    else w2.log(sev, {msg, std::cref(build)}, pack);
    vf::ex("record", sev, 0, msg);
    if (mode) { vf_cover("own attributes"); ex_list(e); }
    ex_list(b);
    ex_list(a);
    ex_list(c);
    vf_trace_eq("wrapper attributes are added in nesting order");
}
static void ex_many(const attr& a) {
    for (long i = 0; i < a.n; ++i) { vf::ex("key", i, 0, vf::sv_at("key", a.id + i)); vf::ex_value(vf::value_at(a.id + i), i); }
}
// a holder or a wrapper shows exactly the attributes it was given, however many, in order
extern "C" void vf_main_wrapper_view() {
    attr a(1, "n");
    long n = a.n;
    root_logger_t log(one());
    wrapper_t w(log, a.own());
    vf_check(w.attributes().size() == (std::size_t)n, "size");
    vf::dump(w.attributes(), 0);
    ex_many(a);
    vf_trace_eq("wrapper attributes are the given ones, in order");
}
extern "C" void vf_main_holder_view() {
    attr a(1, "n");
    long n = a.n;
    root_logger_t log(one());
    holder_t h(log, a.own());
    vf_check(h.attributes().size() == (std::size_t)n, "size");
    vf::dump(h.attributes(), 0);
    ex_many(a);
    vf_trace_eq("scope attributes are the given ones, in order");
}
// a handler that logs by itself, to the same logger or another: each event has its own attributes
namespace {
struct nesting_handler : public handler_t {
    std::function<void()>& action;
    explicit nesting_handler(std::function<void()>& action) : action(action) {}
    void handle(const record_t&) override {
        if (!action) return;
        auto f = std::move(action);
        action = nullptr;
        f();
    }
};
}
extern "C" void vf_main_nested() {
    auto msg = sv("message"), text = sv("formatted");
    attr a(1), b(2), c(3), d(4), e(5);
    std::function<void()> action;
    std::vector<std::unique_ptr<handler_t>> handlers;
    handlers.emplace_back(new nesting_handler(action));
    handlers.emplace_back(new ghost_handler);
    root_logger_t log1(std::move(handlers)), log2(one());
    holder_t s1(log1, a.own()), s2(log2, b.own());
    wrapper_t w1(log1, c.own()), w2(log2, d.own());
    attribute_list own = e.list();
    auto build = [&]() -> string_view { return text; };
    // wrapped, with attributes of its own, lazily
    auto log = [&](logger_t& to, int severity, long how) {
        attribute_pack pack{own};
        switch (how) {
        case 0: to.log(severity, msg); break;
        case 1: to.log(severity, msg, pack); break;
        case 2: to.log(severity, {msg, std::cref(build)}, pack); break;
        }
    };
    auto expect = [&](int severity, bool other, bool wrapped, long how) {
        vf::ex("record", severity, 0, msg);
        if (how) ex_list(e);
        if (wrapped) ex_list(other ? d : c);
        ex_list(other ? b : a);
    };
    long how = vf_case("way", 0, 2);
    bool wrapped = vf_case("wrapped", 0, 1), other = vf_case("other logger", 0, 1);
    action = [&] {
        if (other) log(wrapped ? (logger_t&)w2 : log2, 1, how);
        else log(wrapped ? (logger_t&)log1 : w1, 1, how);
    };
    log(wrapped ? (logger_t&)w1 : log1, 2, how);
    expect(1, other, other ? wrapped : !wrapped, how);
    expect(2, false, wrapped, how);
    vf_trace_eq("an event has its own attributes, whatever is logged in between");
    vf_cover("reached");
}
