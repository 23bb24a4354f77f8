// C18: the registry finds what was registered, the builder makes the logger that is configured
#include "vf_util.hpp"
#include "vf_cfg.hpp"
#include "vf_registry.hpp"
#include "blackhole/root.hpp"
#include "config/factory.hpp"
#include "essentials.hpp"
#include "blackhole/config/factory.hpp"
using namespace blackhole;
namespace cfg = vf::cfg;
using vf::ev;
using vf::ex;
namespace {
const void* last;
struct mock_sink : sink_t { void emit(const record_t&, const string_view&) override {} };
struct mock_filter : filter_t { action_t filter(const record_t&) override { return action_t::accept; } };
struct mock_formatter : formatter_t { void format(const record_t&, writer_t&) override {} };
struct mock_handler : handler_t {
    long id;
    explicit mock_handler(long id = 0) : id(id) {}
    void handle(const record_t& r) override { vf_ev("handle", id, int(r.severity()), r.formatted().data(), r.formatted().size()); }
};
// a factory of the user's
template<class T, class M>
struct mock : factory<T> {
    long id; const char* name;
    mock(long id, const char* name) : id(id), name(name) {}
    auto type() const noexcept -> const char* override { return name; }
    auto from(const config::node_t& node) const -> std::unique_ptr<T> override {
        ev("made", id, node.to_sint64());
        std::unique_ptr<T> p(new M);
        last = p.get();
        return p;
    }
};
typedef mock<sink_t, mock_sink> sink_mock;
typedef mock<filter_t, mock_filter> filter_mock;
typedef mock<handler_t, mock_handler> handler_mock;
typedef mock<formatter_t, mock_formatter> formatter_mock;
void add(registry_t& r, long kind, long id, const char* name) {
    switch (kind) {
    case 0: r.add(std::shared_ptr<factory<sink_t>>(new sink_mock(id, name))); break;
    case 1: r.add(std::shared_ptr<factory<filter_t>>(new filter_mock(id, name))); break;
    case 2: r.add(std::shared_ptr<factory<handler_t>>(new handler_mock(id, name))); break;
    default: r.add(std::shared_ptr<factory<formatter_t>>(new formatter_mock(id, name))); break;
    }
}
void given(const void* p) { vf_check(p == last, "what the factory made is given out"); }
void make(const registry_t& r, long kind, const std::string& type, const config::node_t& node) {
    switch (kind) {
    case 0: given(r.sink(type)(node).get()); break;
    case 1: given(r.filter(type)(node).get()); break;
    case 2: given(r.handler(type)(node).get()); break;
    default: given(r.formatter(type)(node).get()); break;
    }
}
std::string str(string_view s) { return std::string(s.data(), s.size()); }
}
// up to three factories of any kinds under any names, and a request for any kind and name
extern "C" void vf_main_lookup() {
    std::unique_ptr<registry_t> r = registry::empty();
    string_view name[3] = {vf::text("name 0"), vf::text("name 1"), vf::text("name 2")}, wanted = vf::text("wanted");
    std::string zero[3];
    long n = vf_case("n", 0, 3), kind = vf_case("wanted kind", 0, 3), at = -1, other = vf_case("other kind", 0, 1);
    for (long i = 0; i < n; ++i) {
        // the second one may be of another kind
        long k = i == 1 && other ? (kind + 1) % 4 : kind;
        zero[i] = str(name[i]);
        add(*r, k, i, zero[i].c_str());
        if (k == kind && name[i] == wanted) at = i;
    }
    long number = vf_int("node", INT64_MIN, INT64_MAX);
    bool thrown = false;
    try { make(*r, kind, str(wanted), cfg::node(cfg::sint(number))); }
    catch (const std::out_of_range&) { thrown = true; }
    vf_check(thrown == (at < 0), "what is not registered is refused");
    if (at >= 0) ex("made", at, number);
    vf_trace_eq("the factory is the one registered last under the name");
    vf_cover("reached");
}
namespace {
struct config_of : config::factory_t {
    cfg::node root;
    explicit config_of(const cfg::tree& t) : root(t) {}
    auto config() const -> const config::node_t& override { return root; }
};
long made;
struct handlers : vf::registry {
    long sink() const { return 0; }
    auto handler(const std::string& type) const -> handler_factory override {
        ev("asked", 0, 0, string_view(type.data(), type.size()));
        return [](const config::node_t& node) {
            ev("node", node["id"].to_sint64().get_value_or(-1));
            return std::unique_ptr<handler_t>(new mock_handler(made++));
        };
    }
};
cfg::tree entry_of(std::size_t i) {
    bool typed = vf_int_at("typed", i, 0, 1);
    auto* items = new cfg::entry[2]{{"id", cfg::sint(vf_int_at("id", i, 0, INT64_MAX))}, {"type", cfg::string(vf::sv_at("type", i))}};
    return cfg::object(items, 1 + typed);
}
}
// n handlers in the section of the name
extern "C" void vf_main_build() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    made = 0;
    long way = vf_case("section", 0, 2);
    cfg::entry sections[] = {{"core", cfg::vector(n, entry_of)}, {"other", cfg::vector(std::size_t(0), entry_of)}};
    handlers r;
    builder_t b(r, std::unique_ptr<config::factory_t>(new config_of(cfg::object(sections, 2))));
    auto log = b.build(way == 0 ? "core" : way == 1 ? "other" : "missing");
    if (way == 0)
        for (std::size_t i = 0; i < n; ++i) {
            ex("asked", 0, 0, vf_int_at("typed", i, 0, 1) ? vf::sv_at("type", i) : string_view("blocking", 8));
            ex("node", vf_int_at("id", i, 0, INT64_MAX));
        }
    vf_trace_eq("every handler of the section is made once, in order, by the factory of its type");
    string_view text = vf::sv("message");
    long severity = vf_int("severity", -2147483648L, 2147483647L);
    log.log(severity_t((int)severity), text);
    if (way == 0) for (std::size_t i = 0; i < n; ++i) ex("handle", i, severity, text);
    vf_trace_eq("an event reaches every configured handler in order");
    vf_cover("reached");
}
// a handler of a type that is not registered
extern "C" void vf_main_build_unknown() {
    std::unique_ptr<registry_t> r = registry::empty();
    std::string name = str(vf::text("name"));
    add(*r, 2, 7, name.c_str());
    string_view type = vf::sv("type");
    bool typed = vf_int("typed", 0, 1);
    long number = vf_int("node", 0, INT64_MAX);
    struct maker : factory<handler_t> {
        const char* name;
        explicit maker(const char* n) : name(n) {}
        auto type() const noexcept -> const char* override { return name; }
        auto from(const config::node_t& node) const -> std::unique_ptr<handler_t> override {
            ev("made", node["id"].to_sint64().get_value_or(-1));
            return std::unique_ptr<handler_t>(new mock_handler(3));
        }
    };
    r->add(std::shared_ptr<factory<handler_t>>(new maker(name.c_str())));
    cfg::entry entry[] = {{"id", cfg::sint(number)}, {"type", cfg::string(type)}};
    cfg::entry list[] = {{"", cfg::object(entry, 1 + typed)}};
    cfg::entry sections[] = {{"root", cfg::vector(list, 1)}};
    builder_t b(*r, std::unique_ptr<config::factory_t>(new config_of(cfg::object(sections, 1))));
    vf_check(bool(b.configurator().config()["root"]), "the configuration can be looked at");
    bool thrown = false, known = (typed ? type : string_view("blocking", 8)) == string_view(name.data(), name.size());
    try {
        auto log = b.build("root");
        string_view text = vf::sv("message");
        log.log(severity_t(1), text);
        ex("made", number);
        ex("handle", 3, 1, text);
    } catch (const std::out_of_range&) { thrown = true; }
    vf_check(thrown == !known, "a handler that cannot be made is reported");
    vf_trace_eq("the handler is made by the factory of its type");
    vf_cover("reached");
}
// what a configured registry knows
namespace {
struct known_types : vf::registry {
    const char* name[32]; long kind[32]; long n;
    known_types() : n(0) {}
    void note(const char* s, long k) { if (n < 32) { name[n] = s; kind[n++] = k; } }
    bool has(const char* s, long k) const { for (long i = 0; i < n; ++i) if (kind[i] == k && !__builtin_strcmp(name[i], s)) return true; return false; }
    auto add(std::shared_ptr<factory<sink_t>> f) -> void override { note(f->type(), 0); }
    auto add(std::shared_ptr<factory<filter_t>> f) -> void override { note(f->type(), 1); }
    auto add(std::shared_ptr<factory<handler_t>> f) -> void override { note(f->type(), 2); }
    auto add(std::shared_ptr<factory<formatter_t>> f) -> void override { note(f->type(), 3); }
};
}
extern "C" void vf_main_essentials() {
    known_types r;
    essentials(r);
    for (auto s : {"asynchronous", "console", "file", "null", "tcp", "udp", "syslog"}) vf_check(r.has(s, 0), "the sink is known");
    vf_check(r.has("severity", 1), "the filter is known");
    vf_check(r.has("blocking", 2), "the handler is known");
    for (auto s : {"json", "string", "tskv"}) vf_check(r.has(s, 3), "the formatter is known");
    vf_cover("reached");
}
