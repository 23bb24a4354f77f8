// C08: the string formatter renders every placeholder of its pattern with the data of the event
#include "vf_util.hpp"
#include "vf_cfg.hpp"
#include "blackhole/formatter/string.hpp"
#include "blackhole/config/node.hpp"
#include "src/formatter/string/grammar.hpp"
#include <ctime>
#include <unistd.h>
#include <pthread.h>
using namespace blackhole;
namespace cfg = vf::cfg;
namespace fs = blackhole::formatter::string;
using vf::sv;
using vf::sv_at;
namespace {
typedef builder<formatter::string_t> string_builder;
struct tokens {
    fs::ph::leftover_t* leftover = nullptr;
    fs::ph::generic<fs::optional>* optional = nullptr;
} tokens;
}
// The two grammars written with boost.spirit (see C09) are taken by contract: they return any token at all.
namespace blackhole { inline namespace v1 { namespace formatter { namespace string {
auto parse_leftover(const std::string&) -> ph::leftover_t {
    if (!tokens.leftover) throw std::runtime_error("no leftover");
    return *tokens.leftover;
}
auto parse_optional(const std::string&, const std::string&) -> ph::generic<optional> {
    if (!tokens.optional) throw std::runtime_error("not optional");
    return *tokens.optional;
}
}}}}
// blackhole::gmtime is taken by its contract, which C10 proves: the broken-down time in UTC
extern "C" struct tm* vf_contract_gmtime(const time_t* t, struct tm* tm) noexcept {
    vf_check(*t >= 0 && *t <= 253402300799L, "gmtime is given a second between 1970 and 9999");
    return ::gmtime_r(t, tm);
}
namespace {
void x(const char* s) { vf_xout(s, __builtin_strlen(s)); }
void x(string_view s) { vf_xout(s.data(), s.size()); }
void x_writer(const fmt::MemoryWriter& w) { vf_xout(w.data(), w.size()); }
template<class T> void x_fmt(const char* spec, T v) { fmt::MemoryWriter w; w.write(spec, v); x_writer(w); }
void x_fmt(const char* spec, string_view v) { fmt::MemoryWriter w; w.write(spec, fmt::StringRef(v.data(), v.size())); x_writer(w); }
void x_value(const char* spec, const vf::value_in& v) {
    switch (v.kind) {
    case 0: x_fmt(spec, "none"); break;
    case 1: x_fmt(spec, bool(v.num & 1)); break;
    case 2: x_fmt(spec, (std::int64_t)v.num); break;
    case 3: x_fmt(spec, (std::uint64_t)v.num); break;
    case 4: x_fmt(spec, v.real()); break;
    default: x_fmt(spec, v.text);
    }
}
struct event {
    long severity, sec, usec;
    string_view text;
    attribute_list list, list2;
    attribute_pack pack;
    std::unique_ptr<record_t> record;
    event() {}
};
void make(event& e, std::size_t n) {
    e.severity = vf_int("severity", -2147483648L, 2147483647L);
    e.sec = vf_int("second", 0, 4000000000L);
    e.usec = vf_int("microsecond", 0, 999999);
    e.text = sv("text");
    e.list.~attribute_list();
    vf::make_small(&e.list, n, [](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("key", i), vf::view(vf::value_at(i)));
    });
    e.pack.emplace_back(e.list);
    e.record.reset(new record_t((int)e.severity, e.text, e.pack));
    e.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e.sec * 1000000 + e.usec)));
}
// a further list of attributes, such as those of a scope
void second(event& e, std::size_t n) {
    e.list2.~attribute_list();
    vf::make_small(&e.list2, n, [](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("second key", i), attribute::view_t(sv_at("second value", i)));
    });
    e.pack.emplace_back(e.list2);
}
void run(formatter_t& f, const event& e) {
    writer_t w;
    f.format(*e.record, w);
    vf_out(w.inner.data(), w.inner.size());
}
}
extern "C" void vf_main_fields() {
    event e;
    make(e, 0);
    auto f = string_builder("<{message}> {{x}} {severity:d}|{severity}|{severity:>4d}, {process}/{process:d} {thread:d} {thread} {thread:x}.").build();
    run(*f, e);
    x("<"); x(e.text); x("> {x} ");
    x_fmt("{}", (int)e.severity); x("|"); x_fmt("{}", (int)e.severity); x("|"); x_fmt("{:>4d}", (int)e.severity); x(", ");
    x_fmt("{}", (unsigned long)getpid()); x("/"); x_fmt("{}", (unsigned long)getpid()); x(" ");
    x_fmt("{:d}", e.record->lwp()); x(" "); x_fmt("{:#x}", (unsigned long)pthread_self()); x(" "); x_fmt("{:x}", (unsigned long)pthread_self());
    x(".");
    vf_trace_eq("literals and fields in the order of the pattern");
    vf_cover("reached");
}
extern "C" void vf_main_names() {
    event e;
    make(e, 0);
    auto f = string_builder("{process:s} {process:>20s} {thread:s}").build();
    run(*f, e);
    const char* name = program_invocation_short_name;
    x(name); x(" "); x_fmt("{:>20s}", name); x(" ");
    char buf[16];
    if (pthread_getname_np(pthread_self(), buf, sizeof buf) == 0) x(buf); else x("<unnamed>");
    vf_trace_eq("process and thread names");
    vf_cover("reached");
}
// a placeholder for an attribute shows the first attribute of that name
extern "C" void vf_main_generic() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    event e;
    make(e, n);
    long two = vf_case("two lists", 0, 1);
    string_view last = sv("value in the second list");
    e.list2.emplace_back("name", attribute::view_t(last));
    if (two) e.pack.emplace_back(e.list2);
    bool thrown = false;
    auto f = string_builder("{name}/{name:10}").build();
    std::size_t i = 0;
    try { run(*f, e); } catch (const std::logic_error&) { thrown = true; }
    string_view name("name");
    while (i < n && !(sv_at("key", i) == name)) ++i;
    if (i < n) {
        auto v = vf::value_at(i);
        x_value("{}", v); x("/"); x_value("{:10}", v);
    } else if (two) {
        x(last); x("/"); x_fmt("{:10}", last);
    }
    vf_check(thrown == (i == n && !two), "a missing attribute is reported to the caller");
    vf_trace_eq("the first attribute of the name is shown in the given format");
    vf_cover("reached");
}
// an optional placeholder falls back on its default
extern "C" void vf_main_optional() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    event e;
    make(e, n);
    long kind = vf_case("default", 0, 2);
    string_view otherwise = sv("otherwise");
    long number = vf_int("number", INT64_MIN, INT64_MAX);
    double real; __builtin_memcpy(&real, &number, sizeof real);
    fs::ph::generic<fs::optional> token("name", "{:>8}");
    if (kind == 0) token.otherwise = std::string(otherwise.data(), otherwise.size());
    if (kind == 1) token.otherwise = number;
    if (kind == 2) token.otherwise = real;
    tokens.optional = &token;
    auto f = string_builder("[{name:{x:default}>8}]").build();
    run(*f, e);
    string_view name("name");
    std::size_t i = 0;
    while (i < n && !(sv_at("key", i) == name)) ++i;
    x("[");
    if (i < n) x_value("{:>8}", vf::value_at(i));
    else if (kind == 0) x_fmt("{:>8}", otherwise);
    else if (kind == 1) x_fmt("{:>8}", number);
    else x_fmt("{:>8}", real);
    x("]");
    vf_trace_eq("the attribute, or the default when there is none");
    vf_cover("reached");
}
// all attributes, in order
extern "C" void vf_main_leftover() {
    std::size_t n = vf_size("n", 0, 1 << 20), n2 = vf_size("n2", 0, 1 << 20);
    event e;
    make(e, n);
    second(e, n2);
    auto f = string_builder("{message}: {...}").build();
    run(*f, e);
    x(e.text); x(": ");
    for (std::size_t i = 0; i < n; ++i) {
        if (i) x(", ");
        x(sv_at("key", i)); x(": "); x_value("{}", vf::value_at(i));
    }
    for (std::size_t i = 0; i < n2; ++i) {
        if (n || i) x(", ");
        x(sv_at("second key", i)); x(": "); x_fmt("{}", sv_at("second value", i));
    }
    vf_trace_eq("every attribute once, in order, separated");
    vf_cover("reached");
}
extern "C" void vf_main_leftover_any() {
    std::size_t n = vf_size("n", 0, 1 << 20), n2 = vf_size("n2", 0, 1 << 20);
    event e;
    make(e, n);
    second(e, n2);
    string_view separator = sv("separator"), lit = sv("literal"), prefix = sv("prefix"), suffix = sv("suffix");
    fs::ph::leftover_t token;
    token.separator = std::string(separator.data(), separator.size());
    token.prefix = std::string(prefix.data(), prefix.size());
    token.suffix = std::string(suffix.data(), suffix.size());
    token.tokens.clear();
    token.tokens.push_back(fs::ph::attribute<fs::value>());
    token.tokens.push_back(fs::literal_t(std::string(lit.data(), lit.size())));
    token.tokens.push_back(fs::ph::attribute<fs::name>());
    tokens.leftover = &token;
    auto f = string_builder("{...:s}").build();
    run(*f, e);
    for (std::size_t i = 0; i < n; ++i) {
        x(i ? separator : prefix);
        x_value("{}", vf::value_at(i)); x(lit); x(sv_at("key", i));
    }
    for (std::size_t i = 0; i < n2; ++i) {
        x(n || i ? separator : prefix);
        x_fmt("{}", sv_at("second value", i)); x(lit); x(sv_at("second key", i));
    }
    if (n || n2) x(suffix);
    vf_trace_eq("every attribute once in the given pattern, separated");
    vf_cover("reached");
}
namespace {
void x_strftime(const char* pattern, time_t t, bool gmt) {
    struct tm tm;
    if (gmt) ::gmtime_r(&t, &tm); else ::localtime_r(&t, &tm);
    char buf[1024];
    std::size_t n = std::strftime(buf, sizeof buf, pattern, &tm);
    x(string_view(buf, n));
}
}
extern "C" void vf_main_timestamp() {
    event e;
    make(e, 0);
    static const char* PATTERN[] = {"{timestamp}", "{timestamp:s}", "{timestamp:l}", "{timestamp:{%H:%M %Z}s}", "{timestamp:{%H:%M %z}l}", "{timestamp:d}", "{timestamp:{%d}>8s}",
                                    "{timestamp:{%H}s} {timestamp:{%H%z}l} {timestamp:{%d}s}", "{timestamp:{%H}l} {timestamp:{%H}s}"};
    long c = vf_case("pattern", 0, 8);
    auto f = string_builder(PATTERN[c]).build();
    run(*f, e);
    switch (c) {
    case 0: case 1: case 2: x_strftime("%Y-%m-%d %H:%M:%S.", e.sec, c != 2); x_fmt("{:06d}", e.usec); break;
    case 3: x_strftime("%H:%M %Z", e.sec, true); break;
    case 4: x_strftime("%H:%M %z", e.sec, false); break;
    case 5: x_fmt("{}", e.sec * 1000000 + e.usec); break;
    case 7: x_strftime("%H", e.sec, true); x(" "); x_strftime("%H%z", e.sec, false); x(" "); x_strftime("%d", e.sec, true); break;
    case 8: x_strftime("%H", e.sec, false); x(" "); x_strftime("%H", e.sec, true); break;
    case 6: {
        time_t t = e.sec;
        struct tm tm;
        ::gmtime_r(&t, &tm);
        char buf[64];
        std::size_t k = std::strftime(buf, sizeof buf, "%d", &tm);
        x_fmt("{:>8s}", string_view(buf, k));
    }
    }
    vf_trace_eq("the time of the event, in UTC or local time");
    vf_cover("reached");
}
// a formatter holds no state: an event is shown the same whatever was formatted before
extern "C" void vf_main_again() {
    event e, e2;
    make(e, 0);
    e2.text = sv("second text");
    long sec = vf_int("second second", 0, 4000000000L), severity = vf_int("second severity", -2147483648L, 2147483647L), usec = vf_int("second microsecond", 0, 999999);
    e2.record.reset(new record_t((int)severity, e2.text, e2.pack));
    e2.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(sec * 1000000 + usec)));
    auto f = string_builder("{timestamp:{%H:%f}s} {severity} {message} {timestamp:{%z}l}").build();
    vf_share(f.get());
    run(*f, e);
    run(*f, e2);
    vf_unshare();
    x_strftime("%H:", e.sec, true); x_fmt("{:06d}", e.usec); x(" "); x_fmt("{}", (int)e.severity); x(" "); x(e.text); x(" "); x_strftime("%z", e.sec, false);
    x_strftime("%H:", sec, true); x_fmt("{:06d}", usec); x(" "); x_fmt("{}", (int)severity); x(" "); x(e2.text); x(" "); x_strftime("%z", sec, false);
    vf_trace_eq("the second event is shown like the first");
    vf_cover("reached");
}
// severities written by a mapping
extern "C" void vf_main_mapping() {
    event e;
    make(e, 0);
    string_view name = sv("name");
    auto f = string_builder("{severity}:{severity:d}:{severity:>7}").mapping([=](int severity, const std::string& spec, writer_t& w) {
        vf_ev("mapped", severity, 0, spec.data(), spec.size());
        w.write(spec, fmt::StringRef(name.data(), name.size()));
    }).build();
    run(*f, e);
    vf_ex("mapped", (int)e.severity, 0, "{}", 2);
    vf_ex("mapped", (int)e.severity, 0, "{:>7}", 5);
    x(name); x(":"); x_fmt("{}", (int)e.severity); x(":");
    x_fmt("{:>7}", name);
    vf_trace_eq("severities are written by the mapping, numbers as they are");
    vf_cover("reached");
}
// names of severities from a configuration
extern "C" void vf_main_config() {
    event e;
    make(e, 0);
    std::size_t n = vf_size("names", 0, 1 << 16);
    long has = vf_case("has names", 0, 1);
    cfg::entry items[] = {{"type", cfg::string("string")}, {"pattern", cfg::string("{severity} {severity:d}")}, {"sevmap", cfg::vector(n, [](std::size_t i) { return cfg::string(sv_at("severity name", i)); })}};
    auto f = factory<formatter::string_t>().from(cfg::node(cfg::object(items, has ? 3 : 2)));
    run(*f, e);
    if (has && e.severity >= 0 && (std::size_t)e.severity < n) x(sv_at("severity name", e.severity));
    else x_fmt("{}", (int)e.severity);
    x(" "); x_fmt("{}", (int)e.severity);
    vf_trace_eq("the configured name of the severity, or its number");
    vf_cover("reached");
}
extern "C" void vf_main_config_pattern() {
    bool thrown = false;
    cfg::entry items[] = {{"type", cfg::string("string")}, {"patterns", cfg::string("{message}")}};
    try { factory<formatter::string_t>().from(cfg::node(cfg::object(items, 2))); }
    catch (const std::invalid_argument&) { thrown = true; }
    vf_check(thrown, "a configuration without a pattern is refused");
    vf_cover("reached");
}
// literal text: anything but braces stands for itself
extern "C" void vf_rt_literal() {
    event e;
    make(e, 0);
    string_view a = sv("before"), b = sv("after");
    for (std::size_t i = 0; i < a.size(); ++i) vf_assume(a.data()[i] != '{' && a.data()[i] != '}');
    for (std::size_t i = 0; i < b.size(); ++i) vf_assume(b.data()[i] != '{' && b.data()[i] != '}');
    std::string pattern(a.data(), a.size());
    pattern += "{message:>30}";
    pattern.append(b.data(), b.size());
    auto f = string_builder(pattern).build();
    run(*f, e);
    x(a); x_fmt("{:>30}", e.text); x(b);
    vf_trace_eq("literal text is copied");
    vf_cover("reached");
}
// an attribute of a user's type is written as it shows itself
extern "C" void vf_main_user() {
    event e;
    make(e, 0);
    string_view t = sv("text of a"), t2 = sv("more");
    vf::printer a{t, t2};
    e.list.emplace_back("a", attribute::view_t(a));
    e.list.emplace_back("b", attribute::view_t(t2));
    static const char* PATTERN[] = {"{message} {a}/{b}", "{a:default(x)} {message}", "{message} {...}"};
    long c = vf_case("pattern", 0, 2);
    auto f = string_builder(PATTERN[c]).build();
    run(*f, e);
    switch (c) {
    case 0: x(e.text); x(" "); x(t); x(t2); x("/"); x(t2); break;
    case 1: x(t); x(t2); x(" "); x(e.text); break;
    case 2: x(e.text); x(" a: "); x(t); x(t2); x(", b: "); x(t2); break;
    }
    vf_trace_eq("an attribute is what it shows");
    vf_cover("reached");
}
// an attribute that formats another event with the same formatter while it is written
namespace {
struct again { formatter_t* f; const event* e; string_view text; };
}
namespace blackhole { inline namespace v1 {
template<>
struct display_traits<again> {
    static auto apply(const again& v, writer_t& w) -> void {
        w.inner << fmt::StringRef(v.text.data(), v.text.size());
        run(*v.f, *v.e);
    }
};
}}
extern "C" void vf_main_nested() {
    event e, e2;
    make(e, 0);
    e2.text = sv("second text");
    long severity = vf_int("second severity", -2147483648L, 2147483647L);
    e2.sec = vf_int("second second", 0, 4000000000L);
    e2.record.reset(new record_t((int)severity, e2.text, e2.pack));
    e2.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e2.sec * 1000000)));
    e2.list.emplace_back("a", attribute::view_t(7));
    e2.pack.emplace_back(e2.list);
    static const char* PATTERN[] = {"{severity} {timestamp:{%H:%M}s} {a} {message} {timestamp:{%d}l}", "{severity} {...} {message}"};
    long c = vf_case("pattern", 0, 1);
    auto f = string_builder(PATTERN[c]).build();
    string_view t = sv("text of a");
    again a{f.get(), &e2, t};
    e.list.emplace_back("a", attribute::view_t(a));
    run(*f, e);
    for (int i = 0; i < 2; ++i) {
        const event& o = i ? e : e2;
        x_fmt("{}", (int)(i ? e.severity : severity)); x(" ");
        if (c == 0) { x_strftime("%H:%M", o.sec, true); x(" "); } else x("a: ");
        if (i) x(t); else x("7");
        x(" "); x(o.text);
        if (c == 0) { x(" "); x_strftime("%d", o.sec, false); }
    }
    vf_trace_eq("the line of an event is its own, whatever is formatted in between");
    vf_cover("reached");
}
