// C22: the logging facade hands the logger what it was given, and formats a message only when it is asked to
#include "vf_util.hpp"
#include "blackhole/extensions/facade.hpp"
#include "blackhole/extensions/metaformat.hpp"
#include "blackhole/scope/manager.hpp"
using namespace blackhole;
// how a user's type takes part in patterns parsed at compile time
namespace blackhole { inline namespace v1 { namespace detail {
template<>
struct format_traits<vf::printed> {
    static void format(fmt::MemoryWriter& w, const vf::printed& p) {
        vf::ev("formatted", 0, 0, p.s);
        w << fmt::StringRef(p.s.data(), p.s.size());
    }
};
}}}
using vf::ev;
using vf::ex;
using vf::sv;
namespace {
struct manager_mock : scope::manager_t {
    auto get() const -> scope::watcher_t* override { return nullptr; }
    auto reset(scope::watcher_t*) -> void override {}
};
// a logger that asks for the text of a lazy message or not
struct logger_mock : logger_t {
    bool accepts;
    const string_view* plain;
    manager_mock m;
    std::function<void()> meanwhile;   // what happens while the text is in use
    explicit logger_mock(bool a) : accepts(a) {}
    void attributes(const attribute_pack& pack) {
        long at = 0;
        for (const auto& l : pack) { vf::dump(l.get(), at); at += l.get().size(); }
    }
    auto log(severity_t s, const message_t& message) -> void override { ev("plain", int(s), 0, message); }
    auto log(severity_t s, const message_t& message, attribute_pack& pack) -> void override { ev("with", int(s), 0, message); attributes(pack); }
    auto log(severity_t s, const lazy_message_t& message, attribute_pack& pack) -> void override {
        ev("lazy", int(s), 0, message.pattern);
        if (accepts) {
            string_view text = message.supplier();
            if (meanwhile) {
                auto f = std::move(meanwhile);
                meanwhile = nullptr;
                f();
            }
            ev("text", 0, 0, text);
        }
        attributes(pack);
    }
    auto manager() -> scope::manager_t& override { return m; }
};
struct probe {
    logger_mock log; int severity;
    logger_facade<logger_mock> f;
    probe() : log(vf_int("accepts", 0, 1)), severity((int)vf_int("severity", -2147483648L, 2147483647L)), f(log) {}
};
string_view lit(const char* s) { return string_view(s, __builtin_strlen(s)); }
// the message is formatted once, when the logger asks for it
void x_text(const probe& p, const fmt::MemoryWriter& w, std::size_t users = 0, string_view s = string_view("", 0)) {
    if (!p.log.accepts) return;
    if (users) ex("formatted", 0, 0, s);
    ex("text", 0, 0, string_view(w.data(), w.size()));
}
}
extern "C" void vf_main_plain() {
    probe p;
    string_view message = sv("message");
    vf_check(&p.f.inner() == &p.log, "the facade logs to the logger it was made for");
    p.f.log(p.severity, message);
    ex("plain", p.severity, 0, message);
    vf_trace_eq("the message is passed on as it is");
    vf_cover("reached");
}
namespace {
void list(attribute_list& slot, std::size_t n) {
    slot.~attribute_list();
    vf::make_small(&slot, n, [](std::size_t i, void* slot) { new (slot) attribute_list::value_type(vf::sv_at("key", i), vf::view(vf::value_at(i))); });
}
void x_list(std::size_t n) { for (std::size_t i = 0; i < n; ++i) { ex("key", i, 0, vf::sv_at("key", i)); vf::ex_value(vf::value_at(i), i); } }
}
extern "C" void vf_main_attributes() {
    probe p;
    string_view message = sv("message");
    std::size_t n = vf_size("n", 0, 1 << 20);
    attribute_list attributes;
    list(attributes, n);
    p.f.log(p.severity, message, attributes);
    ex("with", p.severity, 0, message);
    x_list(n);
    vf_trace_eq("message and attributes are passed on as they are");
    vf_cover("reached");
}
// any pattern (without NUL), which is not necessarily followed by one
extern "C" void vf_main_pattern() {
    probe p;
    string_view pattern = vf_symbolic() ? vf::text("pattern") : lit("<{}>{:+d}");
    long a = vf_int("a", INT64_MIN, INT64_MAX);
    string_view s = sv("s");
    std::string text(s.data(), s.size());
    p.f.log(p.severity, pattern, text, a);
    ex("lazy", p.severity, 0, pattern);
    fmt::MemoryWriter w;
    w.write(std::string(pattern.data(), pattern.size()), text, a);
    x_text(p, w);
    vf_trace_eq("the text is that of the pattern and the arguments");
    vf_cover("reached");
}
extern "C" void vf_main_arguments() {
    probe p;
    long a = vf_int("a", INT64_MIN, INT64_MAX), b = vf_int("b", 0, INT64_MAX), way = vf_case("way", 0, 4);
    string_view s = sv("s");
    std::string text(s.data(), s.size());
    fmt::MemoryWriter w;
    // a part of a longer text: what follows does not belong to the pattern
    string_view pattern = way == 0 ? string_view("{} of {{{}}}!", 12) : way == 1 ? lit("{:x}") : way == 2 ? lit("{} {} {:>5d} {}") : lit("{}{}");
    switch (way) {
    case 0: p.f.log(p.severity, pattern, text, a); w << text << " of {" << a << "}"; break;
    case 1: p.f.log(p.severity, pattern, (unsigned)b); w.write("{:x}", (unsigned)b); break;
    case 2: p.f.log(p.severity, pattern, a, text, b, true); w << a << " " << text << " "; w.write("{:>5d}", b); w << " true"; break;
    case 3: p.f.log(p.severity, pattern, "first", text); w << "first" << text; break;
    case 4: p.f.log(p.severity, pattern, vf::printed{s}, a); w << text << a; break;
    }
    ex("lazy", p.severity, 0, pattern);
    x_text(p, w, way == 4, s);
    vf_trace_eq("the text is that of the pattern and the arguments");
    vf_cover("reached");
}
extern "C" void vf_main_arguments_attributes() {
    probe p;
    std::size_t n = vf_size("n", 0, 1 << 20);
    long a = vf_int("a", INT64_MIN, INT64_MAX), b = vf_int("b", 0, INT64_MAX), way = vf_case("way", 0, 3);
    string_view s = sv("s");
    std::string text(s.data(), s.size());
    attribute_list attributes;
    list(attributes, n);
    fmt::MemoryWriter w;
    string_view pattern = way == 0 ? string_view("{} of {{{}}}!", 12) : way == 1 ? lit("{:x}") : way == 2 ? lit("{} {} {:>5d}") : lit("{}");
    switch (way) {
    case 0: p.f.log(p.severity, pattern, text, a, attributes); w << text << " of {" << a << "}"; break;
    case 1: p.f.log(p.severity, pattern, (unsigned)b, attributes); w.write("{:x}", (unsigned)b); break;
    case 2: p.f.log(p.severity, pattern, a, text, b, attributes); w << a << " " << text << " "; w.write("{:>5d}", b); break;
    case 3: p.f.log(p.severity, pattern, vf::printed{s}, attributes); w << text; break;
    }
    ex("lazy", p.severity, 0, pattern);
    x_text(p, w, way == 3, s);
    x_list(n);
    vf_trace_eq("the text is that of the pattern and the arguments, the attributes are the last argument");
    vf_cover("reached");
}
// patterns parsed at compile time (the library wants an argument for each escaped brace as well and ignores those left over)
#define PARSED(s) blackhole::detail::formatter<blackhole::detail::literal_count(string_view(s, sizeof(s) - 1))>(string_view(s, sizeof(s) - 1))
extern "C" void vf_main_parsed() {
    probe p;
    long a = vf_int("a", INT64_MIN, INT64_MAX), b = vf_int("b", 0, INT64_MAX), way = vf_case("way", 0, 6);
    string_view s = sv("s");
    std::string text(s.data(), s.size());
    fmt::MemoryWriter w;
    switch (way) {
    case 0: { constexpr auto f = PARSED("{}"); p.f.log(p.severity, f, text); w << text; break; }
    case 1: { constexpr auto f = PARSED("a {} of {}!"); p.f.log(p.severity, f, a, text); w << "a " << a << " of " << text << "!"; break; }
    case 2: { constexpr auto f = PARSED("{{{}"); p.f.log(p.severity, f, b, a); w << "{" << b; break; }
    case 3: { constexpr auto f = PARSED("}}{}, {} and {}"); p.f.log(p.severity, f, a, text, b, a); w << "}" << a << ", " << text << " and " << b; break; }
    case 4: { constexpr auto f = PARSED("{}{}"); p.f.log(p.severity, f, b, a); w << b << a; break; }
    case 5: { constexpr auto f = PARSED("{{x}}{} "); p.f.log(p.severity, f, text, a, a); w << "{x}" << text << " "; break; }
    case 6: { constexpr auto f = PARSED("{} {}"); p.f.log(p.severity, f, a, vf::printed{s}); w << a << " " << text; break; }
    }
    ex("lazy", p.severity);
    x_text(p, w, way == 6, s);
    vf_trace_eq("the text is that of the pattern and the arguments");
    vf_cover("reached");
}
// a handler that logs by itself: the text of an event stays as it is while others are logged
extern "C" void vf_main_nested() {
    probe p;
    vf_assume(p.log.accepts);
    long a = vf_int("a", INT64_MIN, INT64_MAX), b = vf_int("b", INT64_MIN, INT64_MAX), way = vf_case("way", 0, 2);
    string_view s = sv("s"), t = sv("t");
    const std::string outer(s.data(), s.size()), inner(t.data(), t.size());
    attribute_list attributes;
    constexpr auto f = PARSED("{} of {}");
    string_view pattern = lit("{} of {}");
    auto log = [&](long number, const std::string& text) {
        switch (way) {
        case 0: p.f.log(p.severity, pattern, number, text); break;
        case 1: p.f.log(p.severity, pattern, number, text, attributes); break;
        case 2: p.f.log(p.severity, f, number, text); break;
        }
    };
    p.log.meanwhile = [&] { log(b, inner); };
    log(a, outer);
    fmt::MemoryWriter first, second;
    first << a << " of " << outer;
    second << b << " of " << inner;
    for (int i = 0; i < 2; ++i) ex("lazy", p.severity, 0, way == 2 ? string_view("", 0) : pattern);
    ex("text", 0, 0, string_view(second.data(), second.size()));
    ex("text", 0, 0, string_view(first.data(), first.size()));
    vf_trace_eq("the text of an event is its own");
    vf_cover("reached");
}
