// C25: development handler
#include "vf_stream.hpp"
#include "vf_registry.hpp"
#include "vf_throw.hpp"
#include "blackhole/handler/dev.hpp"
#include <ctime>
#include <iostream>
#include <pthread.h>
#include <unistd.h>
using namespace blackhole;
using vf::sv;
using vf::sv_at;
namespace cfg = vf::cfg;
typedef experimental::handler::dev_t dev;
// what the system says about the standard streams
extern "C" int isatty(int fd) noexcept { return (int)vf_int_at("tty", fd, 0, 1); }
namespace {
const char* EVENT = "time, severity, thread and process, text and every attribute, flushed";
const char* LOCK = "an event is written under one lock, the same for all of these handlers";
void x(const char* s) { vf_xout(s, __builtin_strlen(s)); }
template<class T> void x_fmt(const char* spec, T v) { fmt::MemoryWriter w; w.write(spec, v); vf_xout(w.data(), w.size()); }
void x_key(string_view v) { fmt::MemoryWriter w; w.write("    {:<16.16}: ", fmt::StringRef(v.data(), v.size())); vf_xout(w.data(), w.size()); }
bool tty() { return vf_int_at("tty", 1, 0, 1); }
void x_color(const char* c) { if (tty()) { x("\033["); x(c); x("m"); } }
struct event {
    int severity;
    long sec, usec;
    string_view message, text;
    attribute_list list[2];
    attribute_pack pack;
    std::unique_ptr<record_t> record;
    event() {}
};
void fill(attribute_list& list, std::size_t n, long from) {
    list.~attribute_list();
    vf::make_small(&list, n, [from](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("key", from + (long)i), vf::view(vf::value_at(from + (long)i)));
    });
}
const long SECOND = 1 << 21;
// an event with two lists of attributes
void make(event& e, std::size_t n, std::size_t m, int severity, long at = 0) {
    e.severity = severity;
    e.sec = vf_int_at("second", at, 0, 4000000000L);
    e.usec = vf_int_at("microsecond", at, 0, 999999);
    e.message = sv_at("message", at);
    e.text = sv_at("formatted", at);
    fill(e.list[0], n, 0);
    fill(e.list[1], m, SECOND);
    e.pack.emplace_back(e.list[0]);
    e.pack.emplace_back(e.list[1]);
    e.record.reset(new record_t(e.severity, e.message, e.pack));
    e.record->inner().formatted = e.text;
    e.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e.sec * 1000000 + e.usec)));
}
void x_head(const event& e) {
    x_color("2");
    struct tm tm;
    time_t t = e.sec;
    ::gmtime_r(&t, &tm);
    char buf[1024];
    std::size_t k = std::strftime(buf, sizeof buf, "%Y-%m-%d %H:%M:%S.", &tm);
    vf_xout(buf, k);
    x_fmt("{:06d}", e.usec);
    x(" ");
    switch (e.severity) {
    case 0: x_color("2"); x("D"); break;
    case 1: x_color("32"); x("I"); break;
    case 2: x_color("33"); x("W"); break;
    case 3: x_color("31"); x("E"); break;
    default: x_color("2"); x("T");
    }
    x(" "); x_fmt("{}", (unsigned long)pthread_self()); x("/"); x_fmt("{}", (int)getpid());
    x_color("0"); x_color("2");
    x(" - ");
    x_color("0");
    vf_xout(e.text.data(), e.text.size());
    x_color("0");
}
void newline() { x("\n"); vf::ex("flush"); }
void x_value(const vf::value_in& v) {
    switch (v.kind) {
    case 0: x("none"); break;
    case 1: x(v.num & 1 ? "1" : "0"); break;
    case 2: x_fmt("{}", (std::int64_t)v.num); break;
    case 3: x_fmt("{}", (std::uint64_t)v.num); break;
    case 4: x_fmt("{}", v.real()); break;
    default: vf_xout(v.text.data(), v.text.size());
    }
}
void x_attributes(std::size_t n, long from) {
    for (std::size_t i = 0; i < n; ++i) {
        newline();
        x_color("2");
        x_key(sv_at("key", from + (long)i));
        x_color("0");
        x_value(vf::value_at(from + (long)i));
    }
}
}
extern "C" void vf_main_event() {
    vf_stream(&std::cout);
    std::size_t n = vf_size("n", 0, 1 << 20), m = vf_size("m", 0, 1 << 20);
    event e;
    make(e, n, m, (int)vf_int("severity", -2147483648L, 2147483647L));
    auto h = builder<dev>().build();
    vf_share(h.get());
    h->handle(*e.record);
    vf_unshare();
    x_head(e);
    x_attributes(n, 0);
    x_attributes(m, SECOND);
    newline();
    vf_trace_eq(EVENT);
    vf_check(vf_atomic_output(), LOCK);
    vf_cover("reached");
}
// handlers hold no state and share their lock; what a configuration says makes no difference
extern "C" void vf_main_again() {
    vf_stream(&std::cout);
    vf::registry reg;
    cfg::entry items[] = {{"type", cfg::string("dev")}};
    auto a = builder<dev>().build();
    auto b = factory<dev>(reg).from(cfg::node(cfg::object(items, 1)));
    event e[3];
    for (int i = 0; i < 3; ++i) {
        make(e[i], i == 1 ? 1 : 0, 0, i == 1 ? 7 : i + 1, i);
        (i == 1 ? *b : *a).handle(*e[i].record);
        x_head(e[i]);
        x_attributes(i == 1 ? 1 : 0, 0);
        newline();
        vf_trace_eq(EVENT);
        vf_check(vf_atomic_output(), LOCK);
    }
    vf_cover("reached");
}
// a user's type is shown as it formats itself
extern "C" void vf_main_user() {
    vf_stream(&std::cout);
    event e;
    vf::printer p{sv("a"), sv("b")};
    string_view key = sv("name");
    e.severity = 1;
    e.sec = 0;
    e.usec = 0;
    e.message = sv("message");
    e.text = sv("formatted");
    e.list[0].emplace_back(key, p);
    e.pack.emplace_back(e.list[0]);
    e.record.reset(new record_t(e.severity, e.message, e.pack));
    e.record->inner().formatted = e.text;
    e.record->inner().timestamp = record_t::time_point();
    auto h = builder<dev>().build();
    h->handle(*e.record);
    x_head(e);
    newline();
    x_color("2"); x_key(key); x_color("0");
    vf_xout(p.a.data(), p.a.size());
    vf_xout(p.b.data(), p.b.size());
    newline();
    vf_trace_eq(EVENT);
    vf_check(vf_atomic_output(), LOCK);
    vf_cover("reached");
}
namespace { struct thrower {}; }
namespace blackhole { inline namespace v1 {
template<>
struct display_traits<thrower> {
    static auto apply(const thrower&, writer_t&) -> void { vf::fail(vf_case("thrown", 1, vf::THROWS)); }
};
}}
// an event whose attribute fails to format itself leaves no trace in the next one, and no lock
extern "C" void vf_main_throw() {
    vf_stream(&std::cout);
    auto h = builder<dev>().build();
    thrower p;
    string_view text = sv("text");
    attribute_list list;
    list.emplace_back("key", p);
    attribute_pack pack;
    pack.emplace_back(list);
    record_t record(1, text, pack);
    record.inner().formatted = text;
    record.inner().timestamp = record_t::time_point();
    try {
        h->handle(record);
    } catch (...) {
    }
    vf_check(vf_atomic_output(), LOCK);
    vf_forget();
    event e;
    make(e, 0, 0, 2);
    h->handle(*e.record);
    x_head(e);
    newline();
    vf_trace_eq(EVENT);
    vf_check(vf_atomic_output(), LOCK);
    vf_cover("reached");
}
