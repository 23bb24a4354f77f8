// C14: console sink
#include "vf_stream.hpp"
#include "vf_registry.hpp"
#include "blackhole/sink/console.hpp"
#include "blackhole/termcolor.hpp"
#include "src/sink/console.hpp"
#include <iostream>
using namespace blackhole;
using vf::sv;
namespace cfg = vf::cfg;
typedef builder<sink::console_t> console;
// what the system says about the standard streams
extern "C" int isatty(int fd) noexcept { return (int)vf_int_at("tty", fd, 0, 1); }
namespace {
const char* LINE = "the text and one newline, flushed";
int fd_of(bool err) { return err ? 2 : 1; }
termcolor_t color(long c) {
    switch (c) {
    case 1: return termcolor_t::gray();
    case 2: return termcolor_t::blue();
    case 3: return termcolor_t::green();
    case 4: return termcolor_t::yellow();
    case 5: return termcolor_t::red();
    }
    return termcolor_t();
}
const char* code(long c) {
    switch (c) {
    case 1: return "\033[2m";
    case 2: return "\033[34m";
    case 3: return "\033[32m";
    case 4: return "\033[33m";
    case 5: return "\033[31m";
    }
    return "";
}
void xout(const char* s) { vf_xout(s, __builtin_strlen(s)); }
void ex_line(string_view text, long c = 0) {
    xout(code(c));
    vf_xout(text.data(), text.size());
    if (c) xout("\033[0m");
    xout("\n");
    vf::ex("flush");
}
void emit(sink_t& s, int severity, string_view text) {
    attribute_pack pack;
    string_view raw = sv("message");
    record_t rec(severity, raw, pack);
    s.emit(rec, text);
}
void line_check() {
    vf_trace_eq(LINE);
    vf_check(vf_atomic_output(), "a line is written under one lock, the same for all console sinks");
}
struct ghost_filter : public filter_t {
    auto filter(const record_t& record) -> filter_t::action_t override {
        vf::ev("filter", record.severity());
        switch (vf_int_at("decision", record.severity(), 0, 2)) {
        case 0: return filter_t::action_t::neutral;
        case 1: return filter_t::action_t::accept;
        }
        return filter_t::action_t::deny;
    }
};
const long LO = -2147483648L, HI = 2147483647L;
}
// without configuration: plain text to the standard output, terminal or not
extern "C" void vf_main_default() {
    vf_stream(&std::cout);
    vf::registry reg;
    cfg::entry items[] = {{"type", cfg::string("console")}};
    auto a = console().build();
    auto b = factory<sink::console_t>(reg).from(cfg::node(cfg::object(items, 1)));
    for (int i = 0; i < 2; ++i) {
        auto text = vf::sv_at("text", i);
        emit(i ? *b : *a, (int)vf_int("severity", LO, HI), text);
        ex_line(text);
        line_check();
    }
    vf_cover("reached");
}
// a filter decides for each event
extern "C" void vf_main_filter() {
    vf_stream(&std::cout);
    sink::console_t s(std::unique_ptr<filter_t>(new ghost_filter));
    vf_share(&s);
    for (int i = 0; i < 3; ++i) {
        auto text = vf::sv_at("text", i);
        int sev = (int)vf_int_at("severity", i, LO, HI);
        emit(s, sev, text);
        vf::ex("filter", sev);
        if (vf_int_at("decision", sev, 0, 2) != 2) ex_line(text);
        line_check();
    }
    vf_unshare();
    vf_cover("reached");
}
// colours go to terminals only
extern "C" void vf_main_color() {
    bool err = vf_int("stderr", 0, 1);
    vf_stream(err ? &std::cerr : &std::cout);
    int red = (int)vf_int("first", LO, HI), other = (int)vf_int("second", LO, HI);
    long c1 = vf_case("first color", 0, 5), c2 = vf_case("second color", 0, 5);
    auto s = (err ? console().stderr() : console().stdout()).colorize(red, color(c1)).colorize(other, color(c2)).build();
    auto text = sv("text");
    int sev = (int)vf_int("severity", LO, HI);
    vf_share(s.get());
    emit(*s, sev, text);
    vf_unshare();
    // the one set last counts
    long c = sev == other ? c2 : sev == red ? c1 : 0;
    ex_line(text, vf_int_at("tty", fd_of(err), 0, 1) ? c : 0);
    line_check();
    vf_cover("reached");
}
// the stream chosen last counts; a mapping replaces the colours set before it and sees the event
extern "C" void vf_main_mapping() {
    bool err = vf_int("stderr", 0, 1);
    vf_stream(err ? &std::cerr : &std::cout);
    int sev = (int)vf_int("severity", LO, HI), set = (int)vf_int("set", LO, HI), later = (int)vf_int("later", LO, HI);
    long c = vf_case("color", 0, 5);
    console b;
    if (err) { b.stdout(); b.stderr(); } else { b.stderr(); b.stdout(); }
    b.colorize(set, termcolor_t::green());
    b.colorize([=](const record_t& r) -> termcolor_t {
        vf_check(r.severity() == sev, "the mapping is asked for the colour of the event");
        return color(c);
    });
    b.colorize(later, termcolor_t::blue());
    auto s = std::move(b).build();
    auto text = sv("text");
    emit(*s, sev, text);
    ex_line(text, vf_int_at("tty", fd_of(err), 0, 1) ? sev == later ? 2 : c : 0);
    line_check();
    vf_cover("reached");
}
// both streams, interleaved, share one lock; another stream is never a terminal
extern "C" void vf_main_streams() {
    auto out = console().stdout().colorize(1, termcolor_t::red()).build();
    auto err = console().stderr().colorize(1, termcolor_t::red()).build();
    vf::stream file;
    sink::console_t other(file, [](const record_t&) -> termcolor_t { return termcolor_t::red(); });
    auto text = sv("text");
    int sev = (int)vf_int("severity", LO, HI);
    emit(other, sev, text);
    ex_line(text);
    line_check();
    vf_stream(&std::cout);
    emit(*out, sev, text);
    ex_line(text, sev == 1 && vf_int_at("tty", 1, 0, 1) ? 5 : 0);
    line_check();
    vf_stream(&std::cerr);
    emit(*err, sev, text);
    ex_line(text, sev == 1 && vf_int_at("tty", 2, 0, 1) ? 5 : 0);
    line_check();
    vf_cover("reached");
}
