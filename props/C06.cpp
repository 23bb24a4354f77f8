// C06: the TSKV formatter writes one escaped, tab separated key=value field per piece of data, in a fixed order
#include "vf_util.hpp"
#include "vf_cfg.hpp"
#include "blackhole/formatter/tskv.hpp"
#include "blackhole/config/node.hpp"
#include <ctime>
#include <unistd.h>
#include <pthread.h>
using namespace blackhole;
namespace cfg = vf::cfg;
using vf::sv;
using vf::sv_at;
namespace {
typedef builder<formatter::tskv_t> tskv_builder;
void x(const char* s) { vf_xout(s, __builtin_strlen(s)); }
// the escapes of the format, one byte at a time
void x_escaped(string_view v, bool key) {
    for (std::size_t i = 0; i != v.size(); ++i) {
        char c = v.data()[i];
        switch (c) {
        case '\a': x("\\a"); break;
        case '\b': x("\\b"); break;
        case '\t': x("\\t"); break;
        case '\n': x("\\n"); break;
        case '\v': x("\\v"); break;
        case '\f': x("\\f"); break;
        case '\r': x("\\r"); break;
        case 27: x("\\e"); break;
        case 0: x("\\0"); break;
        case '\\': x("\\\\"); break;
        case '=': x(key ? "\\=" : "="); break;
        default: vf_xout(&c, 1);
        }
    }
}
void x_writer(const fmt::MemoryWriter& w) { vf_xout(w.data(), w.size()); }
template<class T> void x_plain(T v) { fmt::MemoryWriter w; w.write("{}", v); x_escaped(string_view(w.data(), w.size()), false); }
template<class T> void x_number(const char* spec, T v) { fmt::MemoryWriter w; w.write(spec, v); x_writer(w); }
// a field whose name contains nothing to escape
void x_name(const char* key) { x("\t"); x(key); x("="); }
void x_value(const vf::value_in& v) {
    switch (v.kind) {
    case 0: x("none"); break;
    case 1: x(v.num & 1 ? "true" : "false"); break;
    case 2: x_plain((std::int64_t)v.num); break;
    case 3: x_plain((std::uint64_t)v.num); break;
    case 4: x_plain(v.real()); break;
    default: x_escaped(v.text, false);
    }
}
void x_strftime(const char* pattern, time_t t, bool gmt) {
    struct tm tm;
    if (gmt) ::gmtime_r(&t, &tm); else ::localtime_r(&t, &tm);
    char buf[1024];
    std::size_t n = std::strftime(buf, sizeof buf, pattern, &tm);
    std::string s(buf, n);
    x_escaped(string_view(s.data(), s.size()), false);
}
struct event {
    long severity, sec, usec;
    string_view text, a;
    long b;
    attribute_list list;
    attribute_pack pack;
    std::unique_ptr<record_t> record;
    event() {}
};
// an event with n attributes
void make(event& e, std::size_t n, bool texts = false) {
    e.severity = vf_int("severity", -2147483648L, 2147483647L);
    e.sec = vf_int("second", 0, 4000000000L);
    e.usec = vf_int("microsecond", 0, 999999);
    e.text = sv("text");
    e.list.~attribute_list();
    vf::make_small(&e.list, n, texts ? [](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("key", i), attribute::view_t(sv_at("value", i)));
    } : [](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("key", i), vf::view(vf::value_at(i)));
    });
    e.pack.emplace_back(e.list);
    e.record.reset(new record_t((int)e.severity, e.text, e.pack));
    e.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e.sec * 1000000 + e.usec)));
}
void run(formatter_t& f, const event& e) {
    writer_t w;
    f.format(*e.record, w);
    vf_out(w.inner.data(), w.inner.size());
}
void x_attributes(std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) {
        x("\t"); x_escaped(sv_at("key", i), true); x("=");
        x_value(vf::value_at(i));
    }
}
}
extern "C" void vf_main_default() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    event e;
    make(e, n);
    auto f = tskv_builder().build();
    vf_share(f.get());
    run(*f, e);
    vf_unshare();
    x("tskv");
    x_name("timestamp"); x_strftime("%Y-%m-%d %H:%M:%S %z", e.sec, true);
    x_name("severity"); x_number("{}", (int)e.severity);
    x_name("pid"); x_number("{}", (unsigned long)getpid());
    x_name("tid"); x_number("{:#x}", (unsigned long)pthread_self());
    x_name("message"); x_escaped(e.text, false);
    x_attributes(n);
    vf_trace_eq("the line is made of the fields in order, keys and values escaped");
    vf_cover("reached");
}
namespace {
const char* NAMES[] = {"timestamp", "severity", "pid", "tid", "message", "a", "b", "c"};
// an event with attributes a and b
void make_ab(event& e) {
    e.severity = vf_int("severity", -2147483648L, 2147483647L);
    e.sec = vf_int("second", 0, 4000000000L);
    e.usec = vf_int("microsecond", 0, 999999);
    e.text = sv("text");
    e.list.emplace_back("a", attribute::view_t(e.a = sv("text of a")));
    e.list.emplace_back("b", attribute::view_t(e.b = vf_int("number of b", INT64_MIN, INT64_MAX)));
    e.pack.emplace_back(e.list);
    e.record.reset(new record_t((int)e.severity, e.text, e.pack));
    e.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e.sec * 1000000 + e.usec)));
}
// the field `i` of NAMES, unless it is removed, under the name it was given
void x_field(const event& e, long i, long removed, long renamed, string_view to, string_view constant) {
    if (i == removed) return;
    x("\t");
    if (i == renamed) x_escaped(to, true); else x(NAMES[i]);
    x("=");
    switch (i) {
    case 0: x_strftime("%Y-%m-%d %H:%M:%S %z", e.sec, true); break;
    case 1: x_number("{}", (int)e.severity); break;
    case 2: x_number("{}", (unsigned long)getpid()); break;
    case 3: x_number("{:#x}", (unsigned long)pthread_self()); break;
    case 4: x_escaped(e.text, false); break;
    case 5: x_escaped(e.a, false); break;
    case 6: x_plain(e.b); break;
    case 7: x_escaped(constant, false); break;
    }
}
void x_line(const event& e, long removed, long renamed, string_view to, string_view constant) {
    x("tskv");
    x_field(e, 7, removed, renamed, to, constant);
    for (long i = 0; i < 7; ++i) x_field(e, i, removed, renamed, to, constant);
}
std::string str(string_view s) { return std::string(s.data(), s.size()); }
void mutate(long removed, long renamed) {
    event e;
    make_ab(e);
    string_view constant = sv("constant"), to = sv("to");
    tskv_builder b;
    b.create("c", str(constant));
    if (removed < 8) b.remove(NAMES[removed]);
    if (renamed < 8) b.rename(NAMES[renamed], str(to));
    auto f = std::move(b).build();
    run(*f, e);
    x_line(e, removed, renamed, to, constant);
}
}
// any field can be removed
extern "C" void vf_main_remove() {
    long r = vf_case("removed", 0, 8);
    mutate(r, 8);
    vf_trace_eq("a removed field is left out, and only that one");
    vf_cover("reached");
}
// any field can be given another name
extern "C" void vf_main_rename() {
    long r = vf_case("renamed", 0, 7);
    mutate(8, r);
    vf_trace_eq("a renamed field is written under its new name, and only that one");
    vf_cover("reached");
}
extern "C" void vf_main_remove_rename() {
    long r = vf_case("renamed", 0, 7), d = vf_case("other", 0, 1);
    mutate(d ? (r + 1) % 8 : r, r);
    vf_trace_eq("fields are removed and renamed by their own names");
    vf_cover("reached");
}
// constants are ordered by name; the last value given for a name counts
extern "C" void vf_main_create() {
    event e;
    make(e, 0);
    string_view v1 = sv("first"), v2 = sv("second value"), v3 = sv("third");
    auto f = tskv_builder().create("y", str(v1)).create("x", str(v2)).create("y", str(v3)).build();
    run(*f, e);
    x("tskv");
    x_name("x"); x_escaped(v2, false);
    x_name("y"); x_escaped(v3, false);
    for (long i = 0; i < 5; ++i) x_field(e, i, 8, 8, v1, v1);
    vf_trace_eq("constants come first, ordered by name");
    vf_cover("reached");
}
// a removed name the formatter knows nothing about in advance
extern "C" void vf_main_remove_any() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    event e;
    make(e, n, true);
    string_view name = sv("removed");
    // (a name that is ordered before or after all the predefined ones)
    vf_assume(name.size() > 0);
    unsigned char c = name.data()[0];
    if (vf_case("before", 0, 1)) vf_assume(c < 'm'); else vf_assume(c > 't');
    auto f = tskv_builder().remove(str(name)).build();
    run(*f, e);
    x("tskv");
    for (long i = 0; i < 5; ++i) x_field(e, i, 8, 8, name, name);
    for (std::size_t i = 0; i < n; ++i) {
        string_view key = sv_at("key", i);
        if (key == name) continue;
        x("\t"); x_escaped(key, true); x("=");
        x_escaped(sv_at("value", i), false);
    }
    vf_trace_eq("exactly the attributes with the removed name are left out");
    vf_cover("reached");
}
// timestamp fields: ordered by name, each with its own pattern, in UTC or local time
extern "C" void vf_main_timestamps() {
    event e;
    make(e, 0);
    long which = vf_case("which", 0, 3);
    tskv_builder b;
    if (which & 1) b.timestamp("timestamp", "%H:%M", false);
    if (which & 2) b.timestamp("at", "%Y\t%d=");
    auto f = std::move(b).build();
    vf_share(f.get());
    run(*f, e);
    vf_unshare();
    x("tskv");
    if (which & 2) { x_name("at"); x_strftime("%Y\t%d=", e.sec, true); }
    x_name("timestamp");
    if (which & 1) x_strftime("%H:%M", e.sec, false); else x_strftime("%Y-%m-%d %H:%M:%S %z", e.sec, true);
    for (long i = 1; i < 5; ++i) x_field(e, i, 8, 8, e.text, e.text);
    vf_trace_eq("timestamps are written by name, each formatted by its pattern in its time zone");
    vf_cover("reached");
}
// the formatter described by a configuration
extern "C" void vf_main_config() {
    event e;
    make_ab(e);
    string_view constant = sv("constant"), to = sv("to");
    long n = vf_case("n", 1, 5), r = n > 2 ? 2 * vf_case("field", 1, 3) : 1, gm = n > 4 ? vf_case("gmtime", 0, 2) : 0;
    cfg::entry create[] = {{"c", cfg::string(constant)}};
    cfg::entry rename[] = {{NAMES[r], cfg::string(to)}};
    cfg::entry how[] = {{"strftime", cfg::string("%H:%M")}, {"gmtime", cfg::boolean(gm == 1)}};
    cfg::entry mutate[] = {{"timestamp", cfg::object(how, gm ? 2 : 1)}};
    cfg::entry remove[] = {{"", cfg::string(NAMES[r % 6 + 1])}};
    cfg::entry items[] = {{"type", cfg::string("tskv")}, {"create", cfg::object(create, 1)}, {"rename", cfg::object(rename, 1)},
        {"remove", cfg::vector(remove, 1)}, {"mutate", cfg::object(mutate, 1)}};
    auto f = factory<formatter::tskv_t>().from(cfg::node(cfg::object(items, n)));
    run(*f, e);
    x("tskv");
    long renamed = n > 2 ? r : 8, removed = n > 3 ? r % 6 + 1 : 8;
    if (n > 1) x_field(e, 7, removed, renamed, to, constant);
    x_name("timestamp");
    if (n > 4) x_strftime("%H:%M", e.sec, gm != 2); else x_strftime("%Y-%m-%d %H:%M:%S %z", e.sec, true);
    for (long i = 1; i < 7; ++i) x_field(e, i, removed, renamed, to, constant);
    vf_trace_eq("the configured mutations are the ones applied");
    vf_cover("reached");
}
// an attribute of a user's type is written as it shows itself, with the escapes of any other
extern "C" void vf_main_user() {
    event e;
    make(e, 0);
    string_view t = sv("text of a"), t2 = sv("more");
    vf::printer a{t, t2};
    e.list.emplace_back("a", attribute::view_t(a));
    e.list.emplace_back("b", attribute::view_t(t2));
    auto f = tskv_builder().build();
    run(*f, e);
    x("tskv");
    x_name("timestamp"); x_strftime("%Y-%m-%d %H:%M:%S %z", e.sec, true);
    x_name("severity"); x_number("{}", (int)e.severity);
    x_name("pid"); x_number("{}", (unsigned long)getpid());
    x_name("tid"); x_number("{:#x}", (unsigned long)pthread_self());
    x_name("message"); x_escaped(e.text, false);
    std::string all = str(t) + str(t2);
    x_name("a"); x_escaped(string_view(all.data(), all.size()), false);
    x_name("b"); x_escaped(t2, false);
    vf_trace_eq("what an attribute shows is escaped");
    vf_cover("reached");
}
// an attribute that formats another event with the same formatter while it is written
namespace {
struct again { formatter_t* f; const event* e; string_view text; };
}
namespace blackhole { inline namespace v1 {
template<>
struct display_traits<again> {
    static auto apply(const again& v, writer_t& w) -> void {
        w.inner << fmt::StringRef(v.text.data(), v.text.size());
        run(*v.f, *v.e);
    }
};
}}
extern "C" void vf_main_nested() {
    event e, e2;
    make(e, 0);
    e2.text = sv("second text");
    long severity = vf_int("second severity", -2147483648L, 2147483647L);
    e2.sec = vf_int("second second", 0, 4000000000L);
    e2.record.reset(new record_t((int)severity, e2.text, e2.pack));
    e2.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e2.sec * 1000000)));
    auto f = tskv_builder().create("c", "constant").rename("a", "d").build();
    string_view t = sv("text of a");
    again a{f.get(), &e2, t};
    e.list.emplace_back("a", attribute::view_t(a));
    run(*f, e);
    for (int i = 0; i < 2; ++i) {
        x("tskv");
        x_name("c"); x("constant");
        x_name("timestamp"); x_strftime("%Y-%m-%d %H:%M:%S %z", i ? e.sec : e2.sec, true);
        x_name("severity"); x_number("{}", (int)(i ? e.severity : severity));
        x_name("pid"); x_number("{}", (unsigned long)getpid());
        x_name("tid"); x_number("{:#x}", (unsigned long)pthread_self());
        x_name("message"); x_escaped(i ? e.text : e2.text, false);
        if (i) { x_name("d"); x_escaped(t, false); }
    }
    vf_trace_eq("the line of an event is its own, whatever is formatted in between");
    vf_cover("reached");
}
