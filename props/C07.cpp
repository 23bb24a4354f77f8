// C07: the JSON formatter writes one object holding every datum of the event once, under its name, at its route
#include "vf_util.hpp"
#include "vf_cfg.hpp"
#include "blackhole/formatter/json.hpp"
#include "blackhole/config/node.hpp"
#include <cmath>
#include <ctime>
#include <unistd.h>
#include <pthread.h>
#define RAPIDJSON_HAS_STDSTRING 1
#include <rapidjson/document.h>
#include <rapidjson/pointer.h>
using namespace blackhole;
namespace cfg = vf::cfg;
using vf::ev;
using vf::ex;
namespace {
// rapidjson counts the bytes of a text in 32 bits
string_view sv(const char* label) { string_view s = vf::sv(label); vf_assume(s.size() < 4294967296); return s; }
string_view sv_at(const char* label, long i) { string_view s = vf::sv_at(label, i); vf_assume(s.size() < 4294967296); return s; }
vf::value_in value_at(long i) { vf::value_in v = vf::value_at(i); vf_assume(v.text.size() < 4294967296); return v; }
typedef builder<formatter::json_t> json_builder;
typedef rapidjson::Value value_type;
typedef rapidjson::Pointer pointer_type;
// The places of the document that an entry uses.  The verifier takes the document tree by contract (below): a place
// is then this node, or the root; a native run reads the text that was written back instead.
struct places {
    const char* path[4];
    long n;
    value_type* node[4];
    bool keep;          // look at the members when the document is written, as rapidjson does, instead of at once
    long kept;
    struct { long place; const char* name; std::size_t n; alignas(value_type) char value[sizeof(value_type)]; } member[24];
} P;
void use_places(long n, const char* a = "", const char* b = "", const char* c = "", const char* d = "") {
    P.n = n;
    P.keep = false;
    P.kept = 0;
    P.path[0] = a; P.path[1] = b; P.path[2] = c; P.path[3] = d;
    for (long i = 0; i < 4; ++i) P.node[i] = nullptr;
}
void show(long place, string_view name, const value_type& v) {
    ev("member", place, 0, name);
    if (v.IsNull()) ev("null");
    else if (v.IsBool()) ev("boolean", v.GetBool());
    else if (v.IsInt64()) ev("integer", v.GetInt64() < 0, v.GetInt64());
    else if (v.IsUint64()) ev("integer", 0, (long)v.GetUint64());
    else if (v.IsDouble()) ev("real", vf::bits(v.GetDouble()));
    else if (v.IsString()) ev("string", 0, 0, string_view(v.GetString(), v.GetStringLength()));
    else vf_check(0, "a member is a scalar");
}
}
// Contract of rapidjson's document tree: GetWithDefault returns the node at the place of the pointer, made as an empty
// object when there was none, and AddMember appends one member to it.
extern "C" void* vf_contract_get(const pointer_type* p, value_type* root, const value_type* def, void*) {
    vf_check(def->IsObject() && def->MemberCount() == 0, "a missing place becomes an empty object");
    for (long i = 0; i < P.n; ++i)
        if (*p == pointer_type(P.path[i], __builtin_strlen(P.path[i]))) {
            if (p->GetTokenCount() == 0) P.node[i] = root;
            else if (!P.node[i]) P.node[i] = new value_type(rapidjson::kObjectType);
            return P.node[i];
        }
    vf_check(0, "members go to a configured place");
    return root;
}
extern "C" void* vf_contract_add(value_type* self, const value_type* name, const value_type* v, void*) {
    for (long i = 0; i < P.n; ++i)
        if (self == P.node[i]) {
            if (P.keep) {
                auto& m = P.member[P.kept++];
                m.place = i; m.name = name->GetString(); m.n = name->GetStringLength();
                __builtin_memcpy(m.value, v, sizeof *v);
            } else show(i, string_view(name->GetString(), name->GetStringLength()), *v);
            return self;
        }
    vf_check(0, "members go to a configured place");
    return self;
}
extern "C" void* vf_contract_begin(const value_type* self) {
    for (long i = 0; i < P.kept; ++i)
        show(P.member[i].place, string_view(P.member[i].name, P.member[i].n), *reinterpret_cast<value_type*>(P.member[i].value));
    P.kept = 0;
    return self->GetMembersPointer();
}
// Contract of std::set<string_view>: insert tells whether the key is not among the ones inserted before, here any answer
// (every set made has a number, which it keeps)
struct { long inserted, sets; } S;
extern "C" void vf_contract_set(void* self) { *static_cast<long*>(self) = S.sets++; }
extern "C" void vf_contract_unset(void*) {}
struct inserted { void* where; bool fresh; };
extern "C" inserted vf_contract_insert(void* self, const string_view* key) {
    ev("insert", *static_cast<long*>(self), 0, *key);
    return inserted{nullptr, bool(vf_int_at("fresh", S.inserted++, 0, 1))};
}
// Contract of a value made from a text and an allocator: it has its own copy of the text
extern "C" void vf_contract_copy(value_type* self, const value_type::StringRefType* text, void*) {
    auto s = new std::string(text->s, text->length);
    self->SetStringRaw(rapidjson::StringRef(s->data(), s->size()));
}
namespace {
struct event {
    long severity, sec, usec;
    string_view text;
    attribute_list list, list2;
    attribute_pack pack;
    std::unique_ptr<record_t> record;
    event() {}
};
void finish(event& e) {
    e.record.reset(new record_t((int)e.severity, e.text, e.pack));
    e.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e.sec * 1000000 + e.usec)));
    e.record->activate(e.text);
    e.record->inner().timestamp = record_t::time_point(std::chrono::duration_cast<record_t::time_point::duration>(std::chrono::microseconds(e.sec * 1000000 + e.usec)));
}
void begin(event& e) {
    e.severity = vf_int("severity", -2147483648L, 2147483647L);
    e.sec = vf_int("second", 0, 4000000000L);
    e.usec = vf_int("microsecond", 0, 999999);
    e.text = sv("text");
}
void make(event& e, std::size_t n) {
    begin(e);
    e.list.~attribute_list();
    vf::make_small(&e.list, n, [](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("key", i), vf::view(value_at(i)));
    });
    e.pack.emplace_back(e.list);
    finish(e);
}
void second(event& e, std::size_t n) {
    e.list2.~attribute_list();
    vf::make_small(&e.list2, n, [](std::size_t i, void* slot) {
        new (slot) attribute_list::value_type(sv_at("second key", i), attribute::view_t(sv_at("second value", i)));
    });
    e.pack.emplace_back(e.list2);
}
// what the formatter writes: the members in the document tree and the text around them
void run(formatter_t& f, const event& e, bool newline = false) {
    writer_t w;
    f.format(*e.record, w);
    if (vf_symbolic()) {
        vf_out(w.inner.data(), w.inner.size());
        return;
    }
    std::size_t n = w.inner.size();
    if (newline && n && w.inner.data()[n - 1] == '\n') --n;
    rapidjson::Document d;
    d.Parse<rapidjson::kParseFullPrecisionFlag>(std::string(w.inner.data(), n));
    vf_check(!d.HasParseError() && d.IsObject(), "the text is one JSON object");
    if (d.HasParseError() || !d.IsObject()) return;
    for (long i = 0; i < P.n; ++i) {
        value_type* v = pointer_type(P.path[i], __builtin_strlen(P.path[i])).Get(d);
        if (!v || !v->IsObject()) continue;
        for (auto m = v->MemberBegin(); m != v->MemberEnd(); ++m)
            if (!m->value.IsObject())       // (an object is on the way to a place)
                show(i, string_view(m->name.GetString(), m->name.GetStringLength()), m->value);
    }
    vf_out(w.inner.data(), 1);
    vf_out(w.inner.data() + n - 1, w.inner.size() - n + 1);
}
void x(const char* s) { vf_xout(s, __builtin_strlen(s)); }
// what is expected, place by place in a native run
void x_name(const char* name, long place = 0) { ex("member", place, 0, string_view(name, __builtin_strlen(name))); }
void x_text(string_view s) { ex("string", 0, 0, s); }
void x_int(long v) { ex("integer", v < 0, v); }
void x_uint(unsigned long v) { ex("integer", 0, (long)v); }
template<class T> void x_fmt(const char* spec, const T& v) { fmt::MemoryWriter w; w.write(spec, v); x_text(string_view(w.data(), w.size())); }
void x_fmt(const char* spec, string_view v) { x_fmt(spec, fmt::StringRef(v.data(), v.size())); }
void x_value(const vf::value_in& v) {
    switch (v.kind) {
    case 0: ex("null"); break;
    case 1: ex("boolean", v.num & 1); break;
    case 2: x_int(v.num); break;
    case 3: x_uint((unsigned long)v.num); break;
    // JSON has no notation for infinities and NaN
    case 4: if (std::isfinite(v.real())) ex("real", vf::bits(v.real())); else ex("null"); break;
    default: x_text(v.text);
    }
}
void x_strftime(const char* pattern, time_t t) {
    struct tm tm;
    ::gmtime_r(&t, &tm);
    char buf[1024];
    std::size_t n = std::strftime(buf, sizeof buf, pattern, &tm);
    std::string s(buf, n);
    x_text(string_view(s.data(), s.size()));
}
const char* NAMES[] = {"message", "lwp", "thread", "process", "severity", "timestamp"};
void x_field(const event& e, long i) {
    switch (i) {
    case 0: x_text(e.text); break;
    case 1: x_uint(e.record->lwp()); break;
    case 2: x_fmt("{:#x}", (unsigned long)pthread_self()); break;
    case 3: x_uint((unsigned long)getpid()); break;
    case 4: x_int(e.severity); break;
    case 5: x_int(e.sec * 1000000 + e.usec); break;
    }
}
void x_fields(const event& e) {
    for (long i = 0; i < 6; ++i) { x_name(NAMES[i]); x_field(e, i); }
}
std::string str(string_view s) { return std::string(s.data(), s.size()); }
}
extern "C" void vf_main_default() {
    std::size_t n = vf_size("n", 0, 1 << 20), n2 = vf_size("n2", 0, 1 << 20);
    use_places(1, "");
    event e;
    make(e, n);
    second(e, n2);
    auto f = json_builder().build();
    run(*f, e);
    x_fields(e);
    for (std::size_t i = 0; i < n; ++i) {
        ex("member", 0, 0, sv_at("key", i)); x_value(value_at(i));
    }
    for (std::size_t i = 0; i < n2; ++i) {
        ex("member", 0, 0, sv_at("second key", i)); x_text(sv_at("second value", i));
    }
    x("{}");
    vf_trace_eq("every field and attribute is one member of the object, with its name and value");
    vf_cover("reached");
}

// a line break is written after the object, and only when asked for
extern "C" void vf_main_newline() {
    use_places(1, "");
    P.keep = true;
    event e;
    make(e, 0);
    long how = vf_case("newline", 0, 2);
    json_builder b;
    if (how == 1) b.newline();
    auto f = how == 2 ? json_builder().newline().build() : std::move(b).build();
    run(*f, e, how != 0);
    x_fields(e);
    x(how ? "{}\n" : "{}");
    vf_trace_eq("the object is followed by a line break when configured");
    vf_cover("reached");
}
// nothing of an event is left for the next one
extern "C" void vf_main_again() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    use_places(1, "");
    event e, e2;
    make(e, n);
    auto f = json_builder().build();
    vf_share(f.get());
    run(*f, e);
    e2.severity = vf_int("second severity", -2147483648L, 2147483647L);
    e2.sec = vf_int("other second", 0, 4000000000L);
    e2.usec = 7;
    e2.text = sv("second text");
    finish(e2);
    use_places(1, "");
    run(*f, e2);
    vf_unshare();
    x_fields(e);
    for (std::size_t i = 0; i < n; ++i) {
        ex("member", 0, 0, sv_at("key", i)); x_value(value_at(i));
    }
    x("{}");
    x_fields(e2);
    x("{}");
    vf_trace_eq("every event makes its own object");
    vf_cover("reached");
}
extern "C" void vf_main_severity() {
    use_places(1, "");
    P.keep = true;
    event e;
    begin(e);
    long n = vf_case("names", 0, 3), which = vf_case("which", 0, 3), last = vf_case("set twice", 0, 1);
    std::vector<std::string> names;
    string_view name[3] = {sv("name 0"), sv("name 1"), sv("name 2")};
    for (long i = 0; i < n; ++i) names.push_back(str(name[i]));
    if (which < n) e.severity = which; else vf_assume(e.severity < 0 || e.severity >= n);
    finish(e);
    json_builder b;
    if (last) b.severity({"x", "y", "z", "w"});
    b.severity(names);
    auto f = std::move(b).build();
    run(*f, e);
    for (long i = 0; i < 6; ++i) {
        x_name(NAMES[i]);
        if (i == 4 && which < n) x_text(name[which]); else x_field(e, i);
    }
    x("{}");
    vf_trace_eq("a severity is written by its name when it has one, else as its number");
    vf_cover("reached");
}
extern "C" void vf_main_timestamp() {
    use_places(1, "");
    P.keep = true;
    event e;
    make(e, 0);
    long how = vf_case("pattern", 0, 2);
    const char* patterns[] = {"%Y-%m-%d %H:%M:%S", "%H:%M \"%j\"", "%d.%f"};
    auto f = json_builder().timestamp(patterns[how]).build();
    run(*f, e);
    for (long i = 0; i < 6; ++i) {
        x_name(NAMES[i]);
        if (i != 5) { x_field(e, i); continue; }
        if (how < 2) { x_strftime(patterns[how], e.sec); continue; }
        struct tm tm;
        time_t t = e.sec;
        ::gmtime_r(&t, &tm);
        fmt::MemoryWriter w;
        char buf[1024];
        std::size_t n = std::strftime(buf, sizeof buf, "%d.", &tm);
        w << fmt::StringRef(buf, n);
        w.write("{:06d}", e.usec);
        x_text(string_view(w.data(), w.size()));
    }
    x("{}");
    vf_trace_eq("the timestamp is the UTC time of the event by the configured pattern");
    vf_cover("reached");
}
namespace {
// attributes a, b, c
struct abc { string_view a, c; long b; };
abc make_abc(event& e) {
    abc v;
    begin(e);
    e.list.emplace_back("a", attribute::view_t(v.a = sv("text of a")));
    e.list.emplace_back("b", attribute::view_t(v.b = vf_int("number of b", INT64_MIN, INT64_MAX)));
    e.list2.emplace_back("c", attribute::view_t(v.c = sv("text of c")));
    e.pack.emplace_back(e.list);
    e.pack.emplace_back(e.list2);
    finish(e);
    return v;
}
const char* ALL[] = {"message", "lwp", "thread", "process", "severity", "timestamp", "a", "b", "c"};
void x_datum(const event& e, const abc& v, long i) {
    switch (i) {
    case 6: x_text(v.a); break;
    case 7: x_int(v.b); break;
    case 8: x_text(v.c); break;
    default: x_field(e, i);
    }
}
// the route of every datum: every place in turn in a native run
template<class Route, class Write> void x_routed(const Route& route, const Write& write) {
    for (long pass = 0; pass < (vf_symbolic() ? 1 : P.n); ++pass)
        for (long i = 0; i < 9; ++i)
            if (vf_symbolic() || route(i) == pass) write(i, route(i));
}
}
// every datum goes to its route
namespace {
void routes(long first, long rest) {
    use_places(3, "", "/fields", "/a b/inner");
    P.keep = true;
    event e;
    abc v = make_abc(e);
    long second = (first + 3 + first % 2) % 9;
    json_builder b;
    if (rest == 1) b.route("/fields");
    b.route("/fields", {ALL[first]});
    b.route("/a b/inner", {ALL[second], "unused"});
    if (rest == 2) { b.route(""); b.route("/a b/inner"); }
    auto f = std::move(b).build();
    run(*f, e);
    x_routed([&](long i) { return i == first ? 1 : i == second ? 2 : rest; },
             [&](long i, long place) { x_name(ALL[i], place); x_datum(e, v, i); });
    x("{}");
    vf_trace_eq("every datum is at the route given for its name, all others at the route for the rest");
    vf_cover("reached");
}
}
extern "C" void vf_main_routes() { routes(vf_case("first", 0, 8), 0); }
extern "C" void vf_main_routes_rest() { routes(vf_case("first", 0, 1) * 8, vf_case("rest", 1, 2)); }
// every datum can be renamed; its route and format are found by its own name
extern "C" void vf_main_rename() {
    use_places(2, "", "/fields");
    P.keep = true;
    event e;
    abc v = make_abc(e);
    long i0 = vf_case("renamed", 0, 8), i1 = (i0 + 3) % 9;
    string_view to = sv("to");
    json_builder b;
    b.rename(ALL[i0], str(to));
    b.rename(ALL[i1], ALL[i0]);
    b.route("/fields", {ALL[i0]});
    auto f = std::move(b).build();
    run(*f, e);
    x_routed([&](long i) { return i == i0 ? 1 : 0; }, [&](long i, long place) {
        if (i == i0) ex("member", place, 0, to); else x_name(ALL[i == i1 ? i0 : i], place);
        x_datum(e, v, i);
    });
    x("{}");
    vf_trace_eq("renamed data appear under the new name, at their own route");
    vf_cover("reached");
}
// a datum with a format becomes the text of that format
extern "C" void vf_main_format() {
    use_places(1, "");
    P.keep = true;
    event e;
    abc v = make_abc(e);
    long k = vf_case("formatted", 0, 8), number = k == 1 || k == 3 || k == 4 || k == 5 || k == 7;
    const char* spec = number ? "{:>8d}" : "<{:10s}>";
    if (!number) {
        fmt::MemoryWriter w;
        fmt::MemoryWriter hex;
        hex.write("{:#x}", (unsigned long)pthread_self());
        string_view t = k == 0 ? e.text : k == 6 ? v.a : k == 8 ? v.c : string_view(hex.data(), hex.size());
        w.write(spec, fmt::StringRef(t.data(), t.size()));
        vf_assume(w.size() < 4294967296);
    }
    auto f = json_builder().format(ALL[k], spec).rename(ALL[k], "x").build();
    run(*f, e);
    for (long i = 0; i < 9; ++i) {
        if (i != k) { x_name(ALL[i]); x_datum(e, v, i); continue; }
        x_name("x");
        switch (i) {
        case 0: x_fmt(spec, e.text); break;
        case 1: x_fmt(spec, e.record->lwp()); break;
        case 2: { fmt::MemoryWriter w; w.write("{:#x}", (unsigned long)pthread_self()); x_fmt(spec, fmt::StringRef(w.data(), w.size())); break; }
        case 3: x_fmt(spec, (unsigned long)getpid()); break;
        case 4: x_fmt(spec, (long)e.severity); break;
        case 5: x_fmt(spec, e.sec * 1000000 + e.usec); break;
        case 6: x_fmt(spec, v.a); break;
        case 7: x_fmt(spec, v.b); break;
        case 8: x_fmt(spec, v.c); break;
        }
    }
    x("{}");
    vf_trace_eq("a datum with a format is written as text in that format");
    vf_cover("reached");
}
// with `unique` only the first attribute of a name is written
extern "C" void vf_main_unique() {
    std::size_t n = vf_size("n", 0, 1 << 20), n2 = vf_size("n2", 0, 1 << 20);
    use_places(1, "");
    S.inserted = S.sets = 0;
    event e;
    make(e, n);
    second(e, n2);
    long how = vf_case("how", 0, 1);
    json_builder b;
    if (how) b.unique();
    auto f = how ? std::move(b).build() : json_builder().unique().build();
    run(*f, e);
    x_fields(e);
    if (vf_symbolic()) {
        for (std::size_t i = 0; i < n; ++i) {
            string_view key = sv_at("key", i);
            ex("insert", 0, 0, key);
            if (vf_int_at("fresh", i, 0, 1)) { ex("member", 0, 0, key); x_value(value_at(i)); }
        }
        for (std::size_t i = 0; i < n2; ++i) {
            string_view key = sv_at("second key", i);
            ex("insert", 0, 0, key);
            if (vf_int_at("fresh", n + i, 0, 1)) { ex("member", 0, 0, key); x_text(sv_at("second value", i)); }
        }
    } else
        for (std::size_t i = 0; i < n + n2; ++i) {
            auto key = [n](std::size_t i) { return i < n ? sv_at("key", i) : sv_at("second key", i - n); };
            bool fresh = true;
            for (std::size_t j = 0; j < i; ++j) fresh = fresh && !(key(j) == key(i));
            if (!fresh) continue;
            ex("member", 0, 0, key(i));
            if (i < n) x_value(value_at(i)); else x_text(sv_at("second value", i - n));
        }
    x("{}");
    vf_trace_eq("exactly the first attribute of every name is written");
    vf_cover("reached");
}

// an attribute of a user's type is written as the text its display_traits write
extern "C" void vf_main_lazy() {
    use_places(1, "");
    P.keep = true;
    event e;
    begin(e);
    string_view t = sv("text of a"), t2 = sv("more");
    long how = vf_case("how", 0, 1);
    vf_assume(t.size() + t2.size() < 4294967296);
    vf::printer a{t, t2};
    e.list.emplace_back("a", attribute::view_t(a));
    e.list.emplace_back("b", attribute::view_t(t2));
    e.pack.emplace_back(e.list);
    finish(e);
    json_builder b;
    if (how) b.format("a", "{}");
    auto f = std::move(b).build();
    run(*f, e);
    x_fields(e);
    x_name("a");
    std::string all(str(t) + str(t2));
    x_text(string_view(all.data(), all.size()));
    x_name("b"); x_text(t2);
    x("{}");
    vf_trace_eq("the text an attribute writes is its value");
    vf_cover("reached");
}
// the formatter described by a configuration
extern "C" void vf_main_config() {
    use_places(3, "", "/fields", "/x");
    P.keep = true;
    S.inserted = S.sets = 0;
    event e;
    abc v = make_abc(e);
    string_view to = sv("to"), name = sv("name 0");
    long n = vf_case("n", 1, 7), on = vf_case("on", 0, 1);
    if (vf_case("first severity", 0, 1)) e.severity = 0; else vf_assume(e.severity != 0);
    finish(e);
    cfg::entry mapping[] = {{"a", cfg::string(to)}};
    cfg::entry formatting[] = {{"b", cfg::string("{:>8d}")}};
    cfg::entry list[] = {{"", cfg::string("c")}, {"", cfg::string("message")}};
    cfg::entry routing[] = {{"/fields", cfg::vector(list, 2)}, {"/x", cfg::string("*")}};
    cfg::entry names[] = {{"", cfg::string(name)}};
    cfg::entry mutate[] = {{"timestamp", cfg::string("%H:%M")}, {"severity", cfg::vector(names, 1)}};
    cfg::entry items[] = {{"type", cfg::string("json")}, {"newline", cfg::boolean(on)}, {"mapping", cfg::object(mapping, 1)}, {"formatting", cfg::object(formatting, 1)},
        {"routing", cfg::object(routing, 1 + on)}, {"mutate", cfg::object(mutate, 2)}, {"unique", cfg::boolean(false)}};
    auto f = factory<formatter::json_t>().from(cfg::node(cfg::object(items, n)));
    run(*f, e, n > 1 && on);
    long rest = n > 4 && on ? 2 : 0;
    x_routed([&](long i) { return n > 4 && (i == 8 || i == 0) ? 1 : rest; }, [&](long i, long place) {
        if (n > 2 && i == 6) ex("member", place, 0, to); else x_name(ALL[i], place);
        if (n > 3 && i == 7) x_fmt("{:>8d}", v.b);
        else if (n > 5 && i == 5) x_strftime("%H:%M", e.sec);
        else if (n > 5 && i == 4 && e.severity == 0) x_text(name);
        else x_datum(e, v, i);
    });
    x(n > 1 && on ? "{}\n" : "{}");
    vf_trace_eq("the configured options are the ones applied");
    vf_cover("reached");
}
extern "C" void vf_main_config_unique() {
    use_places(1, "");
    P.keep = true;
    S.inserted = S.sets = 0;
    event e;
    abc v = make_abc(e);
    long on = vf_case("on", 0, 1);
    cfg::entry items[] = {{"type", cfg::string("json")}, {"unique", cfg::boolean(on)}};
    auto f = factory<formatter::json_t>().from(cfg::node(cfg::object(items, 2)));
    run(*f, e);
    if (vf_symbolic() && on)
        for (long i = 6; i < 9; ++i) ex("insert", 0, 0, string_view(ALL[i], 1));
    for (long i = 0; i < 9; ++i)
        if (!vf_symbolic() || !on || i < 6 || vf_int_at("fresh", i - 6, 0, 1)) { x_name(ALL[i]); x_datum(e, v, i); }
    x("{}");
    vf_trace_eq("names are made unique when configured");
    vf_cover("reached");
}
extern "C" void vf_main_config_mutate() {
    event e;
    begin(e);
    cfg::entry mutate[] = {{"message", cfg::string("x")}};
    cfg::entry items[] = {{"type", cfg::string("json")}, {"mutate", cfg::object(mutate, 1)}};
    bool thrown = false;
    try {
        factory<formatter::json_t>().from(cfg::node(cfg::object(items, 2)));
    } catch (const std::invalid_argument&) { thrown = true; }
    vf_check(thrown, "other mutations are refused");
    vf_cover("reached");
}

// an attribute whose name is also that of a route: the text is still one object with all other data
extern "C" void vf_rt_collision() {
    long order = vf_case("order", 0, 1), number = vf_int("number", INT64_MIN, INT64_MAX);
    event e;
    begin(e);
    if (order) e.list.emplace_back("x", attribute::view_t(number));
    e.list.emplace_back("fields", attribute::view_t(e.text));
    if (!order) e.list.emplace_back("x", attribute::view_t(number));
    e.pack.emplace_back(e.list);
    finish(e);
    writer_t w;
    json_builder().route("/fields", {"x"}).build()->format(*e.record, w);
    rapidjson::Document d;
    d.Parse(std::string(w.inner.data(), w.inner.size()));
    vf_check(!d.HasParseError() && d.IsObject() && d.HasMember("message") && d.HasMember("fields"), "the text is one JSON object");
    vf_check(d["fields"].IsObject() && d["fields"].HasMember("x") && d["fields"]["x"].GetInt64() == number, "routed attributes are at their route");
    vf_cover("reached");
}
