// C17: a node of the JSON configuration shows exactly what is written there, or reports the mismatch
#include "vf_util.hpp"
#include "config/json.hpp"
#include <boost/optional/optional.hpp>
#include <sstream>
using namespace blackhole;
namespace bc = blackhole::config;
using vf::ev;
using vf::ex;
typedef rapidjson::Value value_type;
namespace {
// rapidjson counts the bytes of a text in 32 bits
string_view sv(const char* label) { string_view s = vf::sv(label); vf_assume(s.size() < 4294967296); return s; }
string_view sv_at(const char* label, long i) { string_view s = vf::sv_at(label, i); vf_assume(s.size() < 4294967296); return s; }
string_view lit(const char* s) { return string_view(s, __builtin_strlen(s)); }
std::string str(string_view s) { return std::string(s.data(), s.size()); }
// a scalar of any kind: null, false, true, negative, non-negative, real, string
struct scalar { long kind; long num; string_view text; double real() const { double d; __builtin_memcpy(&d, &num, sizeof d); return d; } };
scalar choose(string_view text) {
    scalar s;
    s.kind = vf_case("kind", 0, 9);
    s.num = vf_int("number", INT64_MIN, INT64_MAX);
    s.text = text;
    if (s.kind == 3) vf_assume(s.num < 0);
    if (s.kind == 4) vf_assume(s.num >= 0);
    return s;
}
void make(void* slot, const scalar& s) {
    switch (s.kind) {
    case 0: new (slot) value_type(); break;
    case 1: case 2: new (slot) value_type(s.kind == 2); break;
    case 3: case 4: new (slot) value_type((int64_t)s.num); break;
    case 5: new (slot) value_type((uint64_t)s.num); break;
    case 6: new (slot) value_type(s.real()); break;
    case 7: new (slot) value_type(rapidjson::StringRef(s.text.data(), s.text.size())); break;
    case 8: new (slot) value_type(rapidjson::kArrayType); break;
    default: new (slot) value_type(rapidjson::kObjectType); break;
    }
}
// whether the scalar has a value of that type
bool fits(const scalar& s, long type) {
    switch (type) {
    case 0: return s.kind == 1 || s.kind == 2;
    case 1: return s.kind == 3 || s.kind == 4 || (s.kind == 5 && s.num >= 0);
    case 2: return s.kind == 5 || s.kind == 4;
    case 3: return s.kind == 6;
    case 4: return s.kind == 7;
    }
    return false;
}
const char* TYPES[] = {"bool", "int64", "uint64", "double", "string"};
const char* ACTUAL[] = {"null", "bool", "bool", "number", "number", "number", "number", "string", "array", "object"};
void x_value(const scalar& s, long type) {
    if (type == 4) ex("string", 0, 0, s.text);
    else if (type == 0) ex("value", 0, s.kind == 2);
    else ex("value", type, s.num);
}
// what an accessor shows
template<class Node> void read(const Node& n, long type) {
    switch (type) {
    case 0: ev("value", 0, n.to_bool()); break;
    case 1: ev("value", 1, n.to_sint64()); break;
    case 2: ev("value", 2, (long)n.to_uint64()); break;
    case 3: ev("value", 3, vf::bits(n.to_double())); break;
    default: { std::string s = n.to_string(); ev("string", 0, 0, string_view(s.data(), s.size())); }
    }
}
void read_option(const bc::option<bc::node_t>& o, long type) {
    switch (type) {
    case 0: if (auto v = o.to_bool()) ev("value", 0, *v); break;
    case 1: if (auto v = o.to_sint64()) ev("value", 1, *v); break;
    case 2: if (auto v = o.to_uint64()) ev("value", 2, (long)*v); break;
    case 3: if (auto v = o.to_double()) ev("value", 3, vf::bits(*v)); break;
    default: if (auto s = o.to_string()) ev("string", 0, 0, string_view(s->data(), s->size()));
    }
}
void types(const bc::node_t& n, const scalar& s) {
    vf_check(n.is_bool() == fits(s, 0), "is a boolean");
    vf_check(n.is_sint64() == fits(s, 1), "is a signed number");
    vf_check(n.is_uint64() == fits(s, 2), "is an unsigned number");
    vf_check(n.is_double() == fits(s, 3), "is a floating point number");
    vf_check(n.is_string() == fits(s, 4), "is a string");
    vf_check(n.is_vector() == (s.kind == 8), "is a list");
    vf_check(n.is_object() == (s.kind == 9), "is an object");
}
}
extern "C" void vf_main_scalar() {
    scalar s = choose(sv("text"));
    long type = vf_case("type", 0, 4);
    alignas(value_type) char slot[sizeof(value_type)];
    make(slot, s);
    const bc::json_t node(*reinterpret_cast<value_type*>(slot), "/here");
    types(node, s);
    bool thrown = false;
    try { read(node, type); }
    catch (const bc::type_mismatch& e) {
        thrown = true;
        vf_check(e.cursor() == "/here" && e.expected() == TYPES[type] && e.actual() == ACTUAL[s.kind], "the mismatch says what and where");
    }
    if (fits(s, type)) x_value(s, type);
    vf_check(thrown == !fits(s, type), "another type is a mismatch");
    vf_trace_eq("the value is the one that is written");
    vf_cover("reached");
}
// a list of n strings
extern "C" void vf_main_list() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    value_type list(rapidjson::kArrayType);
    auto gen = [](std::size_t i, void* slot) {
        string_view s = sv_at("item", i);
        new (slot) value_type(rapidjson::StringRef(s.data(), s.size()));
    };
    value_type* items = vf_make_array<value_type>(n, gen);
    list.SetElementsPointer(items);
    list.data_.a.size = list.data_.a.capacity = n;
    const bc::json_t node(list);
    node.each([](const bc::node_t& item) { ev("item"); read(item, 4); });
    for (std::size_t i = 0; i < n; ++i) { ex("item"); ex("string", 0, 0, sv_at("item", i)); }
    vf_trace_eq("every item is visited once, in order");
    std::size_t i = vf_int("index", 0, INT64_MAX);
    auto o = node[i];
    vf_check(bool(o) == (i < n), "an item is there when the list is that long");
    vf_check(bool(o.unwrap()) == bool(o), "unwrapping tells whether it is there");
    if (o) {
        read(*o.unwrap(), 4);
        ex("string", 0, 0, sv_at("item", i));
        vf_trace_eq("the item of the index");
    }
    vf_cover("reached");
}
namespace {
void member(void* slot, string_view name, string_view text) {
    auto* m = static_cast<value_type::Member*>(slot);
    new (&m->name) value_type(rapidjson::StringRef(name.data(), name.size()));
    new (&m->value) value_type(rapidjson::StringRef(text.data(), text.size()));
}
}
// an object of n members
extern "C" void vf_main_object() {
    std::size_t n = vf_size("n", 0, 1 << 20);
    value_type object(rapidjson::kObjectType);
    auto gen = [](std::size_t i, void* slot) { member(slot, sv_at("name", i), sv_at("item", i)); };
    object.SetMembersPointer(vf_make_array<value_type::Member>(n, gen));
    object.data_.o.size = object.data_.o.capacity = n;
    const bc::json_t node(object);
    node.each_map([](const std::string& name, const bc::node_t& item) { ev("member", 0, 0, string_view(name.data(), name.size())); read(item, 4); });
    for (std::size_t i = 0; i < n; ++i) { ex("member", 0, 0, sv_at("name", i)); ex("string", 0, 0, sv_at("item", i)); }
    vf_trace_eq("every member is visited once, in order, with its name");
    vf_cover("reached");
}
// the member of a name
extern "C" void vf_main_member() {
    value_type object(rapidjson::kObjectType);
    alignas(value_type::Member) char slots[3 * sizeof(value_type::Member)];
    long n = vf_case("n", 0, 3), type = vf_case("type", 0, 4), way = vf_case("way", 0, 1);
    string_view name[3] = {sv("name 0"), sv("name 1"), sv("name 2")};
    long kinds[3] = {1, 7, 4};
    scalar s[3];
    for (long i = 0; i < n; ++i) {
        auto* m = reinterpret_cast<value_type::Member*>(slots + i * sizeof(value_type::Member));
        new (&m->name) value_type(rapidjson::StringRef(name[i].data(), name[i].size()));
        s[i].kind = kinds[i];
        s[i].num = vf_int_at("number", i, 0, INT64_MAX);
        s[i].text = sv_at("text", i);
        make(&m->value, s[i]);
    }
    object.SetMembersPointer(reinterpret_cast<value_type::Member*>(slots));
    object.data_.o.size = object.data_.o.capacity = n;
    const bc::json_t node(object, "/top");
    string_view key = sv("key");
    long at = n;
    for (long i = n - 1; i >= 0; --i) if (name[i] == key) at = i;
    auto o = node[str(key)];
    vf_check(bool(o) == (at < n), "a member is there when there is one of that name");
    bool thrown = false;
    try {
        if (way == 0) read_option(o, type);
        else if (auto v = o.unwrap()) read(*v, type);
    } catch (const bc::type_mismatch& e) {
        thrown = true;
        std::string cursor = "/top/" + str(key);
        vf::same(e.cursor(), cursor, "the mismatch says where");
    }
    vf_check(thrown == (at < n && !fits(s[at], type)), "another type is a mismatch, what is missing is none");
    if (at < n && fits(s[at], type)) x_value(s[at], type);
    vf_trace_eq("the value is that of the first member of the name");
    vf_cover("reached");
}
// what is no list has no items, what is no object has no members
extern "C" void vf_main_mismatch() {
    scalar s;
    s.kind = vf_case("kind", 0, 9);
    s.num = s.kind == 3 ? -1 : 1; s.text = lit("text");
    alignas(value_type) char slot[sizeof(value_type)];
    make(slot, s);
    const bc::json_t node(*reinterpret_cast<value_type*>(slot));
    types(node, s);
    long list = 2, object = 2;
    try { node.each([](const bc::node_t&) { ev("item"); }); list = 0; }
    catch (const bc::type_mismatch& e) { list = 1; vf_check(e.cursor() == "/" && e.expected() == "array" && e.actual() == ACTUAL[s.kind], "the mismatch says what and where"); }
    try { node.each_map([](const std::string&, const bc::node_t&) { ev("member"); }); object = 0; }
    catch (const bc::type_mismatch& e) { object = 1; vf_check(e.cursor() == "/" && e.expected() == "object" && e.actual() == ACTUAL[s.kind], "the mismatch says what and where"); }
    vf_check(list == (s.kind != 8), "only a list has items");
    vf_check(object == (s.kind != 9), "only an object has members");
    vf_check(!node[vf_int("index", 0, INT64_MAX)], "an item that is not there is none");
    vf_check(!node[str(vf::sv("key"))], "a member that is not there is none");
    vf_trace_eq("nothing is visited");
    vf_cover("reached");
}
// what is reached through something that is missing is missing
extern "C" void vf_main_missing() {
    bc::option<bc::node_t> none;
    long type = vf_case("type", 0, 4);
    std::string key = str(vf::sv("key"));
    std::size_t i = vf_int("index", 0, INT64_MAX);
    vf_check(!none && !none.unwrap() && !none[key] && !none[i] && !none[key][i][key], "nothing is there");
    read_option(none, type);
    none.each([](const bc::node_t&) { ev("item"); });
    none.each_map([](const std::string&, const bc::node_t&) { ev("member"); });
    vf_trace_eq("nothing is shown");
    vf_cover("reached");
}
// items of lists in objects in lists, reached by index and name or by visiting
extern "C" void vf_main_path() {
    alignas(value_type) char inner[2 * sizeof(value_type)];
    long type = vf_case("type", 0, 4), how = vf_case("how", 0, 1);
    scalar s = choose(sv("text")), first;
    first.kind = 0;
    make(inner, first);
    make(inner + sizeof(value_type), s);
    value_type list(rapidjson::kArrayType), object(rapidjson::kObjectType), top(rapidjson::kArrayType);
    alignas(value_type::Member) char slot[sizeof(value_type::Member)];
    list.SetElementsPointer(reinterpret_cast<value_type*>(inner));
    list.data_.a.size = list.data_.a.capacity = 2;
    auto* m = reinterpret_cast<value_type::Member*>(slot);
    new (&m->name) value_type(rapidjson::StringRef("name", 4));
    __builtin_memcpy((void*)&m->value, (void*)&list, sizeof list);
    object.SetMembersPointer(m);
    object.data_.o.size = object.data_.o.capacity = 1;
    top.SetElementsPointer(&object);
    top.data_.a.size = top.data_.a.capacity = 1;
    const bc::json_t node(top);
    bool thrown = false;
    try {
        if (how == 0) read_option(node[0]["name"][1], type);
        else node.each([type](const bc::node_t& o) {
            o.each_map([type](const std::string&, const bc::node_t& l) {
                long i = 0;
                l.each([&i, type](const bc::node_t& v) { if (i++) read(v, type); });
            });
        });
    } catch (const bc::type_mismatch& e) {
        thrown = true;
        vf_check(e.cursor() == "/0/name/1" && e.expected() == TYPES[type] && e.actual() == ACTUAL[s.kind], "the mismatch says what and where");
    }
    vf_check(thrown == !fits(s, type), "another type is a mismatch");
    if (fits(s, type)) x_value(s, type);
    vf_trace_eq("the value is the one at the path");
    vf_cover("reached");
}
// the text of a configuration file
namespace {
void quote(std::string& out, string_view s) {
    out += '"';
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s.data()[i];
        if (c == '"' || c == '\\') { out += '\\'; out += char(c); }
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += char(c);
    }
    out += '"';
}
void write(std::string& out, const scalar& s) {
    switch (s.kind) {
    case 0: out += "null"; break;
    case 1: case 2: out += s.kind == 2 ? "true" : "false"; break;
    case 3: case 4: out += std::to_string(s.num); break;
    case 5: out += std::to_string((unsigned long)s.num); break;
    default: quote(out, s.text);
    }
}
}
extern "C" void vf_rt_text() {
    long n = vf_size("n", 0, 5), type = vf_int("type", 0, 4), odd = vf_int("comments and commas", 0, 1), cut = vf_int("cut", 0, 9);
    std::string text = odd ? "/* configuration */ {" : "{";
    scalar s[5];
    for (long i = 0; i < n; ++i) {
        s[i].kind = vf_int_at("kind", i, 0, 6);
        if (s[i].kind == 6) s[i].kind = 7;
        s[i].num = vf_int_at("number", i, INT64_MIN, INT64_MAX);
        if (s[i].kind == 3) s[i].num = s[i].num < 0 ? s[i].num : -1 - s[i].num;
        if (s[i].kind == 4) s[i].num = s[i].num < 0 ? -1 - s[i].num : s[i].num;
        s[i].text = vf::sv_at("text", i);
        if (i) text += ',';
        quote(text, vf::sv_at("name", i));
        text += odd ? " : // value\n" : ":";
        write(text, s[i]);
    }
    if (odd && n) text += ',';
    text += '}';
    if (cut == 0) text.erase(text.size() - 1);
    std::istringstream in(text);
    bool thrown = false;
    std::unique_ptr<bc::factory_t> f;
    try {
        if (odd) f = bc::factory_traits<bc::json_t>::construct(in);
        else f = bc::factory_traits<bc::json_t>::construct(std::move(in));
    } catch (const std::invalid_argument&) { thrown = true; }
    vf_check(thrown == (cut == 0), "an incomplete text is refused");
    vf_cover("reached");
    if (thrown) return;
    for (long i = 0; i < n; ++i) {
        long at = n;
        string_view key = vf::sv_at("name", i);
        for (long k = n - 1; k >= 0; --k) if (vf::sv_at("name", k) == key) at = k;
        auto o = f->config()[str(key)];
        vf_check(bool(o), "the member is there");
        if (!o) return;
        if (s[at].kind == 5 && s[at].num >= 0) s[at].kind = 4;     // the same text
        types(*o.unwrap(), s[at]);
        if (fits(s[at], type)) { read_option(o, type); x_value(s[at], type); }
    }
    vf_trace_eq("the values are those of the text");
}
