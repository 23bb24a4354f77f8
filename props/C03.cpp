// C03: attribute values and views show exactly what was put in
#include "vf_util.hpp"
#include "src/attribute.hpp"
#include <typeinfo>
using namespace blackhole;
using attribute::value_t;
using attribute::view_t;
namespace {
const long MIN = -9223372036854775807L - 1, MAX = 9223372036854775807L;
template<class V, class T>
void scalar(const char* tag, T v, long shown) {
    V x(v);
    vf::dump(x, 7);
    vf::ex(tag, 7, shown);
    vf_trace_eq("a constructed value shows what it was given");
}
template<class V>
void scalars() {
    long n = vf_int("n", MIN, MAX);
    switch (vf_int("type", 0, 11)) {
    case 0: scalar<V>("null", nullptr, 0); break;
    case 1: vf_cover("bool"); scalar<V, bool>("bool", n & 1, n & 1); break;
    case 2: scalar<V, char>("signed", n, (char)n); break;
    case 3: scalar<V, short>("signed", n, (short)n); break;
    case 4: vf_cover("int"); scalar<V, int>("signed", n, (int)n); break;
    case 5: scalar<V, long>("signed", n, n); break;
    case 6: scalar<V, long long>("signed", n, n); break;
    case 7: scalar<V, unsigned char>("unsigned", n, (unsigned char)n); break;
    case 8: scalar<V, unsigned short>("unsigned", n, (unsigned short)n); break;
    case 9: scalar<V, unsigned int>("unsigned", n, (unsigned int)n); break;
    case 10: vf_cover("unsigned long"); scalar<V, unsigned long>("unsigned", n, n); break;
    default: scalar<V, unsigned long long>("unsigned", n, n); break;
    }
}
}
extern "C" void vf_main_value_scalars() { scalars<value_t>(); }
extern "C" void vf_main_view_scalars() { scalars<view_t>(); }
extern "C" void vf_main_strings() {
    auto s = vf::sv("s");
    std::string own(s.data(), s.size());
    value_t v(own);
    view_t w1(s), w2(own), w3(v);
    vf::dump(v, 0); vf::dump(w1, 1); vf::dump(w2, 2); vf::dump(w3, 3);
    for (long i = 0; i < 4; ++i) vf::ex("string", i, 0, s);
    value_t lit("lit");
    view_t litv("view");
    vf::dump(lit, 4); vf::dump(litv, 5);
    vf::ex("string", 4, 0, string_view("lit", 3));
    vf::ex("string", 5, 0, string_view("view", 4));
    vf_trace_eq("strings are kept byte for byte");
    value_t nul("a\0b");
    vf::dump(nul, 6);
    vf::ex("string", 6, 0, string_view("a\0b", 3));
    vf_trace_eq("embedded zero bytes are kept");
    vf_cover("reached");
}
extern "C" void vf_main_doubles() {
    auto v = vf::value_at(0, 5);
    v.kind = 4;
    vf::dump(value_t(v.real()), 0);
    vf::dump(view_t(v.real()), 1);
    vf::ex("double", 0, v.num);
    vf::ex("double", 1, v.num);
    vf_trace_eq("doubles are kept bit for bit");
}
// copies, moves and assignments between any two kinds
extern "C" void vf_main_copy() {
    auto a = vf::value_at(0), b = vf::value_at(1);
    value_t x(vf::value(a)), y(vf::value(b));
    value_t c(x);
    vf::dump(c, 0); vf::ex_value(a, 0);
    y = x;
    vf::dump(y, 1); vf::ex_value(a, 1);
    vf::dump(x, 2); vf::ex_value(a, 2);
    vf_trace_eq("a copy shows the same value and leaves the source alone");
    vf_cover("reached");
}
extern "C" void vf_main_move() {
    auto a = vf::value_at(0), b = vf::value_at(1);
    value_t x(vf::value(a)), y(vf::value(b));
    value_t m(std::move(x));
    vf::dump(m, 0); vf::ex_value(a, 0);
    y = std::move(m);
    vf::dump(y, 1); vf::ex_value(a, 1);
    vf_trace_eq("a moved value shows what the source showed");
    vf_cover("reached");
}
extern "C" void vf_main_self_assign() {
    auto a = vf::value_at(0);
    value_t x(vf::value(a));
    value_t& r = x;
    x = r;
    x = std::move(r);
    vf::dump(x, 0); vf::ex_value(a, 0);
    vf_trace_eq("self assignment keeps the value");
}
extern "C" void vf_main_view_of_value() {
    auto a = vf::value_at(0), b = vf::value_at(1);
    value_t x(vf::value(a));
    view_t v(x);
    vf::dump(v, 0); vf::ex_value(a, 0);
    view_t c(v);
    vf::dump(c, 1); vf::ex_value(a, 1);
    view_t d(vf::view(b));
    d = v;
    vf::dump(d, 2); vf::ex_value(a, 2);
    vf_trace_eq("a view shows the value it refers to");
    vf_cover("reached");
}
extern "C" void vf_main_equality() {
    auto a = vf::value_at(0, 5), b = vf::value_at(1, 5);
    vf_assume(a.kind != 4 && b.kind != 4);      // floating comparison is not bitwise
    view_t x(vf::view(a)), y(vf::view(b));
    bool same = a.kind == b.kind && (a.kind == 0 || (a.kind == 1 ? (a.num & 1) == (b.num & 1)
                : a.kind == 5 ? a.text == b.text : a.num == b.num));
    if (same) vf_cover("equal"); else vf_cover("different");
    vf_check((x == y) == same, "views are equal exactly when kind and content are");
    vf_check(x == x, "a view equals itself");
}
template<class T, class V>
static void got(const V& v, bool right, const char* name) {
    bool ok = false, bad = false;
    try { attribute::get<T>(v); ok = true; } catch (const std::bad_cast&) { bad = true; }
    vf_check(ok == right && bad == !right, name);
}
extern "C" void vf_main_get() {
    auto a = vf::value_at(0, 5);
    value_t x(vf::value(a));
    view_t v(x);
    got<value_t::null_type>(x, a.kind == 0, "get null");
    got<value_t::bool_type>(x, a.kind == 1, "get bool");
    got<value_t::sint64_type>(x, a.kind == 2, "get signed");
    got<value_t::uint64_type>(x, a.kind == 3, "get unsigned");
    got<value_t::double_type>(x, a.kind == 4, "get double");
    got<value_t::string_type>(x, a.kind == 5, "get string");
    got<view_t::null_type>(v, a.kind == 0, "get null from a view");
    got<view_t::bool_type>(v, a.kind == 1, "get bool from a view");
    got<view_t::sint64_type>(v, a.kind == 2, "get signed from a view");
    got<view_t::uint64_type>(v, a.kind == 3, "get unsigned from a view");
    got<view_t::double_type>(v, a.kind == 4, "get double from a view");
    got<view_t::string_type>(v, a.kind == 5, "get string from a view");
    if (a.kind == 2) { vf_cover("signed"); vf_check(attribute::get<value_t::sint64_type>(x) == a.num, "signed content"); }
    if (a.kind == 5) { vf_cover("string"); vf::same(attribute::get<value_t::string_type>(x), a.text, "string content"); }
}
