// Shared ghost environment for the contract harnesses (real C++ implementing the real interfaces).
#pragma once
#include "vf.h"
#include <functional>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include "blackhole/attribute.hpp"
#include "blackhole/attributes.hpp"
#include "blackhole/filter.hpp"
#include "blackhole/formatter.hpp"
#include "blackhole/handler.hpp"
#include "blackhole/logger.hpp"
#include "blackhole/record.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/extensions/writer.hpp"
#include "attribute.hpp"
#include "record.hpp"

namespace vf {
using namespace blackhole;

inline string_view sv(const char* label) {
    const char* p; std::size_t n;
    vf_bytes(label, &p, &n);
    return string_view(p, n);
}
inline string_view text(const char* label) {
    const char* p; std::size_t n;
    vf_text(label, &p, &n);
    return string_view(p, n);
}
inline string_view sv_at(const char* label, long i) {
    const char* p; std::size_t n;
    vf_bytes_at(label, i, &p, &n);
    return string_view(p, n);
}
inline std::string str(const char* label) { auto v = sv(label); return std::string(v.data(), v.size()); }
inline void ev(const char* tag, long a = 0, long b = 0, string_view s = string_view("", 0)) { vf_ev(tag, a, b, s.data(), s.size()); }
inline void ex(const char* tag, long a = 0, long b = 0, string_view s = string_view("", 0)) { vf_ex(tag, a, b, s.data(), s.size()); }

inline void out(string_view s) { vf_xout(s.data(), s.size()); }

// a std::vector<T> of n elements made by a generator f(i, slot)
template<class T, class F>
std::vector<T> make_vector(std::size_t n, F f) {
    std::vector<T> r;
    T* p = vf_make_array<T>(n, f);
    struct rep { T* b; T* e; T* c; };
    auto* q = reinterpret_cast<rep*>(&r);
    q->b = p; q->e = p + n; q->c = p + n;
    return r;
}
// a boost small_vector<T, N> of n elements made by a generator
template<class V, class F>
void make_small(V* slot, std::size_t n, F f) {
    typedef typename V::value_type T;
    new (slot) V();
    T* p = vf_make_array<T>(n, f);
    struct rep { T* b; std::size_t n; std::size_t c; };
    auto* q = reinterpret_cast<rep*>(static_cast<void*>(slot));
    q->b = p; q->n = n; q->c = n;
}
// an attribute value chosen by the inputs at index i: null, bool, signed, unsigned, double or string
struct value_in {
    long kind, num; string_view text;
    double real() const { double d; __builtin_memcpy(&d, &num, sizeof d); return d; }
};
inline value_in value_at(long i, long kinds = 5) {
    value_in v;
    v.kind = vf_int_at("kind", i, 0, kinds);
    v.num = vf_int_at("number", i, -9223372036854775807L - 1, 9223372036854775807L);
    v.text = sv_at("text", i);
    return v;
}
inline void make_view(void* slot, const value_in& v) {
    using attribute::view_t;
    switch (v.kind) {
    case 0: new (slot) view_t(nullptr); break;
    case 1: new (slot) view_t(bool(v.num & 1)); break;
    case 2: new (slot) view_t(v.num); break;
    case 3: new (slot) view_t((unsigned long)v.num); break;
    case 4: new (slot) view_t(v.real()); break;
    default: new (slot) view_t(v.text); break;
    }
}
inline attribute::view_t view(const value_in& v) {
    using attribute::view_t;
    switch (v.kind) {
    case 0: return view_t(nullptr);
    case 1: return view_t(bool(v.num & 1));
    case 2: return view_t(v.num);
    case 3: return view_t((unsigned long)v.num);
    case 4: return view_t(v.real());
    default: return view_t(v.text);
    }
}
inline attribute::value_t value(const value_in& v) {
    using attribute::value_t;
    switch (v.kind) {
    case 0: return value_t(nullptr);
    case 1: return value_t(bool(v.num & 1));
    case 2: return value_t(v.num);
    case 3: return value_t((unsigned long)v.num);
    case 4: return value_t(v.real());
    default: return value_t(std::string(v.text.data(), v.text.size()));
    }
}
inline long bits(double d) { long n; __builtin_memcpy(&n, &d, sizeof n); return n; }
inline void ex_value(const value_in& v, long i) {
    switch (v.kind) {
    case 0: ex("null", i); break;
    case 1: ex("bool", i, v.num & 1); break;
    case 2: ex("signed", i, v.num); break;
    case 3: ex("unsigned", i, v.num); break;
    case 4: ex("double", i, bits(v.real())); break;
    default: ex("string", i, 0, v.text); break;
    }
}
// visitors that record what a stored value shows
template<class Base>
struct dumper : public Base {
    long i;
    explicit dumper(long i) : i(i) {}
    void operator()(const std::nullptr_t&) override { ev("null", i); }
    void operator()(const bool& v) override { ev("bool", i, v); }
    void operator()(const std::int64_t& v) override { ev("signed", i, v); }
    void operator()(const std::uint64_t& v) override { ev("unsigned", i, (long)v); }
    void operator()(const double& v) override { ev("double", i, bits(v)); }
    void operator()(const typename Base::string_type& v) override { ev("string", i, 0, string_view(v.data(), v.size())); }
    void operator()(const typename Base::function_type&) override { ev("function", i); }
};
struct vv : public attribute::view_t::visitor_t { typedef attribute::view_t::string_type string_type; typedef attribute::view_t::function_type function_type; };
struct ov : public attribute::value_t::visitor_t { typedef attribute::value_t::string_type string_type; typedef attribute::value_t::function_type function_type; };
inline void dump(const attribute::view_t& v, long i) { dumper<vv> d(i); v.apply(d); }
inline void dump(const attribute::value_t& v, long i) { dumper<ov> d(i); v.apply(d); }
inline void dump(const attribute_list& l, long i) {
    for (const auto& a : l) { ev("key", i, 0, a.first); dump(a.second, i); ++i; }
}
// a user's type that can be an attribute
struct printer { string_view a, b; };
// a user's type that can be formatted, and tells when it is
struct printed { string_view s; };
inline std::ostream& operator<<(std::ostream& os, const printed& p) {
    ev("formatted", 0, 0, p.s);
    return os.write(p.s.data(), p.s.size());
}
template<class A, class B>
inline void same(const A& a, const B& b, const char* name) { vf_bytes_eq(a.data(), a.size(), b.data(), b.size(), name); }
}
namespace blackhole { inline namespace v1 {
template<>
struct display_traits<vf::printer> {
    static auto apply(const vf::printer& p, writer_t& w) -> void {
        w.inner << fmt::StringRef(p.a.data(), p.a.size());
        w.inner << fmt::StringRef(p.b.data(), p.b.size());
    }
};
}}
