// C19: string views
#include "vf_stream.hpp"
#include "blackhole/stdext/string_view.hpp"
#include <algorithm>
using namespace blackhole;
using vf::sv;
namespace {
const std::size_t MANY = 1ul << 40;
void same(string_view v, const char* p, std::size_t n, const char* name) {
    vf_check(v.data() == p && v.size() == n, name);
}
}
// a byte of the view, and nothing outside it
extern "C" void vf_main_index() {
    const char* p; std::size_t n;
    vf_bytes("text", &p, &n);
    string_view v(p, n);
    std::size_t i = (std::size_t)vf_int("index", INT64_MIN, INT64_MAX);
    bool thrown = false;
    char c = 0;
    try { c = v[i]; } catch (const std::out_of_range&) { thrown = true; }
    vf_check(thrown == (i >= n), "an index is refused exactly when it is outside of the view");
    if (!thrown) vf_check(c == p[i], "the byte at the index");
    vf_cover("reached");
}
extern "C" void vf_main_substr() {
    const char* p; std::size_t n;
    vf_bytes("text", &p, &n);
    string_view v(p, n);
    std::size_t pos = (std::size_t)vf_int("position", INT64_MIN, INT64_MAX), count = (std::size_t)vf_int("count", INT64_MIN, INT64_MAX);
    bool thrown = false;
    string_view r;
    try { r = v.substr(pos, count); } catch (const std::out_of_range&) { thrown = true; }
    vf_check(thrown == (pos > n), "a position is refused exactly when it is outside of the view");
    if (!thrown) same(r, p + pos, count < n - pos ? count : n - pos, "as many bytes of the view as there are, up to the count, from the position");
    same(v, p, n, "the view is not changed");
    std::size_t from = (std::size_t)vf_int("start", 0, INT64_MAX);
    vf_assume(from <= n);
    same(v.substr(from), p + from, n - from, "all from the position");
    same(v.substr(), p, n, "all of it");
    vf_cover("reached");
}
// the contract of memcmp
extern "C" int vf_contract_memcmp(const void* a, const void* b, std::size_t n) noexcept {
    auto p = static_cast<const unsigned char*>(a), q = static_cast<const unsigned char*>(b);
    for (std::size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
// the contract of strncmp, which stops at a zero byte
extern "C" int vf_contract_strncmp(const char* a, const char* b, std::size_t n) noexcept {
    auto p = reinterpret_cast<const unsigned char*>(a), q = reinterpret_cast<const unsigned char*>(b);
    for (std::size_t i = 0; i < n; ++i) {
        if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
        if (p[i] == 0) return 0;
    }
    return 0;
}
// equal views have equal bytes
extern "C" void vf_main_equal() {
    const char *p, *q; std::size_t n, m;
    vf_bytes("first", &p, &n);
    vf_bytes("second", &q, &m);
    string_view a(p, n), b(q, m);
    bool eq = false;
    switch (vf_case("form", 0, 2)) {
    case 0: eq = a == b; break;
    case 1: eq = a == std::string(q, m); break;
    case 2: eq = std::string(p, n) == b; break;
    }
    std::size_t i = 0;
    while (i < n && i < m && p[i] == q[i]) ++i;
    vf_check(eq == (n == m && i == n), "views, or a view and a string, are equal exactly when they have the same bytes");
    vf_cover("reached");
}
// the same for texts that have much in common
extern "C" void vf_rt_equal() {
    const char* p; std::size_t n;
    vf_bytes("text", &p, &n);
    std::string t(p, n);
    std::size_t at = (std::size_t)vf_int("at", 0, 40), zero = (std::size_t)vf_int("zero", 0, 40);
    if (zero < n) t[zero] = 0;
    std::string u(t);
    bool differ = at < n;
    if (differ) u[at] = (char)(u[at] + (char)vf_int("by", 1, 255));
    string_view a(t), b(u);
    vf_check((a == b) == !differ && (a == u) == !differ && (u == a) == !differ, "texts that differ in a byte, or do not");
    if (differ) vf_check((a < b) != (b < a), "texts that differ in a byte are ordered");
    else vf_check(!(a < b) && !(b < a), "equal texts are not");
}
// the order: by the first byte that differs, a part before the whole; bytes outside of ASCII are in some order
extern "C" void vf_main_less() {
    const char *p, *q; std::size_t n, m;
    vf_bytes("first", &p, &n);
    vf_bytes("second", &q, &m);
    string_view a(p, n), b(q, m);
    std::size_t i = 0;
    while (i < n && i < m && p[i] == q[i]) ++i;
    bool less = a < b, greater = b < a;
    if (i == n || i == m) {
        vf_check(less == (n < m), "a part of a text is less than the text");
        vf_check(greater == (m < n), "and the text is not less than a part of it");
    } else if (p[i] >= 0 && q[i] >= 0) {
        vf_check(less == (p[i] < q[i]), "less by the first byte that differs");
        vf_check(greater == (p[i] > q[i]), "of two views that differ one is less");
    } else {
        vf_check(less != greater, "of two views that differ one is less");
    }
    vf_cover("reached");
}
// made from strings and literals
extern "C" void vf_main_make() {
    auto t = sv("text");
    const std::string s(t.data(), t.size());
    string_view v(s);
    same(v, s.data(), s.size(), "the view of a string has all of its bytes");
    vf::same(v.to_string(), t, "and gives it back");
    static const char literal[] = "one\0two";
    same(string_view(literal), literal, 7, "the view of a literal has all of its bytes");
    string_view none;
    vf_check(none.size() == 0, "a view of nothing is empty");
    vf_check(none == string_view(""), "and equal to an empty text");
    string_view copy(v), other;
    other = copy;
    same(other, s.data(), s.size(), "a copy is a view of the same bytes");
    vf_cover("reached");
}
extern "C" void vf_main_stream() {
    vf::stream os;
    auto a = sv("first"), b = sv("second");
    os << a << b;
    vf::out(a);
    vf::out(b);
    vf_trace_eq("the bytes of the view are written to the stream");
    vf_cover("reached");
}
