// C11: a timestamp is shown by its pattern: what strftime makes of it, with %f the six digit microseconds and %s the epoch
#include "vf_util.hpp"
#include "datetime.hpp"
#include <ctime>
using namespace blackhole;
namespace {
struct when {
    std::tm tm;
    std::uint64_t usec;
};
void make(when& w, long i) {
    std::tm& tm = w.tm;
    __builtin_memset(&tm, 0, sizeof tm);
    tm.tm_sec = vf_int_at("second", i, 0, 60);
    tm.tm_min = vf_int_at("minute", i, 0, 59);
    tm.tm_hour = vf_int_at("hour", i, 0, 23);
    tm.tm_mday = vf_int_at("day", i, 1, 31);
    tm.tm_mon = vf_int_at("month", i, 0, 11);
    tm.tm_year = vf_int_at("year", i, 0, 8099);
    tm.tm_wday = vf_int_at("weekday", i, 0, 6);
    tm.tm_yday = vf_int_at("day of year", i, 0, 365);
    tm.tm_isdst = vf_int_at("dst", i, -1, 1);
    tm.tm_gmtoff = vf_int_at("offset", i, -86400, 86400);
    tm.tm_zone = "ZONE";
    w.usec = vf_int_at("microsecond", i, 0, 999999);
}
void x(const char* s) { vf_xout(s, __builtin_strlen(s)); }
void x_strftime(const char* pattern, const when& w) {
    char buf[8192];
    vf_xout(buf, std::strftime(buf, sizeof buf, pattern, &w.tm));
}
void x_usec(const when& w) {
    fmt::MemoryWriter m;
    m.write("{:06d}", w.usec);
    vf_xout(m.data(), m.size());
}
void x_epoch(const when& w) {
    std::tm copy = w.tm;
    fmt::MemoryWriter m;
    m.write("{}", std::mktime(&copy));
    vf_xout(m.data(), m.size());
}
// what is expected of a pattern: pieces of it, where %f and %s stand alone
void x_pieces(const char* const* piece, const when& w) {
    for (; *piece; ++piece) {
        const char* p = *piece;
        if (p[0] == '%' && p[1] == 'f') x_usec(w);
        else if (p[0] == '%' && p[1] == 's') x_epoch(w);
        else x_strftime(p, w);
    }
}
void run(const datetime::generator_t& g, const when& w) {
    datetime::writer_type m;
    g(m, w.tm, w.usec);
    vf_out(m.data(), m.size());
}
}
// every conversion of strftime, alone and in text
extern "C" void vf_main_conversions() {
    static const char* CONVERSION[] = {"%a", "%A", "%b", "%B", "%c", "%C", "%d", "%D", "%e", "%F", "%g", "%G", "%h", "%H", "%I", "%j", "%k", "%l", "%m", "%M",
                                       "%n", "%p", "%r", "%R", "%S", "%t", "%T", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%Y", "%z", "%Z", "%%", "%Ey", "%Od", "%-d", "%05Y"};
    when w;
    make(w, 0);
    const char* c = CONVERSION[vf_case("conversion", 0, 42)];
    long around = vf_case("around", 0, 2);
    std::string pattern = around == 0 ? std::string(c) : around == 1 ? "[" + std::string(c) + "]" : std::string(c) + c;
    run(datetime::make_generator(pattern), w);
    if (around == 1) x("[");
    x_strftime(c, w);
    if (around == 1) x("]");
    if (around == 2) x_strftime(c, w);
    vf_trace_eq("the text is the one strftime makes of the pattern");
    vf_cover("reached");
}
// microseconds and the epoch, wherever they are
extern "C" void vf_main_own() {
    static const char* PATTERN[] = {"%f", "%s", "%f%f", "%s%s", "%f%s", "%s%f", "%H:%M:%S.%f", "%s.%f", "%f %s %f", "%%f", "%%s", "%%%f", "%%%s", "%%%%f", "%%%%%s", "f%fs%s", "%d%f%d", "%s %H %d %Y", "%Y-%m-%d %H:%M:%S.%f %z", "", "plain",
                                    "100%% %f", "%f%%", "%s%%f%f"};
    static const char* PIECES[][8] = {{"%f"}, {"%s"}, {"%f", "%f"}, {"%s", "%s"}, {"%f", "%s"}, {"%s", "%f"}, {"%H:%M:%S.", "%f"}, {"%s", ".", "%f"}, {"%f", " ", "%s", " ", "%f"}, {"%%", "f"}, {"%%", "s"},
                                      {"%%", "%f"}, {"%%", "%s"}, {"%%%%", "f"}, {"%%%%", "%s"}, {"f", "%f", "s", "%s"}, {"%d", "%f", "%d"}, {"%s", " %H %d %Y"}, {"%Y-%m-%d %H:%M:%S.", "%f", " %z"}, {}, {"plain"},
                                      {"100%% ", "%f"}, {"%f", "%%"}, {"%s", "%%", "f", "%f"}};
    when w;
    make(w, 0);
    long c = vf_case("pattern", 0, 23);
    run(datetime::make_generator(PATTERN[c]), w);
    x_pieces(PIECES[c], w);
    vf_trace_eq("microseconds have six digits, the epoch is the one of the time");
    vf_cover("reached");
}
// any number of microseconds is written in full
extern "C" void vf_main_usecond() {
    when w;
    make(w, 0);
    w.usec = (std::uint64_t)vf_int("microseconds", -9223372036854775807L - 1, 9223372036854775807L);
    run(datetime::generator_t("%f"), w);
    x_usec(w);
    vf_trace_eq("all digits of the microseconds are written");
    vf_cover("reached");
}
// text of any length
extern "C" void vf_main_long() {
    when w;
    make(w, 0);
    static const long LENGTH[] = {1023, 1024, 2049, 1019, 1020, 1022, 1025, 2047, 2048, 5000};
    long n = LENGTH[vf_case("length", 0, vf_symbolic() ? 2 : 9)];
    std::string text(n, 'x');
    long where = vf_case("where", 0, 2);
    std::string pattern = where == 0 ? text : where == 1 ? "%Y" + text : text + "%f%H";
    run(datetime::make_generator(pattern), w);
    switch (where) {
    case 0: x(text.c_str()); break;
    case 1: x_strftime("%Y", w); x(text.c_str()); break;
    default: x(text.c_str()); x_usec(w); x_strftime("%H", w);
    }
    vf_trace_eq("text is written whole, however long it is");
    vf_cover("reached");
}
// a generator holds no time
extern "C" void vf_main_again() {
    when a, b;
    make(a, 0);
    make(b, 1);
    static const char* PATTERN[] = {"%s %H:%f %Z", "%Y-%m-%d %H:%M:%S %z", "%Z", "%Y%j%H%M%S", "%d.%f"};
    static const char* PIECES[][8] = {{"%s", " %H:", "%f", " %Z"}, {"%Y-%m-%d %H:%M:%S %z"}, {"%Z"}, {"%Y%j%H%M%S"}, {"%d.", "%f"}};
    long c = vf_case("pattern", 0, 4);
    b.tm.tm_zone = "NOZE";
    const auto g = datetime::make_generator(PATTERN[c]);
    const auto other = g;
    vf_share(&g);
    run(g, a);
    run(other, b);
    run(g, b);
    run(g, a);
    vf_unshare();
    x_pieces(PIECES[c], a);
    x_pieces(PIECES[c], b);
    x_pieces(PIECES[c], b);
    x_pieces(PIECES[c], a);
    vf_trace_eq("every time is shown by itself");
    vf_cover("reached");
}
// the text follows what was written before, and the time given is not changed
extern "C" void vf_main_append() {
    when w;
    make(w, 0);
    const std::tm tm = w.tm;
    auto before = vf::sv("before");
    datetime::writer_type m;
    m << fmt::StringRef(before.data(), before.size());
    datetime::make_generator("%s|%f|%d")(m, w.tm, w.usec);
    vf_out(m.data(), m.size());
    vf::out(before);
    static const char* PIECES[] = {"%s", "|", "%f", "|", "%d", nullptr};
    x_pieces(PIECES, w);
    vf_trace_eq("the text is appended");
    vf_check(tm.tm_sec == w.tm.tm_sec && tm.tm_min == w.tm.tm_min && tm.tm_hour == w.tm.tm_hour && tm.tm_mday == w.tm.tm_mday && tm.tm_mon == w.tm.tm_mon && tm.tm_year == w.tm.tm_year
             && tm.tm_wday == w.tm.tm_wday && tm.tm_yday == w.tm.tm_yday && tm.tm_isdst == w.tm.tm_isdst && tm.tm_gmtoff == w.tm.tm_gmtoff, "the time given is not changed");
    vf_cover("reached");
}
// bounded: any sequence of conversions and characters
extern "C" void vf_rt_pattern() {
    static const char* PIECE[] = {"%f", "%s", "%%", "%H", "%Y-%m-%d", "%Z", "%z", "%p", "f", "s", ":", "{}", " ", "%j", "%e", "\xd0\xb9", "%n", "%5f"};
    when w;
    make(w, 0);
    long n = vf_size("n", 0, 40);
    std::string pattern, literal;
    auto flush = [&] { if (!literal.empty()) x_strftime(literal.c_str(), w); literal.clear(); };
    for (long i = 0; i < n; ++i) {
        long p = vf_int_at("piece", i, 0, 16);
        pattern += PIECE[p];
        if (p > 1) { literal += PIECE[p]; continue; }
        flush();
        if (p) x_epoch(w); else x_usec(w);
    }
    flush();
    run(datetime::make_generator(pattern), w);
    vf_trace_eq("every placeholder is shown in its place");
    vf_cover("reached");
}
