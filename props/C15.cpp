// C15: the syslog sink gives syslog the whole text with the priority configured for the event severity
#include "vf_registry.hpp"
#include "blackhole/sink/syslog.hpp"
#include <syslog.h>
#ifdef VF_RT
#include <cstdarg>
#include <cstdio>
// the C library's entry point, recorded instead of delivered
extern "C" void syslog(int priority, const char* format, ...) {
    va_list ap, aq;
    va_start(ap, format);
    va_copy(aq, ap);
    int n = std::vsnprintf(nullptr, 0, format, ap);
    std::string s(n + 1, 0);
    std::vsnprintf(&s[0], n + 1, format, aq);
    va_end(ap); va_end(aq);
    vf_ev("syslog", priority, 0, s.data(), n);
}
extern "C" void openlog(const char*, int, int) {}
extern "C" void closelog() {}
#endif
using namespace blackhole;
namespace cfg = vf::cfg;
namespace {
const char* WHAT = "the whole text with the priority of the severity";
const long LO = -2147483648L, HI = 2147483647L;
cfg::tree priority(std::size_t i) { return cfg::sint(vf_int_at("priority", i, 0, 1023)); }
void ex_emit(long sev, long n, string_view text) {
    vf::ex("syslog", sev >= 0 && sev < n ? vf_int_at("priority", sev, 0, 1023) : LOG_ERR, 0, text);
}
void emit(sink_t& sink, int sev, string_view text) {
    attribute_pack pack;
    string_view raw = vf::sv("message");
    record_t rec(sev, raw, pack);
    sink.emit(rec, text);
}
}
extern "C" void vf_main_configured() {
    vf::registry reg;
    long n = vf_size("n", 0, 1 << 20);
    cfg::entry items[] = {{"type", cfg::string("syslog")}, {"priorities", cfg::vector(n, priority)}};
    auto sink = factory<sink::syslog_t>(reg).from(cfg::node(cfg::object(items, 2)));
    auto text = vf::text("text");
    vf_assume(text.size() <= 0x7fffffff);
    int sev = (int)vf_int("severity", LO, HI);
    emit(*sink, sev, text);
    ex_emit(sev, n, text);
    vf_trace_eq(WHAT);
    vf_cover("reached");
}
extern "C" void vf_main_near_the_ends() {
    vf::registry reg;
    long n = vf_size("n", 0, 1 << 20);
    cfg::entry items[] = {{"type", cfg::string("syslog")}, {"priorities", cfg::vector(n, priority)}};
    auto sink = factory<sink::syslog_t>(reg).from(cfg::node(cfg::object(items, 2)));
    auto text = vf::text("text");
    vf_assume(text.size() <= 0x7fffffff);
    long d = vf_int("distance", -2, 2);
    int sev = (int)(vf_int("end", 0, 1) ? n + d : d);
    vf_share(sink.get());
    emit(*sink, sev, text);
    emit(*sink, 0, text);
    vf_unshare();
    ex_emit(sev, n, text);
    ex_emit(0, n, text);
    vf_trace_eq(WHAT);
    vf_cover("reached");
}
extern "C" void vf_main_default() {
    vf::registry reg;
    cfg::entry items[] = {{"type", cfg::string("syslog")}};
    auto sink = factory<sink::syslog_t>(reg).from(cfg::node(cfg::object(items, 1)));
    auto text = vf::text("text");
    vf_assume(text.size() <= 0x7fffffff);
    int sev = (int)vf_int("severity", LO, HI);
    emit(*sink, sev, text);
    ex_emit(sev, 0, text);
    vf_trace_eq("without configured priorities everything is an error");
    vf_cover("reached");
}
