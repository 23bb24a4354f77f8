// C16: the severity filter
#include "vf_cfg.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/filter/severity.hpp"
#include "blackhole/filter.hpp"
#include "blackhole/record.hpp"
#include "blackhole/attribute.hpp"
#include "blackhole/attributes.hpp"
using namespace blackhole;
using vf::sv;
namespace cfg = vf::cfg;
namespace {
void decide(const cfg::tree& threshold, bool pass, int sev) {
    cfg::entry items[] = {{"type", cfg::string("severity")}, {"threshold", threshold}};
    factory<filter::severity_t> f;
    auto filter = f.from(cfg::node(cfg::object(items, 2)));
    auto msg = sv("message");
    attribute_list attrs;
    attribute_pack pack;
    if (vf_int("attributes", 0, 1)) pack.emplace_back(attrs);
    record_t rec(sev, msg, pack);
    vf_share(filter.get());
    auto r = filter->filter(rec);
    vf_check((r != filter_t::action_t::deny) == pass, "passes exactly when the severity reaches the threshold");
    // other events in between do not matter
    record_t other((int)vf_int("other", -2147483648L, 2147483647L), msg, pack);
    filter->filter(other);
    vf_check(filter->filter(rec) == r, "the same event is decided the same way again");
    vf_unshare();
    vf_cover("reached");
}
}
extern "C" void vf_main_decision() {
    long thr = vf_int("threshold", -2147483648L - 3, 2147483647L + 3);
    int sev = (int)vf_int("severity", -2147483648L, 2147483647L);
    decide(cfg::sint(thr), sev >= thr, sev);
}
extern "C" void vf_main_decision_wide() {
    long thr = vf_int("threshold", INT64_MIN, INT64_MAX);
    int sev = (int)vf_int("severity", -2147483648L, 2147483647L);
    decide(cfg::sint(thr), sev >= thr, sev);
}
extern "C" void vf_main_near() {
    long sev = vf_int("severity", -2147483648L, 2147483647L);
    long thr = sev + vf_int("distance", -2, 2);
    decide(cfg::sint(thr), sev >= thr, (int)sev);
}
extern "C" void vf_main_not_configured() {
    cfg::entry items[] = {{"type", cfg::string("severity")}, {"thresholds", cfg::sint(vf_int("threshold", -100, 100))}};
    factory<filter::severity_t> f;
    bool thrown = false;
    try { f.from(cfg::node(cfg::object(items, vf_int("n", 0, 2)))); } catch (const std::exception&) { thrown = true; }
    vf_check(thrown, "a filter without a threshold is refused");
    vf_cover("reached");
}
