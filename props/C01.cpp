// C01: dispatch of a log event by the root logger
#include "vf_util.hpp"
#include "vf_throw.hpp"
#include "blackhole/root.hpp"
#include "blackhole/builder.hpp"
#include "blackhole/extensions/facade.hpp"
using namespace blackhole;
using vf::sv;
namespace {
struct probe {
    long n; bool pass; int sev; string_view msg;
    probe() : n(vf_size("n", 0, 1 << 20)), pass(vf_int("pass", 0, 1)),
        sev((int)vf_int("severity", -2147483648L, 2147483647L)), msg(sv("message")) {}
};
struct ghost_handler : public handler_t {
    long id; long fail;
    ghost_handler(long i, long f) : id(i), fail(f) {}
    void handle(const record_t& r) override {
        vf_ev("handle", id, int(r.severity()), r.formatted().data(), r.formatted().size());
        vf_ev("message", r.is_active(), r.attributes().size(), r.message().data(), r.message().size());
        vf::fail(fail);
    }
};
std::vector<std::unique_ptr<handler_t>> handlers(long n) {
    return vf::make_vector<std::unique_ptr<handler_t>>(n, [](std::size_t i, void* slot) {
        new (slot) std::unique_ptr<handler_t>(new ghost_handler(i, vf_int_at("fail", i, 0, vf::THROWS)));
    });
}
struct flt {
    long id; bool pass;
    bool operator()(const record_t& r) const {
        vf_ev("filter", int(r.severity()), id, r.message().data(), r.message().size());
        vf::ev("pack", r.attributes().size());
        return pass;
    }
};
// what the contract promises for one event: the filter sees it once, and then every handler in order
void spec(const probe& p, long filter, string_view text, long lazy, long attrs) {
    if (filter >= 0) { vf::ex("filter", p.sev, filter, p.msg); vf::ex("pack", attrs); }
    if (p.pass || filter < 0) {
        vf_cover("accepted");
        if (lazy) vf::ex("build");
        for (long i = 0; i < p.n; ++i) { vf::ex("handle", i, p.sev, text); vf::ex("message", 1, attrs, p.msg); }
    } else vf_cover("rejected");
    vf_trace_eq("every handler sees the accepted event once, in order; a rejected one reaches none");
}
}
extern "C" void vf_main_dispatch() {
    probe p;
    root_logger_t log(flt{1, p.pass}, handlers(p.n));
    attribute_list attrs;
    attribute_pack pack;
    if (vf_int("attributes", 0, 1)) pack.emplace_back(attrs);
    log.log(p.sev, p.msg, pack);
    spec(p, 1, p.msg, 0, pack.size());
}
extern "C" void vf_main_dispatch_plain() {
    probe p;
    root_logger_t log(flt{1, p.pass}, handlers(p.n));
    log.log(p.sev, p.msg);
    spec(p, 1, p.msg, 0, 0);
}
extern "C" void vf_main_dispatch_lazy() {
    probe p;
    auto text = sv("formatted");
    root_logger_t log(flt{1, p.pass}, handlers(p.n));
    attribute_pack pack;
    auto build = [&]() -> string_view { vf::ev("build"); return text; };
    log.log(p.sev, {p.msg, std::cref(build)}, pack);
    spec(p, 1, text, 1, 0);
}
extern "C" void vf_main_no_filter() {
    probe p;
    root_logger_t log(handlers(p.n));
    log.log(p.sev, p.msg);
    spec(p, -1, p.msg, 0, 0);
    vf_cover("reached");
}
extern "C" void vf_main_replace_filter() {
    probe p;
    root_logger_t log(flt{1, bool(vf_int("old", 0, 1))}, handlers(p.n));
    log.filter(flt{2, p.pass});
    log.log(p.sev, p.msg);
    spec(p, 2, p.msg, 0, 0);
}
extern "C" void vf_main_move_construct() {
    probe p;
    root_logger_t src(flt{1, p.pass}, handlers(p.n));
    root_logger_t log(std::move(src));
    log.log(p.sev, p.msg);
    spec(p, 1, p.msg, 0, 0);
}
extern "C" void vf_main_move_assign() {
    probe p;
    root_logger_t src(flt{1, p.pass}, handlers(p.n));
    root_logger_t log(flt{3, true}, {});
    log = std::move(src);
    log.log(p.sev, p.msg);
    spec(p, 1, p.msg, 0, 0);
}
extern "C" void vf_main_builder() {
    probe p;
    vf_assume(p.pass);
    auto log = blackhole::builder<root_logger_t>()
        .add(std::unique_ptr<handler_t>(new ghost_handler(0, vf_int("f0", 0, 3))))
        .add(std::unique_ptr<handler_t>(new ghost_handler(1, vf_int("f1", 0, 3))))
        .build();
    log->log(p.sev, p.msg);
    p.n = 2;
    spec(p, -1, p.msg, 0, 0);
}
