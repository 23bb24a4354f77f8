// C23: threads may log through a logger, replace its filter and assign another one to it at the same time
#include "vf_util.hpp"
#include "blackhole/root.hpp"
#include <pthread.h>
using namespace blackhole;
using vf::sv;
namespace {
// ---- what another thread does, in between: at a chosen point, which is before a lock is taken or where the logger calls others
struct {
    bool armed, busy;
    long left, count;
    void (*act)();
} other;
void point() {
    if (!other.armed || other.busy) return;
    if (other.left-- != 0) return;
    other.busy = true;
    other.act();
    other.busy = false;
    ++other.count;
}
// ---- what is observed
struct seen { long filters, filter, handlers, first, second; } now;
struct { bool dead[10]; bool pass[10]; } world;
struct ghost_handler : public handler_t {
    long id;
    explicit ghost_handler(long id) : id(id) { world.dead[id] = false; }
    ~ghost_handler() { world.dead[id] = true; }
    void handle(const record_t& r) override {
        point();
        vf_check(!world.dead[id], "a handler is alive while it handles an event");
        if (other.busy) return;
        if (now.handlers == 0) now.first = id;
        if (now.handlers == 1) now.second = id;
        ++now.handlers;
    }
};
struct flt {
    long id;
    bool operator()(const record_t&) const {
        long i = id;
        point();
        if (!other.busy) { ++now.filters; now.filter = i; }
        return world.pass[i];
    }
};
std::vector<std::unique_ptr<handler_t>> handlers(long a, long b) {
    std::vector<std::unique_ptr<handler_t>> r;
    r.emplace_back(new ghost_handler(a));
    r.emplace_back(new ghost_handler(b));
    return r;
}
struct env {
    root_logger_t log, b, c;
    env() : log(flt{1}, handlers(1, 2)), b(flt{2}, handlers(3, 4)), c(flt{3}, handlers(5, 6)) {}
};
env* E;
void do_filter8() { E->log.filter(flt{8}); }
void do_filter9() { E->log.filter(flt{9}); }
void do_assign_b() { E->log = std::move(E->b); }
void do_assign_c() { E->log = std::move(E->c); }
void do_log() { E->log.log(0, "x"); }
void do_lazy() {
    attribute_pack pack;
    auto build = []() -> string_view { point(); return "y"; };
    E->log.log(0, {"x", std::cref(build)}, pack);
}
void (*const ACTION[])() = {do_log, do_lazy, do_filter8, do_assign_b, do_filter9, do_assign_c};
// the event was judged by the filter and handled by all the handlers of the logger that has it
bool whole(long filter, long first) {
    return now.filters == 1 && now.filter == filter && (world.pass[filter] ? now.handlers == 2 && now.first == first && now.second == first + 1 : now.handlers == 0);
}
bool either(long f1, long h1, long f2, long h2) { return whole(f1, h1) || whole(f2, h2); }
}
extern "C" int vf_contract_lock(void* lock) { point(); return pthread_mutex_lock(static_cast<pthread_mutex_t*>(lock)); }
// two operations, the second of which runs at any one point of the first
extern "C" void vf_main_interleave() {
    other = decltype(other)();
    for (long i = 0; i < 10; ++i) world.pass[i] = vf_int_at("pass", i, 0, 1);
    vf_on_lock(point);
    {
        env e;
        E = &e;
        long first = vf_case("first", 0, 3), second = vf_case("second", 4, 7);
        now = seen();
        if (second > 5) second = second == 6 ? 0 : 1;
        other.act = ACTION[second];
        other.left = vf_case("point", 0, 7);
        other.armed = true;
        ACTION[first]();
        other.armed = false;
        if (first < 2) {
            if (second == 4) vf_check(either(1, 1, 9, 1), "an event is judged by the filter in force, and handled by all handlers or none");
            else if (second == 5) vf_check(either(1, 1, 3, 5), "an event is judged and handled by one logger, the old one or the new one");
            else vf_check(whole(1, 1), "events of two threads do not disturb each other");
        }
        if (other.count == 0) ACTION[second]();
        now = seen();
        do_log();
        if (second < 2) vf_check(first < 2 ? whole(1, 1) : first == 2 ? whole(8, 1) : whole(2, 3), "logging changes nothing");
        else if (first < 2) vf_check(second == 4 ? whole(9, 1) : whole(3, 5), "what was configured is in force");
        else if (first == 2) vf_check(second == 4 ? either(8, 1, 9, 1) : either(8, 5, 3, 5), "nothing configured is lost: a filter set and a logger assigned");
        else vf_check(second == 4 ? either(9, 3, 2, 3) : either(2, 3, 3, 5), "nothing configured is lost: a logger assigned and another change");
        vf_cover("reached");
    }
    vf_on_lock(nullptr);
}
// what the threads share is only changed, and used, under its lock
extern "C" void vf_main_locks() {
    other = decltype(other)();
    for (long i = 0; i < 10; ++i) world.pass[i] = vf_int_at("pass", i, 0, 1);
    env e;
    E = &e;
    vf_share(&e.log);
    long a = vf_case("first", 0, 5), b = vf_case("second", 0, 5);
    ACTION[a]();
    vf_share(&e.log);
    ACTION[b]();
    vf_share(&e.log);
    do_log();
    do_lazy();
    do_filter9();
    vf_unshare();
    vf_cover("reached");
}
