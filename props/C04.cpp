// C04: an owned copy of a record shows the same data after the original record and its buffers are gone
#include "vf_util.hpp"
#include "recordbuf.hpp"
using namespace blackhole;
using vf::sv;
using vf::sv_at;
namespace {
void show(const record_t& r) {
    vf::ev("message", 0, 0, r.message());
    vf::ev("formatted", 0, 0, r.formatted());
    vf::ev("severity", int(r.severity()), (long)r.tid());
    vf::ev("timestamp", r.timestamp().time_since_epoch().count());
}
}
// how: 0 = the copy itself, 1 = moved once, 2 = move-assigned over another one, 3 = moved twice
static void check(long n, bool values, long how, long n2) {
    auto m = sv("message"), f = sv("formatted");
    long sev = vf_int("severity", -2147483648L, 2147483647L), tid = 0, ts = 0;
    bool active = vf_int("active", 0, 1);
    std::unique_ptr<recordbuf_t> buf;
    {
        // the originals live in heap buffers that are destroyed before the copy is looked at
        std::unique_ptr<std::string> om(new std::string(m.data(), m.size())), of(new std::string(f.data(), f.size()));
        std::unique_ptr<string_view> vm(new string_view(*om)), vfm(new string_view(*of));
        std::unique_ptr<attribute_list> list(new attribute_list);
        list->~attribute_list();
        vf::make_small(list.get(), n, [values](std::size_t i, void* slot) {
            auto k = sv_at("key", i);
            auto v = vf::value_at(i);
            if (!values) v.kind = 2;
            new (slot) attribute_list::value_type(k, vf::view(v));
        });
        std::unique_ptr<attribute_list> list2(new attribute_list);
        list2->~attribute_list();
        vf::make_small(list2.get(), n2, [](std::size_t i, void* slot) {
            new (slot) attribute_list::value_type(sv_at("second key", i), attribute::view_t(sv_at("second value", i)));
        });
        std::unique_ptr<attribute_pack> pack(new attribute_pack{*list, *list2});
        std::unique_ptr<record_t> rec;
        {
            rec.reset(new record_t((int)sev, *vm, *pack));
            if (active) rec->activate(*vfm);
            tid = (long)rec->tid();
            ts = rec->timestamp().time_since_epoch().count();
        }
        buf.reset(new recordbuf_t(*rec));
    }
    if (how == 1 || how == 3) buf.reset(new recordbuf_t(std::move(*buf)));
    if (how == 3) buf.reset(new recordbuf_t(std::move(*buf)));
    if (how == 2) {
        attribute_pack empty;
        string_view om("other", 5);
        record_t other(1, om, empty);
        std::unique_ptr<recordbuf_t> b(new recordbuf_t(other));
        *b = std::move(*buf);
        buf = std::move(b);
    }
    record_t r = buf->into_view();
    show(r);
    vf::ex("message", 0, 0, m);
    vf::ex("formatted", 0, 0, active && f.data() ? f : m);
    vf::ex("severity", sev, tid);
    vf::ex("timestamp", ts);
    vf_trace_eq("message, text, severity, thread and time are those of the original");
    long at = 0;
    for (const auto& l : r.attributes()) { vf::dump(l.get(), at); at += l.get().size(); }
    for (long i = 0; i < n; ++i) {
        auto v = vf::value_at(i);
        if (!values) v.kind = 2;
        vf::ex("key", i, 0, sv_at("key", i));
        vf::ex_value(v, i);
    }
    for (long i = 0; i < n2; ++i) {
        vf::ex("key", n + i, 0, sv_at("second key", i));
        vf::ex("string", n + i, 0, sv_at("second value", i));
    }
    vf_trace_eq("attributes are those of the original, in order");
    vf_cover("reached");
}
extern "C" void vf_main_copy() { check(vf_size("n", 0, 1 << 20), true, 0, 0); }
extern "C" void vf_main_move_construct() { check(vf_size("n", 0, 1 << 20), true, 1, 0); }
extern "C" void vf_main_move_assign() { check(vf_size("n", 0, 1 << 20), true, 2, 0); }
extern "C" void vf_main_move_twice() { check(vf_size("n", 0, 1 << 20), false, 3, 0); }
// several lists: up to three attributes in each of two
extern "C" void vf_main_lists() { check(vf_case("n", 0, 3), false, 0, vf_case("n2", 0, 3)); }

// an attribute of a user's type: the copy has the text that its display_traits write
extern "C" void vf_main_user_type() {
    auto m = sv("message"), a = sv("a"), b = sv("b");
    std::unique_ptr<recordbuf_t> buf;
    {
        std::unique_ptr<vf::printer> p(new vf::printer{a, b});
        attribute_list list, empty;
        list.emplace_back("user", attribute::view_t(*p));
        list.emplace_back("next", attribute::view_t(b));
        attribute_pack pack{empty, list};
        record_t r(0, m, pack);
        buf.reset(new recordbuf_t(r));
    }
    record_t r = buf->into_view();
    long at = 0;
    for (const auto& l : r.attributes()) { vf::dump(l.get(), at); at += l.get().size(); }
    std::string all(a.data(), a.size());
    all.append(b.data(), b.size());
    vf::ex("key", 0, 0, "user");
    vf::ex("string", 0, 0, string_view(all.data(), all.size()));
    vf::ex("key", 1, 0, "next");
    vf::ex("string", 1, 0, b);
    vf_trace_eq("a user's type is kept as its text");
    vf_cover("reached");
}
