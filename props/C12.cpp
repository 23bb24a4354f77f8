// C12: flush policies of the file sink
#include "vf_registry.hpp"
#include "blackhole/sink/file.hpp"
#include "src/sink/file.hpp"
#include "src/sink/file/flusher/bytecount.hpp"
#include "src/sink/file/flusher/repeat.hpp"
using namespace blackhole;
using namespace blackhole::sink;
using vf::sv;
namespace cfg = vf::cfg;
namespace fl = blackhole::sink::file::flusher;
typedef file::flusher_t flusher_t;
namespace {
const char* EVERY = "flushes on every n-th write exactly";
const char* BYTES = "flushes exactly when the bytes written pass a multiple of the threshold";
const long SIZE = 1L << 40;          // no single text is longer
// puts a policy into the state "c counted so far"; nothing to verify when there is no such state to set
template<class T> auto preset(T& f, std::size_t c, int) -> decltype(f.counter = c, true) { f.counter = c; return true; }
template<class T> bool preset(T&, std::size_t, long) { return false; }
template<class T> auto counted(T& f, int) -> decltype(f.counter + 0) { return f.counter; }
template<class T> std::size_t counted(T&, long) { return 0; }
// the policy as a specification: counts modulo n
struct spec_t {
    std::size_t n, c;
    spec_t(std::size_t n) : n(n), c(0) {}
    bool write(std::size_t w) {
        if (n == 0 || w == 0) return false;
        // w / n is not needed: only whether a multiple of n is reached
        if (w >= n - c) { c = (c + w) % n; return true; }
        c += w;
        return false;
    }
};
void every(flusher_t& f, std::size_t n, int steps) {
    std::size_t c = 0;
    for (int i = 0; i < steps; ++i) {
        std::size_t w = vf_int_at("size", i, 0, SIZE);
        bool flush = f.update(w) == flusher_t::flush;
        bool want = w && ++c == n;
        if (want) c = 0;
        vf_check(flush == want, EVERY);
    }
}
void bytes(flusher_t& f, std::size_t n, int steps, long max) {
    spec_t s(n);
    std::size_t pending = 0;
    for (int i = 0; i < steps; ++i) {
        std::size_t w = vf_int_at("size", i, 0, max);
        bool flush = f.update(w) == flusher_t::flush;
        vf_check(flush == s.write(w), BYTES);
        pending = flush ? 0 : pending + w;
        vf_check(n == 0 || pending < n, "the bytes not flushed stay below the threshold");
    }
}
}
// one write in any state the policy can be in
extern "C" void vf_main_every_step() {
    std::size_t n = vf_int("n", 1, INT64_MAX), c = vf_int("counted", 0, INT64_MAX - 1), w = vf_int("size", 0, SIZE);
    vf_assume(c < n);
    fl::repeat_t f(n);
    if (!preset(f, c, 0)) return;
    bool flush = f.update(w) == flusher_t::flush;
    vf_check(flush == (w > 0 && c + 1 == n), EVERY);
    vf_check(counted(f, 0) == (w == 0 ? c : c + 1 == n ? 0 : c + 1), "the writes since the last flush are counted");
    vf_cover("reached");
}
extern "C" void vf_main_bytes_step() {
    // total: bytes written so far = q * n + c;  pending: those since the last flush
    std::size_t n = vf_int("n", 1, INT64_MAX), c = vf_int("counted", 0, INT64_MAX - 1), w = vf_int("size", 0, SIZE), pending = vf_int("pending", 0, INT64_MAX - 1);
    vf_assume(c < n);
    vf_assume(pending <= c);
    fl::bytecount_t f(n);
    if (!preset(f, c, 0)) return;
    bool flush = f.update(w) == flusher_t::flush;
    vf_check(flush == (w > 0 && c + w >= n), BYTES);
    std::size_t left = flush ? 0 : pending + w;
    vf_check(left < n, "the bytes not flushed stay below the threshold");
    vf_check(counted(f, 0) < n && left <= counted(f, 0), "the state stays as assumed");
    vf_check(counted(f, 0) == (c + w) % n, "the bytes written are counted modulo the threshold");
    vf_cover("reached");
}
// from the start
extern "C" void vf_main_every() {
    long n = vf_int("n", 1, INT64_MAX);
    fl::repeat_factory_t factory(n);
    auto f = factory.create();
    every(*f, n, 5);
    vf_cover("reached");
}
extern "C" void vf_main_bytes() {
    long n = vf_int("n", 1, INT64_MAX);
    fl::bytecount_factory_t factory(n);
    auto f = factory.create();
    bytes(*f, n, 3, SIZE);
    vf_cover("reached");
}
extern "C" void vf_main_off() {
    auto f = fl::repeat_factory_t(0).create();
    auto g = fl::bytecount_factory_t(0).create();
    for (int i = 0; i < 4; ++i) {
        std::size_t w = vf_int_at("size", i, 0, SIZE);
        vf_check(f->update(w) == flusher_t::idle, "a threshold of zero never flushes");
        vf_check(g->update(w) == flusher_t::idle, "a threshold of zero never flushes");
    }
    vf_cover("reached");
}
extern "C" void vf_rt_long() {
    long n = vf_size("n", 1, 50), steps = vf_size("steps", 1, 300);
    auto f = fl::repeat_factory_t(n).create();
    every(*f, n, steps);
    auto g = fl::bytecount_factory_t(n).create();
    bytes(*g, n, steps, vf_int("max", 1, 120));
}
namespace {
template<class T> auto policy(T& s, int) -> decltype(s.flusher_factory->create()) { return s.flusher_factory->create(); }
template<class T> std::unique_ptr<flusher_t> policy(T&, long) { return nullptr; }
std::unique_ptr<flusher_t> configured(const cfg::tree& flush) {
    vf::registry reg;
    cfg::entry items[] = {{"type", cfg::string("file")}, {"path", cfg::string("/nowhere")}, {"flush", flush}};
    auto s = factory<file_t>(reg).from(cfg::node(cfg::object(items, 3)));
    return policy(static_cast<file_t&>(*s), 0);
}
const char* const UNITS[] = {"", "B", "kB", "MB", "GB", "KiB", "MiB", "GiB"};
std::size_t unit(long i) {
    switch (i) {
    case 2: return 1000;
    case 3: return 1000000;
    case 4: return 1000000000;
    case 5: return 1024;
    case 6: return 1048576;
    case 7: return 1073741824;
    }
    return 1;
}
std::string amount(long v, long u) { std::string s = std::to_string(v); s += UNITS[u]; return s; }
}
// a number of events
extern "C" void vf_main_config_events() {
    long n = vf_int("n", 1, INT64_MAX);
    auto f = configured(cfg::uint(n));
    if (!f) return;
    every(*f, n, 3);
    vf_cover("reached");
}
// an amount of data
extern "C" void vf_main_config_bytes() {
    long u = vf_case("unit", 0, 7), v = vf_int("v", 1, 8000000000L);
    auto text = amount(v, u);
    auto f = configured(cfg::string(string_view(text.data(), text.size())));
    if (!f) return;
    bytes(*f, v * unit(u), 2, SIZE);
    vf_cover("reached");
}
extern "C" void vf_main_units() {
    long u = vf_case("unit", 0, 7), v = vf_int("v", 0, 8000000000L);
    vf_check(fl::parse_dunit(amount(v, u)) == v * unit(u), "the amount in bytes");
    vf_cover("reached");
}
// amounts beyond 64 bits are refused, not wrapped
extern "C" void vf_main_too_large() {
    long u = vf_case("unit", 0, 7);
    std::size_t v = vf_int("v", 0, INT64_MAX);
    bool thrown = false;
    std::size_t r = 0;
    try { r = fl::parse_dunit(amount(v, u)); } catch (const std::exception&) { thrown = true; }
    bool fits = v <= UINT64_MAX / unit(u);
    vf_check(thrown == !fits, "an amount of 2^64 bytes or more is refused");
    if (fits) vf_check(r == v * unit(u), "the amount in bytes");
    vf_cover("reached");
}
extern "C" void vf_main_unknown_unit() {
    long v = vf_int("v", 0, INT64_MAX);
    auto u = sv("unit");
    vf_assume(u.size() > 0 && !(u.data()[0] >= '0' && u.data()[0] <= '9'));
    for (int i = 1; i < 8; ++i) vf_assume(!(u == string_view(UNITS[i], __builtin_strlen(UNITS[i]))));
    std::string s = std::to_string(v);
    s.append(u.data(), u.size());
    bool thrown = false;
    try { fl::parse_dunit(s); } catch (const std::exception&) { thrown = true; }
    vf_check(thrown, "an unknown unit is refused");
    vf_cover("reached");
}
// amounts given to the builder
extern "C" void vf_main_builder() {
    long u = vf_case("unit", 0, 8), v = vf_int("v", 1, 8000000000L);
    std::unique_ptr<sink_t> s;
    builder<file_t> b("/nowhere");
    switch (u) {
    case 0: s = std::move(b).flush_every(std::size_t(v)).build(); break;
    case 1: s = std::move(b).flush_every(bytes_t(v)).build(); break;
    case 2: s = std::move(b).flush_every(kilobytes_t(v)).build(); break;
    case 3: s = std::move(b).flush_every(megabytes_t(v)).build(); break;
    case 4: s = std::move(b).flush_every(gigabytes_t(v)).build(); break;
    case 5: s = std::move(b).flush_every(kibibytes_t(v)).build(); break;
    case 6: s = std::move(b).flush_every(mibibytes_t(v)).build(); break;
    case 7: s = std::move(b).flush_every(gibibytes_t(v)).build(); break;
    // the last one given counts
    case 8: b.flush_every(bytes_t(v)); s = std::move(b).flush_every(std::size_t(v)).build(); break;
    }
    auto f = policy(static_cast<file_t&>(*s), 0);
    if (!f) return;
    if (u == 0 || u == 8) every(*f, v, 3);
    else bytes(*f, v * unit(u), 2, SIZE);
    vf_cover("reached");
}
