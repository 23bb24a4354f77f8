// C13: what a file sink writes, where and in which order
#include "vf_stream.hpp"
#include "vf_throw.hpp"
#include "vf_registry.hpp"
#include "blackhole/sink/file.hpp"
#include "src/sink/file.hpp"
#include "src/sink/file/rotate/null.hpp"
#include "src/sink/file/rotate/stat.hpp"
using namespace blackhole;
using namespace blackhole::sink;
using vf::sv;
namespace cfg = vf::cfg;
namespace {
long stats;
}
// what the file system says about the watched file: its inode number, or that it is not there
extern "C" int stat(const char* path, struct stat* buf) noexcept {
    vf::ev("stat", stats, 0, string_view(path, __builtin_strlen(path)));
    long ino = vf_int_at("inode", stats++, 0, 1L << 40);
    if (ino == 0) { errno = ENOENT; return -1; }
    buf->st_ino = ino;
    return 0;
}
namespace {
struct world {
    long now = 0, opened = 0, closed = 0, watched = 0, fail = 0;
    string_view path;
    world() : path(sv("path")) {}
    std::string name() const { return std::string(path.data(), path.size()); }
    void check(const std::string& f) const { vf::same(f, path, "the configured path is the one used"); }
};
struct ghost_rotate : public file::rotate_t {
    const world& w; long made;
    ghost_rotate(const world& w) : w(w), made(w.now) {}
    auto should_rotate() -> bool override { return w.now != made; }
};
struct ghost_rotates : public file::rotate_factory_t {
    world& w;
    ghost_rotates(world& w) : w(w) {}
    auto create(const std::string& filename) const -> std::unique_ptr<file::rotate_t> override {
        w.check(filename);
        ++w.watched;
        return std::unique_ptr<file::rotate_t>(new ghost_rotate(w));
    }
};
struct ghost_stream : public vf::stream {
    world& w;
    ghost_stream(world& w) : w(w) {}
    ~ghost_stream() { ++w.closed; }
};
struct ghost_streams : public file::stream_factory_t {
    world& w;
    ghost_streams(world& w) : w(w) {}
    auto create(const std::string& filename, std::ios_base::openmode mode) const -> std::unique_ptr<std::ostream> override {
        w.check(filename);
        vf_check((mode & std::ios_base::app) && (mode & std::ios_base::out) && !(mode & std::ios_base::trunc) , "the file is opened for appending");
        if (w.fail > 0 && w.fail--) vf::fail(vf_case("open fails by", 1, vf::THROWS));
        vf::ev("open", w.opened++);
        return std::unique_ptr<std::ostream>(new ghost_stream(w));
    }
};
struct ghost_flusher : public file::flusher_t {
    long i;
    ghost_flusher(long i) : i(i) {}
    void reset() override {}
    auto update(std::size_t n) -> result_t override {
        vf::ev("written", n);
        return vf_int_at("flush", i++, 0, 1) ? flush : idle;
    }
};
struct ghost_flushers : public file::flusher_factory_t {
    const world& w;
    ghost_flushers(world& w) : w(w) {}
    auto create() const -> std::unique_ptr<file::flusher_t> override { return std::unique_ptr<file::flusher_t>(new ghost_flusher(w.now << 24)); }
};
std::unique_ptr<file_t> mk(world& w) {
    return std::unique_ptr<file_t>(new file_t(w.name(), std::unique_ptr<file::stream_factory_t>(new ghost_streams(w)),
        std::unique_ptr<file::rotate_factory_t>(new ghost_rotates(w)), std::unique_ptr<file::flusher_factory_t>(new ghost_flushers(w))));
}
struct rec_t {
    string_view msg; attribute_pack pack; record_t rec;
    rec_t() : msg(sv("message")), rec((int)vf_int("severity", -2147483648L, 2147483647L), msg, pack) {}
};
void emit(file_t& sink, const rec_t& r, long era, long n) {
    if (n == 0) return;
    sink.emit(r.rec, vf::sv_at("text", era << 24));
    for (long i = 1; i < n; ++i) sink.emit(r.rec, vf::sv_at("text", (era << 24) + i));
}
void ex_emit(long era, long n, bool open = true) {
    if (n && open) vf::ex("open", era);
    for (long i = 0; i < n; ++i) {
        auto t = vf::sv_at("text", (era << 24) + i);
        vf::out(t);
        vf::out("\n");
        vf::ex("written", t.size() + 1);
        if (vf_int_at("flush", (era << 24) + i, 0, 1)) vf::ex("flush");
    }
}
}
// every text is written to the configured path, appended, followed by a newline; flushed when the policy says so
extern "C" void vf_main_write() {
    world w;
    rec_t r;
    long n = vf_size("n", 0, 1 << 20);
    {
        auto sink = mk(w);
        emit(*sink, r, 0, n);
    }
    vf_check(w.closed == (n > 0), "the file is opened at the first event and closed with the sink");
    ex_emit(0, n);
    vf_trace_eq("texts are appended to the file in order, each followed by a newline");
    vf_cover("reached");
}
// events of several threads: what a sink keeps is used, and each event written and counted, under one lock
extern "C" void vf_main_threads() {
    world w;
    rec_t r;
    auto sink = mk(w);
    for (long e = 0; e < 4; ++e) {
        vf_share(sink.get());
        emit(*sink, r, e, 1);
        vf_unshare();
        vf_check(vf_atomic_output(), "an event is written under one lock, always the same");
        if (e == 1) ++w.now;
    }
    vf_cover("reached");
}
// when the file was replaced, the next event goes to a newly opened file, and the old one is closed
extern "C" void vf_main_rotate() {
    world w;
    rec_t r;
    long n = vf_size("n", 1, 1 << 20), k = vf_size("k", 0, 1 << 20);
    auto sink = mk(w);
    emit(*sink, r, 0, n);
    ++w.now;
    vf_check(w.closed == 0, "no rotation without an event");
    emit(*sink, r, 1, k);
    vf_check(w.closed == (k > 0), "the replaced file is closed");
    vf_check(w.opened == w.watched, "every opened file is watched");
    ex_emit(0, n);
    ex_emit(1, k);
    vf_trace_eq("after a rotation texts go to the newly opened file");
    vf_cover("reached");
}
extern "C" void vf_main_rotate_twice() {
    world w;
    rec_t r;
    auto sink = mk(w);
    for (long e = 0; e < 3; ++e) { emit(*sink, r, e, 2); ++w.now; }
    vf_check(w.closed == 2, "the replaced files are closed");
    for (long e = 0; e < 3; ++e) ex_emit(e, 2);
    vf_trace_eq("after each rotation texts go to the newly opened file");
    vf_cover("reached");
}
// an event whose file cannot be opened is reported, and the next one tries again
extern "C" void vf_main_cannot_open() {
    world w;
    rec_t r;
    long before = vf_int("before", 0, 1);
    auto sink = mk(w);
    if (before) { emit(*sink, r, 0, 1); ++w.now; }
    w.fail = 1;
    bool thrown = false;
    try { sink->emit(r.rec, sv("lost")); } catch (...) { thrown = true; }
    vf_check(thrown, "the failure is reported");
    emit(*sink, r, before, 2);
    if (before) ex_emit(0, 1);
    ex_emit(before, 2);
    vf_trace_eq("a failed open writes nothing and is tried again");
    vf_cover("reached");
}
// the stat policy: rotate when the file is gone or is another file
extern "C" void vf_main_stat() {
    stats = 0;
    auto path = vf::text("path");
    long first = vf_int_at("inode", 0, 0, 1L << 40);
    vf_assume(first != 0);
    auto r = file::rotate::stat_factory_t().create(std::string(path.data(), path.size()));
    vf::ex("stat", 0, 0, path);
    for (long i = 1; i < 4; ++i) {
        bool rotate = r->should_rotate();
        vf_check(rotate == (vf_int_at("inode", i, 0, 1L << 40) != first), "rotates exactly when the file is gone or another one");
        vf::ex("stat", i, 0, path);
    }
    vf_trace_eq("the watched path is the given one");
    vf_cover("reached");
}
extern "C" void vf_main_config() {
    vf::registry reg;
    auto path = sv("path");
    long rot = vf_case("rotate", 0, 2), n = vf_case("n", 0, 3);
    cfg::entry rt[] = {{"type", rot == 0 ? cfg::string("stat") : rot == 1 ? cfg::string("statx") : cfg::sint(1)}};
    cfg::entry items[] = {{"type", cfg::string("file")}, {"path", cfg::string(path)}, {"rotate", cfg::object(rt, 1)}};
    bool thrown = false;
    std::unique_ptr<sink_t> s;
    try { s = factory<file_t>(reg).from(cfg::node(cfg::object(items, n))); } catch (const std::exception&) { thrown = true; }
    bool bad = n < 2 || (n == 3 && rot != 0);
    vf_check(thrown == bad, "refused exactly when the path is missing or the rotation is unknown");
    if (!thrown) vf::same(static_cast<file_t&>(*s).path(), path, "the configured path is kept");
    vf_cover("reached");
}
