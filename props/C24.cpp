// C24: the network sinks send each text whole, in order, over a connection made when it is needed
#include "vf_util.hpp"
#include "vf_registry.hpp"
#include "vf_net.hpp"
#include "blackhole/sink/socket/tcp.hpp"
#include "blackhole/sink/socket/udp.hpp"
#include "src/sink/socket/tcp.hpp"
#include "src/sink/socket/udp.hpp"
#include <system_error>
#include <boost/lexical_cast.hpp>
using namespace blackhole;
using vf::ev;
using vf::ex;
namespace cfg = vf::cfg;
using sink::socket::tcp_t;
using sink::socket::udp_t;
namespace {
// what the network answers: for the k-th resolution, connection and transfer
long resolutions, transfers;
long resolve_error(long k) { return vf_int_at("resolve error", k, 0, 200); }
long addresses(long k) { return vf_int_at("addresses", k, 1, 1 << 20); }
long connect_error(long k, long i) { return vf_int_at(k ? k == 1 ? "connect error 1" : "connect error 2" : "connect error 0", i, 0, 200); }
long send_error(long k) { return vf_int_at("send error", k, 0, 200); }
long open_error() { return vf_int_at("open error", 0, 0, 200); }
void reset() { resolutions = transfers = 0; }
}
namespace vf_net {
void misuse(const char* what) { vf_check(0, what); }
int resolve(int protocol, const std::string& host, const std::string& service, long& id, long& count) {
    vf_touch();
    ev("resolve", protocol, 0, string_view(host.data(), host.size()));
    ev("service", 0, 0, string_view(service.data(), service.size()));
    id = resolutions++;
    if (resolve_error(id)) return resolve_error(id);
    count = addresses(id);
    return 0;
}
int open(int protocol) { ev("open", protocol); return open_error(); }
int connect(long a, long i) {
    vf_touch();
    ev("connect", a, i);
    return connect_error(a, i);
}
int send(const void* p, std::size_t n, bool whole, std::size_t& sent) {
    long k = transfers++;
    int error = send_error(k);
    sent = n;
    if (error || !whole) sent = vf_int_at("sent", k, !error, n - (error != 0));
    vf_touch();
    vf_out(static_cast<const char*>(p), sent);
    return error;
}
int send_to(const void* p, std::size_t n, long a, long i) {
    long k = transfers++;
    ev("datagram", a, i, string_view(static_cast<const char*>(p), n));
    return send_error(k);
}
void closed() { vf_touch(); ev("closed"); }
}
namespace {
// the text of a number
std::string digits(unsigned short n) { return boost::lexical_cast<std::string>(n); }
struct probe {
    std::string host; unsigned short port;
    probe() : port((unsigned short)vf_int("port", 0, 65535)) {
        reset();
        string_view h = vf::text("host");
        host.assign(h.data(), h.size());
    }
    void x_resolve(int protocol) const {
        ex("resolve", protocol, 0, string_view(host.data(), host.size()));
        std::string s = digits(port);
        ex("service", 0, 0, string_view(s.data(), s.size()));
    }
};
// whether the event is sent; the error that is reported otherwise
template<class S>
bool emit(S& s, std::size_t i, string_view text, long& error) {
    attribute_pack pack;
    string_view raw = vf::sv_at("message", i);
    record_t rec((int)vf_int_at("severity", i, -2147483648L, 2147483647L), raw, pack);
    try { s.emit(rec, text); return true; }
    catch (const std::system_error& e) { error = e.code().value(); }
    catch (const boost::system::system_error& e) { error = e.code().value(); }
    return false;
}
}
// any three events of a connection
extern "C" void vf_main_tcp() {
    probe p;
    {
        tcp_t s(p.host, p.port);
        vf_check(s.host() == p.host && s.port() == p.port, "the sink tells where it sends to");
        bool connected = false;
        long r = 0, t = 0;
        for (int e = 0; e < 3; ++e) {
            string_view text = vf::sv_at("text", e);
            long want = 0, error = 0;
            if (!connected) {
                p.x_resolve(vf_net::TCP);
                long k = r++;
                if (!(want = resolve_error(k))) {
                    for (long i = 0; i < addresses(k); ++i) {
                        ex("connect", k, i);
                        want = connect_error(k, i);
                        if (!want) { connected = true; break; }
                    }
                }
            }
            if (connected && text.size()) {
                long k = t++;
                want = send_error(k);
                vf_xout(text.data(), want ? vf_int_at("sent", k, 0, text.size() - 1) : text.size());
                if (want) { ex("closed"); connected = false; }
            }
            vf_share(&s);
            bool sent = emit(s, e, text, error);
            vf_unshare();
            vf_check(sent == !want, "an event that is not sent is reported");
            vf_check(error == want, "the error is the one of the network");
            vf_trace_eq("the text is sent whole over a connection that is made when there is none");
            vf_check(vf_atomic_output(), "connections are made and used under one lock");
        }
        if (connected) ex("closed");
    }
    vf_trace_eq("the connection ends with the sink");
    vf_cover("reached");
}
// datagrams
extern "C" void vf_main_udp() {
    probe p;
    long error = 0, want = 0;
    std::unique_ptr<udp_t> s;
    try { s.reset(new udp_t(p.host, p.port)); }
    catch (const boost::system::system_error& e) { error = e.code().value(); }
    p.x_resolve(vf_net::UDP);
    if (!(want = resolve_error(0))) {
        ex("open", vf_net::UDP);
        want = open_error();
    }
    vf_check(bool(s) == !want && error == want, "a failure of the network is reported");
    vf_trace_eq("the address is that of the host");
    if (!s) return;
    std::size_t n = vf_size("n", 0, 1 << 20);
    for (std::size_t i = 0; i < n; ++i) {
        string_view text = vf::sv_at("text", i);
        long error = 0;
        bool sent = emit(*s, i, text, error);
        ex("datagram", 0, 0, text);
        vf_check(sent == !send_error(i) && error == send_error(i), "an event that is not sent is reported");
    }
    vf_trace_eq("every event is one datagram to the first address");
    vf_cover("reached");
}
// host and port of the configuration
extern "C" void vf_main_config() {
    reset();
    vf::registry reg;
    bool udp = vf_case("udp", 0, 1), has_host = vf_case("has host", 0, 1), has_port = vf_case("has port", 0, 1);
    string_view h = vf::text("host");
    std::string host(h.data(), h.size());
    unsigned long port = vf_int("port", 0, INT64_MAX);
    cfg::entry items[3] = {{"type", cfg::string(udp ? "udp" : "tcp")}, {"", cfg::none()}, {"", cfg::none()}};
    std::size_t n = 1;
    if (has_host) items[n++] = {"host", cfg::string(h)};
    if (has_port) items[n++] = {"port", cfg::uint(port)};
    cfg::node config(cfg::object(items, n));
    bool refused = false;
    std::unique_ptr<sink_t> s;
    try {
        if (udp) s = factory<udp_t>(reg).from(config); else s = factory<tcp_t>(reg).from(config);
    } catch (const std::invalid_argument&) { refused = true; }
    catch (const boost::system::system_error&) {}
    vf_check(refused == !(has_host && has_port && port <= 65535), "host and port are needed, the port is a number of 16 bits");
    if (!refused) {
        std::string d = digits(port);
        bool made = bool(s);
        if (made && !udp) {
            auto& t = static_cast<tcp_t&>(*s);
            vf_check(t.host() == host && t.port() == port, "host and port are those of the configuration");
            return vf_cover("tcp");
        }
        ex("resolve", udp ? vf_net::UDP : vf_net::TCP, 0, string_view(host.data(), host.size()));
        ex("service", 0, 0, string_view(d.data(), d.size()));
        if (udp && !resolve_error(0)) ex("open", vf_net::UDP);
    }
    vf_trace_eq("host and port are those of the configuration");
    vf_check(std::string("udp") == factory<udp_t>(reg).type() && std::string("tcp") == factory<tcp_t>(reg).type(), "the types are named tcp and udp");
    vf_cover("reached");
}
