// The network by contract: the part of boost.asio that the sinks use, each operation doing what its documentation says.
// What the network answers is decided by the contract harness (vf_net::*); nothing is known about it otherwise.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <boost/version.hpp>
namespace vf_net {
enum { TCP = 1, UDP = 2 };
// 0 and the number (> 0) of addresses of the host, or an error
int resolve(int protocol, const std::string& host, const std::string& service, long& id, long& count);
// 0, or an error
int open(int protocol);
int connect(long addresses, long index);
// of n bytes (n > 0) the first `sent` (> 0 unless there is an error; all of them when whole) are taken, then 0 or an error
int send(const void* p, std::size_t n, bool whole, std::size_t& sent);
int send_to(const void* p, std::size_t n, long addresses, long index);
// a connection ends
void closed();
// what no caller may do
void misuse(const char* what);
}
namespace boost { namespace asio {
namespace error {
enum basic_errors { operation_aborted = 125, connection_refused = 111, connection_reset = 104, broken_pipe = 32, not_connected = 107 };
enum misc_errors { already_open = 1, eof = 2, not_found = 3 };
enum netdb_errors { host_not_found = 1, host_not_found_try_again = 2 };
}
}
namespace system {
template<> struct is_error_code_enum<asio::error::basic_errors> { static const bool value = true; };
template<> struct is_error_code_enum<asio::error::misc_errors> { static const bool value = true; };
template<> struct is_error_code_enum<asio::error::netdb_errors> { static const bool value = true; };
}
namespace asio {
namespace error {
inline boost::system::error_code make_error_code(basic_errors e) { return boost::system::error_code(e, boost::system::system_category()); }
inline boost::system::error_code make_error_code(misc_errors e) { return boost::system::error_code(e, boost::system::system_category()); }
inline boost::system::error_code make_error_code(netdb_errors e) { return boost::system::error_code(e, boost::system::system_category()); }
}
typedef boost::system::error_code vf_error;
inline vf_error vf_make(int e) { return e ? vf_error(e, boost::system::system_category()) : vf_error(); }
namespace detail {
inline void throw_error(const vf_error& e) { if (e) throw boost::system::system_error(e); }
inline void throw_error(const vf_error& e, const char*) { throw_error(e); }
}
class io_service {
public:
    io_service() {}
    explicit io_service(std::size_t) {}
    io_service(const io_service&) = delete;
};
typedef io_service io_context;
struct const_buffer {
    const void* p; std::size_t n;
    const_buffer() : p(nullptr), n(0) {}
    const_buffer(const void* p, std::size_t n) : p(p), n(n) {}
    const void* data() const { return p; }
    std::size_t size() const { return n; }
    const_buffer& operator+=(std::size_t k) { if (k > n) k = n; p = static_cast<const char*>(p) + k; n -= k; return *this; }
};
inline const_buffer operator+(const const_buffer& b, std::size_t k) { const_buffer r(b); return r += k; }
typedef const_buffer const_buffers_1;
inline const_buffers_1 buffer(const void* p, std::size_t n) { return const_buffers_1(p, n); }
inline const_buffers_1 buffer(const std::string& s) { return const_buffers_1(s.data(), s.size()); }
inline const_buffers_1 buffer(const const_buffer& b) { return b; }
inline std::size_t buffer_size(const const_buffer& b) { return b.size(); }

template<class P> class basic_socket;
namespace ip {
class address { public: std::string to_string() const { return "address"; } };
template<class P>
class basic_endpoint {
public:
    long addresses, index;
    basic_endpoint() : addresses(-1), index(-1) {}
    basic_endpoint(long a, long i) : addresses(a), index(i) {}
    P protocol() const { return P(); }
    bool operator==(const basic_endpoint& o) const { return addresses == o.addresses && index == o.index; }
};
template<class P>
class basic_resolver_entry {
    basic_endpoint<P> e;
public:
    typedef basic_endpoint<P> endpoint_type;
    basic_resolver_entry() {}
    explicit basic_resolver_entry(const basic_endpoint<P>& e) : e(e) {}
    basic_endpoint<P> endpoint() const { return e; }
    operator basic_endpoint<P>() const { return e; }
};
struct resolver_query_base {
    enum flags { canonical_name = 2, passive = 1, numeric_host = 4, numeric_service = 1024, address_configured = 32 };
    friend flags operator|(flags a, flags b) { return flags(int(a) | int(b)); }
};
typedef resolver_query_base resolver_base;
template<class P>
class basic_resolver_query : public resolver_query_base {
public:
    std::string host, service;
    basic_resolver_query(const std::string& host, const std::string& service, flags = address_configured) : host(host), service(service) {}
    std::string host_name() const { return host; }
    std::string service_name() const { return service; }
};
template<class P>
class basic_resolver_iterator {
public:
    long addresses, index, count;
    mutable basic_resolver_entry<P> entry;
    typedef basic_resolver_entry<P> value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const value_type* pointer;
    typedef const value_type& reference;
    typedef std::forward_iterator_tag iterator_category;
    basic_resolver_iterator() : addresses(-1), index(0), count(0) {}
    basic_resolver_iterator(long a, long n) : addresses(a), index(0), count(n) {}
    const value_type& operator*() const {
        if (index >= count) vf_net::misuse("an iterator at the end is not dereferenced");
        entry = value_type(basic_endpoint<P>(addresses, index));
        return entry;
    }
    const value_type* operator->() const { return &**this; }
    basic_resolver_iterator& operator++() {
        if (index >= count) vf_net::misuse("an iterator at the end is not moved");
        ++index;
        return *this;
    }
    basic_resolver_iterator operator++(int) { basic_resolver_iterator r(*this); ++*this; return r; }
    // all iterators at the end are equal
    bool operator==(const basic_resolver_iterator& o) const { return index >= count ? o.index >= o.count : o.index < o.count && index == o.index; }
    bool operator!=(const basic_resolver_iterator& o) const { return !(*this == o); }
};
template<class P>
class basic_resolver_results : public basic_resolver_iterator<P> {
public:
    basic_resolver_results() {}
    basic_resolver_results(long a, long n) : basic_resolver_iterator<P>(a, n) {}
    typedef basic_resolver_iterator<P> iterator;
    typedef iterator const_iterator;
    iterator begin() const { iterator i = *this; i.index = 0; return i; }
    iterator end() const { return iterator(); }
    std::size_t size() const { return this->count; }
    bool empty() const { return this->count == 0; }
};
template<class P>
class basic_resolver {
public:
    typedef basic_resolver_query<P> query;
    typedef basic_resolver_iterator<P> iterator;
    typedef basic_resolver_results<P> results_type;
    typedef basic_endpoint<P> endpoint_type;
    explicit basic_resolver(io_service&) {}
    results_type resolve(const std::string& host, const std::string& service, vf_error& ec) {
        long id = -1, n = 0;
        ec = vf_make(vf_net::resolve(P::vf_id, host, service, id, n));
        return ec ? results_type() : results_type(id, n);
    }
    results_type resolve(const std::string& host, const std::string& service) {
        vf_error ec;
        results_type r = resolve(host, service, ec);
        detail::throw_error(ec);
        return r;
    }
    results_type resolve(const query& q) { return resolve(q.host, q.service); }
    results_type resolve(const query& q, vf_error& ec) { return resolve(q.host, q.service, ec); }
};
}
template<class P>
class basic_socket {
protected:
    bool open_, connected, failed;
    basic_socket() : open_(false), connected(false), failed(false) {}
    void taken(basic_socket& o) { open_ = o.open_; connected = o.connected; failed = o.failed; o.open_ = o.connected = false; }
    void end() { if (connected) vf_net::closed(); open_ = connected = failed = false; }
public:
    typedef P protocol_type;
    typedef ip::basic_endpoint<P> endpoint_type;
    basic_socket(const basic_socket&) = delete;
    ~basic_socket() { end(); }
    bool is_open() const { return open_; }
    void open(const P&, vf_error& ec) {
        if (open_) { ec = error::already_open; return; }
        ec = vf_make(vf_net::open(P::vf_id));
        if (!ec) open_ = true;
    }
    void open(const P& p = P()) { vf_error ec; open(p, ec); detail::throw_error(ec); }
    void close(vf_error& ec) { ec = vf_error(); end(); }
    void close() { end(); }
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    void connect(const endpoint_type& e, vf_error& ec) {
        if (connected) vf_net::misuse("a connected socket is not connected again");
        if (failed) vf_net::misuse("a socket that could not be connected is closed before another address is tried, which may be of another family");
        open_ = true;
        ec = vf_make(vf_net::connect(e.addresses, e.index));
        if (!ec) connected = true; else failed = true;
    }
    void connect(const endpoint_type& e) { vf_error ec; connect(e, ec); detail::throw_error(ec); }
};
template<class P>
class basic_stream_socket : public basic_socket<P> {
public:
    explicit basic_stream_socket(io_service&) {}
    basic_stream_socket(basic_stream_socket&& o) { this->taken(o); }
    basic_stream_socket& operator=(basic_stream_socket&& o) { this->end(); this->taken(o); return *this; }
    std::size_t vf_send(const const_buffer& b, bool whole, vf_error& ec) {
        ec = vf_error();
        if (!b.n) return 0;
        if (!this->connected) { ec = error::not_connected; return 0; }
        std::size_t sent = 0;
        ec = vf_make(vf_net::send(b.p, b.n, whole, sent));
        return sent;
    }
    std::size_t write_some(const const_buffer& b, vf_error& ec) { return vf_send(b, false, ec); }
    std::size_t write_some(const const_buffer& b) { vf_error ec; std::size_t n = vf_send(b, false, ec); detail::throw_error(ec); return n; }
    std::size_t send(const const_buffer& b) { return write_some(b); }
};
template<class P>
class basic_datagram_socket : public basic_socket<P> {
public:
    explicit basic_datagram_socket(io_service&) {}
    basic_datagram_socket(io_service&, const P& p) { this->open(p); }
    std::size_t send_to(const const_buffer& b, const ip::basic_endpoint<P>& e, int, vf_error& ec) {
        if (!this->open_) { ec = error::not_connected; return 0; }
        ec = vf_make(vf_net::send_to(b.p, b.n, e.addresses, e.index));
        return ec ? 0 : b.n;
    }
    std::size_t send_to(const const_buffer& b, const ip::basic_endpoint<P>& e) { vf_error ec; std::size_t n = send_to(b, e, 0, ec); detail::throw_error(ec); return n; }
};
template<class P>
std::size_t write(basic_stream_socket<P>& s, const const_buffer& b, vf_error& ec) { return s.vf_send(b, true, ec); }
template<class P>
std::size_t write(basic_stream_socket<P>& s, const const_buffer& b) { vf_error ec; std::size_t n = s.vf_send(b, true, ec); detail::throw_error(ec); return n; }
namespace ip {
class tcp {
public:
    enum { vf_id = vf_net::TCP };
    typedef basic_stream_socket<tcp> socket;
    typedef basic_endpoint<tcp> endpoint;
    typedef basic_resolver<tcp> resolver;
    static tcp v4() { return tcp(); }
    static tcp v6() { return tcp(); }
};
class udp {
public:
    enum { vf_id = vf_net::UDP };
    typedef basic_datagram_socket<udp> socket;
    typedef basic_endpoint<udp> endpoint;
    typedef basic_resolver<udp> resolver;
    static udp v4() { return udp(); }
    static udp v6() { return udp(); }
};
}
}}
