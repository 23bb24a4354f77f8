// A configuration tree for contracts: what a user's own implementation of the public node interface would be.
#pragma once
#include <functional>
#include <stdexcept>
#include <string>
#include <memory>
#include <boost/optional/optional.hpp>
#include "blackhole/config/node.hpp"
#include "blackhole/config/option.hpp"
#include "vf_util.hpp"

namespace vf {
namespace cfg {
struct entry;
struct tree {
    enum kind_t { null, boolean, sint, uint, real, string, vector, object } kind;
    bool b; long i; unsigned long u; double d; blackhole::string_view s;
    std::size_t n; const entry* items;
    tree (*gen)(std::size_t);
};
struct entry { const char* key; tree value; };
inline tree none() { return tree{tree::null, false, 0, 0, 0, {}, 0, nullptr, nullptr}; }
inline tree boolean(bool v) { tree t = none(); t.kind = tree::boolean; t.b = v; return t; }
inline tree sint(long v) { tree t = none(); t.kind = tree::sint; t.i = v; return t; }
inline tree uint(unsigned long v) { tree t = none(); t.kind = tree::uint; t.u = v; return t; }
inline tree real(double v) { tree t = none(); t.kind = tree::real; t.d = v; return t; }
inline tree string(blackhole::string_view v) { tree t = none(); t.kind = tree::string; t.s = v; return t; }
inline tree string(const char* v) { return string(blackhole::string_view(v, __builtin_strlen(v))); }
inline tree object(const entry* items, std::size_t n) { tree t = none(); t.kind = tree::object; t.items = items; t.n = n; return t; }
inline tree vector(const entry* items, std::size_t n) { tree t = none(); t.kind = tree::vector; t.items = items; t.n = n; return t; }
inline tree vector(std::size_t n, tree (*gen)(std::size_t)) { tree t = none(); t.kind = tree::vector; t.gen = gen; t.n = n; return t; }

class node : public blackhole::config::node_t {
    tree t;
    void want(bool ok) const { if (!ok) throw std::logic_error("type mismatch"); }
public:
    explicit node(const tree& t) : t(t) {}
    bool is_bool() const noexcept override { return t.kind == tree::boolean; }
    bool is_sint64() const noexcept override { return t.kind == tree::sint || (t.kind == tree::uint && t.u <= 0x7fffffffffffffffUL); }
    bool is_uint64() const noexcept override { return t.kind == tree::uint || (t.kind == tree::sint && t.i >= 0); }
    bool is_double() const noexcept override { return t.kind == tree::real; }
    bool is_string() const noexcept override { return t.kind == tree::string; }
    bool is_vector() const noexcept override { return t.kind == tree::vector; }
    bool is_object() const noexcept override { return t.kind == tree::object; }
    bool to_bool() const override { want(is_bool()); return t.b; }
    std::int64_t to_sint64() const override { want(is_sint64()); return t.kind == tree::sint ? t.i : (long)t.u; }
    std::uint64_t to_uint64() const override { want(is_uint64()); return t.kind == tree::uint ? t.u : (unsigned long)t.i; }
    double to_double() const override { want(is_double()); return t.d; }
    std::string to_string() const override { want(is_string()); return std::string(t.s.data(), t.s.size()); }
    void each(const each_function& fn) const override {
        want(is_vector());
        for (std::size_t i = 0; i < t.n; ++i) {
            if (t.gen) fn(node(t.gen(i)));
            else fn(node(t.items[i].value));
        }
    }
    void each_map(const member_function& fn) const override {
        want(is_object());
        for (std::size_t i = 0; i < t.n; ++i) fn(t.items[i].key, node(t.items[i].value));
    }
    blackhole::config::option<node_t> operator[](const std::size_t& idx) const override {
        if (is_vector() && idx < t.n) return blackhole::config::make_option<node>(t.gen ? t.gen(idx) : t.items[idx].value);
        return {};
    }
    blackhole::config::option<node_t> operator[](const std::string& key) const override {
        if (is_object())
            for (std::size_t i = 0; i < t.n; ++i)
                if (key == t.items[i].key) return blackhole::config::make_option<node>(t.items[i].value);
        return {};
    }
};
}
}
