// A registry for contracts: what it returns is chosen by the harness.
#pragma once
#include "vf_cfg.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/factory.hpp"
namespace vf {
struct registry : public blackhole::registry_t {
    sink_factory s; filter_factory f; handler_factory h; formatter_factory m;
    auto sink(const std::string&) const -> sink_factory override { return s; }
    auto filter(const std::string&) const -> filter_factory override { return f; }
    auto handler(const std::string&) const -> handler_factory override { return h; }
    auto formatter(const std::string&) const -> formatter_factory override { return m; }
    auto add(std::shared_ptr<blackhole::factory<blackhole::sink_t>>) -> void override {}
    auto add(std::shared_ptr<blackhole::factory<blackhole::filter_t>>) -> void override {}
    auto add(std::shared_ptr<blackhole::factory<blackhole::handler_t>>) -> void override {}
    auto add(std::shared_ptr<blackhole::factory<blackhole::formatter_t>>) -> void override {}
};
}
