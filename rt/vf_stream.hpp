// An output stream whose output is observed.
#pragma once
#include <ostream>
#include "vf_util.hpp"
namespace vf {
struct stream : public std::ostream {
    stream() : std::ostream(nullptr) { vf_stream(this); }
};
}
