// What code of the user may throw: objects of the standard library, of its own classes, and things that are no exceptions.
#pragma once
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
namespace vf {
struct own_exception : std::exception { const char* what() const noexcept override { return "own"; } };
struct own_runtime_error : std::runtime_error { own_runtime_error() : std::runtime_error("own") {} };
struct no_exception { long id; };
const long THROWS = 13;   // kinds of failure; 0 is none
inline void fail(long kind) {
    switch (kind) {
    case 1: throw std::runtime_error("x");
    case 2: throw 42;
    case 3: throw std::string("not an exception class");
    case 4: throw std::bad_alloc();
    case 5: throw std::logic_error("x");
    case 6: throw std::invalid_argument("x");
    case 7: throw std::out_of_range("x");
    case 8: throw std::system_error(std::make_error_code(std::errc::io_error));
    case 9: throw std::bad_function_call();
    case 10: throw own_exception();
    case 11: throw own_runtime_error();
    case 12: throw no_exception{1};
    case 13: throw "text";
    }
}
}
