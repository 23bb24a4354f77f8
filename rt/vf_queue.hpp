// The contract of libcds' bounded queue, on which asynchronous_t depends: a first-in first-out queue that may be found full
// or empty, hands out raw memory to the functor that fills a cell, and destroys a value after the functor that takes it.
// What the other threads do meanwhile is chosen by the harness (vf::queue).
#pragma once
#define CDSLIB_CONTAINER_VYUKOV_MPMC_CYCLE_QUEUE_H
#include "vf.h"
#include <cstddef>
#include <new>
#include <utility>
namespace vf {
struct queue_env {
    bool (*full)();             // is the queue full when an element is put in?
    void (*put)(void* cell);    // the cell was filled
    void* (*take)();            // the cell with the oldest element or null
};
extern queue_env queue;
}
namespace cds { namespace container {
template<typename T>
class VyukovMPSCCycleQueue {
    std::size_t n;
public:
    typedef T value_type;
    explicit VyukovMPSCCycleQueue(std::size_t n = 0) : n(n) {
        vf_check(n >= 2 && (n & (n - 1)) == 0, "the capacity given to the queue is a power of two");
    }
    VyukovMPSCCycleQueue(const VyukovMPSCCycleQueue&) = delete;
    auto operator=(const VyukovMPSCCycleQueue&) -> VyukovMPSCCycleQueue& = delete;
    ~VyukovMPSCCycleQueue() {}
    std::size_t capacity() const { return n; }
    template<typename F>
    bool enqueue_with(F f) {
        if (vf::queue.full()) return false;
        void* cell = ::operator new(sizeof(T));
        bool filled = false;
        try {
            f(*static_cast<T*>(cell));
            filled = true;
        } catch (...) {
        }
        vf_check(filled, "a claimed cell of the queue is filled");
        vf::queue.put(cell);
        return true;
    }
    bool enqueue(const T& v) { return enqueue_with([&v](T& d) { new (&d) T(v); }); }
    bool enqueue(T&& v) { return enqueue_with([&v](T& d) { new (&d) T(std::move(v)); }); }
    bool push(const T& v) { return enqueue(v); }
    bool push(T&& v) { return enqueue(std::move(v)); }
    template<typename F> bool push_with(F f) { return enqueue_with(f); }
    template<typename... Args> bool emplace(Args&&... args) {
        return enqueue_with([&args...](T& d) { new (&d) T(std::forward<Args>(args)...); });
    }
    template<typename F>
    bool dequeue_with(F f) {
        T* cell = static_cast<T*>(vf::queue.take());
        if (!cell) return false;
        f(*cell);
        cell->~T();
        ::operator delete(cell);
        return true;
    }
    bool dequeue(T& d) { return dequeue_with([&d](T& s) { d = std::move(s); }); }
    bool pop(T& d) { return dequeue(d); }
    template<typename F> bool pop_with(F f) { return dequeue_with(f); }
};
}}
