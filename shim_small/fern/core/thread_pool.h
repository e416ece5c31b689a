// Analysis stand-in for fern/core/thread_pool.h: a task runs when it is
// submitted, between two markers, and its result is kept until it is asked for.
#pragma once
#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <type_traits>
#include <utility>
#include "vp_small.h"

void vpx_submit(void const* pool) __attribute__((nothrow));
void vpx_submitted() __attribute__((nothrow));
void vpx_waited() __attribute__((nothrow));
std::size_t vpp_workers(void const* pool) __attribute__((nothrow, const));

namespace std {

template<typename T>
struct vp_future {
    T value;
    vp_future(): value() {}
    explicit vp_future(T v): value(v) {}
    T get() { vpx_waited(); return value; }
    void wait() const { vpx_waited(); }
    bool valid() const { return true; }
};
template<>
struct vp_future<void> {
    void get() { vpx_waited(); }
    void wait() const { vpx_waited(); }
    bool valid() const { return true; }
};

} // namespace std

namespace fern {

inline std::size_t hardware_concurrency() { return 1; }

class ThreadPool
{
public:
    ThreadPool(std::size_t) {}
    ThreadPool(ThreadPool const&) = delete;
    ThreadPool& operator=(ThreadPool const&) = delete;
    template<class Function>
    std::vp_future<typename std::invoke_result<Function>::type> submit(Function function)
    {
        using R = typename std::invoke_result<Function>::type;
        vpx_submit(this);
        if constexpr (std::is_void_v<R>) { function(); vpx_submitted(); return std::vp_future<R>(); }
        else { R r = function(); vpx_submitted(); return std::vp_future<R>(r); }
    }
    std::size_t size() const { return vpp_workers(this); }
private:
    char _opaque;
};

} // namespace fern

#define future vp_future
