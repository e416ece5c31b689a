// Analysis stand-in for fern/core/thread_pool.h (found first on the include
// path of the analysed translation units only).  Submitting a task becomes:
//   submit_begin event, the task's body, submit_end event.
// so that the task's effects can be read off the caller's IR.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <future>

long vpx_submit_begin(void const* pool) __attribute__((nothrow));
void vpx_submit_end(long id) __attribute__((nothrow));
void vpx_capture(void const* functor, std::size_t size) __attribute__((nothrow));
void vpx_future_get(long id) __attribute__((nothrow));
void vpx_future_dead(long id) __attribute__((nothrow));
void vpx_push(void const* vec, long id) __attribute__((nothrow));
long vpx_future_at(void const* vec, std::size_t i) __attribute__((nothrow, const));
std::size_t vpx_future_count(void const* vec) __attribute__((nothrow));
std::size_t vpx_pool_size(void const* pool) __attribute__((nothrow, const));

namespace std {

template<typename T>
struct vp_future {
    long id = 0;
    vp_future() = default;
    explicit vp_future(long i): id(i) {}
    vp_future(vp_future&& o): id(o.id) { o.id = 0; }
    vp_future& operator=(vp_future&& o) { id = o.id; o.id = 0; return *this; }
    vp_future(vp_future const&) = delete;
    vp_future& operator=(vp_future const&) = delete;
    T get() { vpx_future_get(id); if constexpr (!std::is_void_v<T>) return T(); }
    void wait() const { vpx_future_get(id); }
    bool valid() const { return id != 0; }
};

template<typename T, typename Alloc>
class vector<vp_future<T>, Alloc> {
    char _opaque = 0;
public:
    using value_type = vp_future<T>;
    using size_type = std::size_t;
    struct iterator {
        vector* v; std::size_t i;
        struct proxy { long id; void get() { vpx_future_get(id); } void wait() const { vpx_future_get(id); } bool valid() const { return true; } };
        vp_future<T>& operator*() const { return v->at_(i); }
        vp_future<T>* operator->() const { return &v->at_(i); }
        iterator& operator++() { ++i; return *this; }
        iterator operator++(int) { auto r = *this; ++i; return r; }
        iterator& operator--() { --i; return *this; }
        bool operator==(iterator const& o) const { return i == o.i; }
        bool operator!=(iterator const& o) const { return i != o.i; }
        using difference_type = std::ptrdiff_t; using value_type = vp_future<T>; using pointer = vp_future<T>*; using reference = vp_future<T>&; using iterator_category = std::forward_iterator_tag;
    };
    using const_iterator = iterator;
    vp_future<T> cell_;
    vp_future<T>& at_(std::size_t i) { cell_.id = vpx_future_at(this, i); return cell_; }
    vector() = default;
    ~vector() {}
    void reserve(std::size_t) {}
    template<typename... A> void emplace_back(A&&... a) { vp_future<T> f(std::forward<A>(a)...); vpx_push(this, f.id); }
    void push_back(vp_future<T>&& f) { vpx_push(this, f.id); }
    std::size_t size() const { return vpx_future_count(this); }
    bool empty() const { return vpx_future_count(this) == 0; }
    vp_future<T>& operator[](std::size_t i) { return at_(i); }
    vp_future<T>& at(std::size_t i) { return at_(i); }
    iterator begin() { return iterator{this, 0}; }
    iterator end() { return iterator{this, vpx_future_count(this)}; }
};

} // namespace std

namespace fern {

inline std::size_t hardware_concurrency() { return 1; }

class ThreadPool
{
public:
    ThreadPool(std::size_t) {}
    ThreadPool(ThreadPool const&) = delete;
    ThreadPool& operator=(ThreadPool const&) = delete;
    template<class Function>
    std::vp_future<typename std::invoke_result<Function>::type> submit(Function function)
    {
        long id = vpx_submit_begin(this);
        Function kept(function);
        vpx_capture(&kept, sizeof(Function));
        function();
        vpx_submit_end(id);
        return std::vp_future<typename std::invoke_result<Function>::type>(id);
    }
    std::size_t size() const { return vpx_pool_size(this); }
private:
    char _opaque;
};

} // namespace fern

#define future vp_future
