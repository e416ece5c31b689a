// Opaque probe types used to instantiate fern's templates.  None of the
// vpx_* functions has a definition: they are the events and predicates of
// the analysis.
#pragma once
#include <cstddef>
#include <cstdint>
#include <array>
#include <vector>
#include <tuple>
#include <functional>
#include <future>
#include <iterator>
#include "fern/core/thread_pool.h"

namespace fern { namespace algorithm { template<std::size_t nr_dimensions> class IndexRanges; } }

template<std::size_t N> void* vpx_ranges_data(void const* vec) __attribute__((nothrow, const));
void vpx_ranges_resize(void const* vec, std::size_t n) __attribute__((nothrow));
std::size_t vpx_ranges_count(void const* vec) __attribute__((nothrow, const));
template<std::size_t N, typename... A> void vpx_ranges_push(void const* vec, A...) __attribute__((nothrow));

namespace std {

// Opaque vector of index ranges: element access is a pure function of the
// vector and the position.
template<std::size_t N, typename Alloc>
class vector<fern::algorithm::IndexRanges<N>, Alloc> {
    using E = fern::algorithm::IndexRanges<N>;
    char _opaque = 0;
public:
    using value_type = E; using size_type = std::size_t; using reference = E&; using const_reference = E const&;
    template<typename Q>
    struct iter {
        vector const* v; std::size_t i;
        using difference_type = std::ptrdiff_t; using value_type = E; using pointer = Q*; using reference = Q&; using iterator_category = std::random_access_iterator_tag;
        Q& operator*() const { return const_cast<vector*>(v)->at_(i); }
        Q* operator->() const { return &const_cast<vector*>(v)->at_(i); }
        Q& operator[](std::ptrdiff_t n) const { return const_cast<vector*>(v)->at_(i + n); }
        iter& operator++() { ++i; return *this; }
        iter operator++(int) { auto r = *this; ++i; return r; }
        iter& operator--() { --i; return *this; }
        iter& operator+=(std::ptrdiff_t n) { i += n; return *this; }
        iter operator+(std::ptrdiff_t n) const { return iter{v, i + n}; }
        iter operator-(std::ptrdiff_t n) const { return iter{v, i - n}; }
        std::ptrdiff_t operator-(iter const& o) const { return i - o.i; }
        bool operator==(iter const& o) const { return i == o.i; }
        bool operator!=(iter const& o) const { return i != o.i; }
        bool operator<(iter const& o) const { return i < o.i; }
    };
    using iterator = iter<E>; using const_iterator = iter<E const>;
    E& at_(std::size_t i) const { return static_cast<E*>(vpx_ranges_data<N>(this))[i]; }
    vector() = default;
    explicit vector(std::size_t n) { vpx_ranges_resize(this, n); }
    void resize(std::size_t n) { vpx_ranges_resize(this, n); }
    vector(vector const&) = default;
    vector(vector&&) = default;
    ~vector() {}
    void reserve(std::size_t) {}
    template<typename... A> void emplace_back(A&&... a) { push_back(E(std::forward<A>(a)...)); }
    void push_back(E const& e) {
        if constexpr (N == 1) vpx_ranges_push<N>(this, e[0].begin(), e[0].end());
        else vpx_ranges_push<N>(this, e[0].begin(), e[0].end(), e[1].begin(), e[1].end());
    }
    std::size_t size() const { return vpx_ranges_count(this); }
    bool empty() const { return vpx_ranges_count(this) == 0; }
    E& operator[](std::size_t i) { return at_(i); }
    E const& operator[](std::size_t i) const { return at_(i); }
    E& at(std::size_t i) { return at_(i); }
    E const& at(std::size_t i) const { return at_(i); }
    E& front() { return at_(0); }
    E& back() { return at_(size() - 1); }
    iterator begin() { return {this, 0}; }
    iterator end() { return {this, size()}; }
    const_iterator begin() const { return {this, 0}; }
    const_iterator end() const { return {this, size()}; }
    const_iterator cbegin() const { return {this, 0}; }
    const_iterator cend() const { return {this, size()}; }
};

} // namespace std

#include "fern/core/data_type_traits.h"
#include "fern/core/data_customization_point.h"
#include "fern/algorithm/core/index_ranges.h"

#define VP_PURE __attribute__((nothrow, const))
#define VP_EFF __attribute__((nothrow))

template<int K, typename T> T* vpx_get(void const* o, std::size_t i) VP_PURE;
template<int K, typename T> T* vpx_get0(void const* o) VP_PURE;
template<int K> std::size_t vpx_size1(void const* o) VP_PURE;
template<int K> std::size_t vpx_size(void const* o, std::size_t d) VP_PURE;
template<int K> std::size_t vpx_index(void const* o, std::size_t a, std::size_t b) VP_PURE;
template<int K> bool vpx_nd(std::size_t i) VP_PURE;
template<int K> bool vpx_nd0() VP_PURE;
void vpx_mark(std::size_t i) VP_EFF;
void vpx_mark0() VP_EFF;
template<typename... A> bool vpx_dom(A...) VP_PURE;
template<typename... A> bool vpx_rng(A...) VP_PURE;
template<typename R, typename... A> R vpx_alg(A...) VP_EFF;

namespace vp {

using fern::algorithm::IndexRange;
using fern::algorithm::IndexRanges;

// A value of dimension D with elements of type T; K tells the values apart.
template<int K, int D, typename T>
struct V {
    using value_type = T; using reference = T&; using const_reference = T const&;
    char opaque;
};

template<int K, int D, typename T> T const& get(V<K, D, T> const& v) { return *vpx_get0<K, T>(&v); }
template<int K, int D, typename T> T& get(V<K, D, T>& v) { return *vpx_get0<K, T>(&v); }
template<int K, int D, typename T> T const& get(V<K, D, T> const& v, std::size_t i) { return *vpx_get<K, T>(&v, i); }
template<int K, int D, typename T> T& get(V<K, D, T>& v, std::size_t i) { return *vpx_get<K, T>(&v, i); }
template<int K, int D, typename T> std::size_t size(V<K, D, T> const& v) { return vpx_size1<K>(&v); }
template<int K, int D, typename T> std::size_t size(V<K, D, T> const& v, std::size_t d) { return vpx_size<K>(&v, d); }
template<int K, int D, typename T> std::size_t index(V<K, D, T> const& v, std::size_t a, std::size_t b) { return vpx_index<K>(&v, a, b); }

template<int D> struct Tag;
template<> struct Tag<0> { using type = fern::array_0d_tag; };
template<> struct Tag<1> { using type = fern::array_1d_tag; };
template<> struct Tag<2> { using type = fern::array_2d_tag; };

// Input no-data policy of the K'th value.
template<int K>
struct ND {
    bool is_no_data() const { return vpx_nd0<K>(); }
    bool is_no_data(std::size_t i) const { return vpx_nd<K>(i); }
    char opaque;
};

struct OND {
    void mark_as_no_data() { vpx_mark0(); }
    void mark_as_no_data(std::size_t i) { vpx_mark(i); }
    char opaque;
};

template<typename... A>
struct DomN {
    static bool within_domain(A const&... a) { return vpx_dom<A...>(a...); }
};
template<typename... A>
struct RngN {
    static bool within_range(A const&... a) { return vpx_rng<A...>(a...); }
};
template<typename... A>
struct AlgN {
    template<typename R>
    void operator()(A const&... a, R& r) const { r = vpx_alg<R, A...>(a...); }
};
template<typename A> using Dom1 = DomN<A>;
template<typename A, typename B> using Dom2 = DomN<A, B>;
template<typename A, typename R> using Rng1 = RngN<A, R>;
template<typename A, typename B, typename R> using Rng2 = RngN<A, B, R>;
template<typename A> using Alg1 = AlgN<A>;
template<typename A, typename B> using Alg2 = AlgN<A, B>;

} // namespace vp

namespace fern {
template<int K, int D, typename T>
struct DataTypeTraits<vp::V<K, D, T>> {
    template<class U> struct Clone { using type = vp::V<0, D, U>; };
    using argument_category = typename vp::Tag<D>::type;
    using value_type = T; using reference = T&; using const_reference = T const&;
    static std::size_t const rank = D;
    static bool const is_masking = false;
};
} // namespace fern

#include "fern/algorithm/policy/execution_policy.h"
#include "fern/algorithm/core/index_range.cc"
#include "fern/algorithm/policy/parallel_execution_policy.cc"
