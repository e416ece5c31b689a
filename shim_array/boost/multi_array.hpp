// Stand-in for boost::multi_array: the shape is kept, the storage is an opaque
// function of element type and shape.
#pragma once
#include <cstddef>
#include <algorithm>
#include <functional>
#include <vector>
template<typename T, std::size_t N> T* vpp_storage(std::ptrdiff_t a, std::ptrdiff_t b, std::ptrdiff_t c) __attribute__((pure, nothrow));
template<typename T, std::size_t N> T* vpp_element(void const* array, std::ptrdiff_t index) __attribute__((pure, nothrow));

namespace boost {
namespace detail { namespace multi_array {
template<std::size_t N>
struct extent_gen {
    std::ptrdiff_t a, b, c;
    extent_gen<N + 1> operator[](std::ptrdiff_t n) const {
        static_assert(N < 3, "");
        extent_gen<N + 1> r; r.a = a; r.b = N == 1 ? n : b; r.c = N == 2 ? n : 0; return r;
    }
};
template<> struct extent_gen<0> {
    extent_gen<1> operator[](std::ptrdiff_t n) const { extent_gen<1> r; r.a = n; r.b = 0; r.c = 0; return r; }
};
struct index_gen {};
struct index_range {};
}}
struct multi_array_types {
    using index = std::ptrdiff_t;
    using size_type = std::size_t;
    using index_range = detail::multi_array::index_range;
    using extent_gen = detail::multi_array::extent_gen<0>;
    using index_gen = detail::multi_array::index_gen;
};

template<typename T, std::size_t N>
class multi_array {
public:
    using value_type = T;
    using element = T;
    using reference = T&;
    using const_reference = T const&;
    using size_type = std::size_t;
    using index = std::ptrdiff_t;
    using iterator = T*;
    using const_iterator = T const*;
    multi_array() : _data(nullptr) { _shape[0] = _shape[1] = _shape[2] = 0; }
    explicit multi_array(detail::multi_array::extent_gen<N> const& g) : _data(vpp_storage<T, N>(g.a, g.b, g.c)) { _shape[0] = g.a; _shape[1] = g.b; _shape[2] = g.c; }
    size_type const* shape() const { return _shape; }
    size_type size() const { return _shape[0]; }
    size_type num_elements() const { return N == 1 ? _shape[0] : N == 2 ? _shape[0] * _shape[1] : _shape[0] * _shape[1] * _shape[2]; }
    size_type num_dimensions() const { return N; }
    T* data() { return _data; }
    T const* data() const { return _data; }
    T* origin() { return _data; }
    T const* origin() const { return _data; }
    reference operator[](index i) { return *vpp_element<T, N>(this, i); }
    const_reference operator[](index i) const { return *vpp_element<T, N>(this, i); }
    iterator begin() { return _data; }
    iterator end() { return _data + num_elements(); }
    const_iterator begin() const { return _data; }
    const_iterator end() const { return _data + num_elements(); }
private:
    size_type _shape[3];
    T* _data;
};
template<typename T, std::size_t N> class multi_array_ref: public multi_array<T, N> {
public: multi_array_ref(T* data, detail::multi_array::extent_gen<N> const& g);
};
template<typename T, std::size_t N> class const_multi_array_ref: public multi_array<T, N> {};
namespace detail { namespace multi_array { template<typename T, std::size_t N> class multi_array_view: public boost::multi_array<T, N> {}; } }
template<typename T, std::size_t N> struct array_view_gen { using type = detail::multi_array::multi_array_view<T, N>; };
}
