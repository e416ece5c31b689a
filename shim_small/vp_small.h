// Containers that hold their (few) elements themselves.  Include all standard
// headers first.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <type_traits>

namespace std {

template<typename T, typename A = void>
class vp_vector {
    T _v[4]; std::size_t _n = 0;
public:
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using iterator = T*; using const_iterator = T const*; using reference = T&; using const_reference = T const&;
    vp_vector(): _v() {}
    explicit vp_vector(std::size_t n): _v(), _n(n) {}
    vp_vector(std::size_t n, T const& t): _v(), _n(n) { for(std::size_t i = 0; i < n; ++i) _v[i] = t; }
    vp_vector(std::initializer_list<T> l): _v() { for(auto const& t: l) _v[_n++] = t; }
    template<typename I, typename = typename std::enable_if<!std::is_arithmetic<I>::value>::type> vp_vector(I b, I e): _v() { for(; b != e; ++b) _v[_n++] = *b; }
    vp_vector& operator=(std::initializer_list<T> l) { _n = 0; for(auto const& t: l) _v[_n++] = t; return *this; }
    void assign(std::size_t n, T const& t) { _n = n; for(std::size_t i = 0; i < n; ++i) _v[i] = t; }
    template<typename I, typename = typename std::enable_if<!std::is_arithmetic<I>::value>::type> void assign(I b, I e) { _n = 0; for(; b != e; ++b) _v[_n++] = *b; }
    void reserve(std::size_t) {}
    void resize(std::size_t n) { for(; _n < n;) _v[_n++] = T(); _n = n; }
    void clear() { _n = 0; }
    template<typename... B> void emplace_back(B&&... b) { _v[_n++] = T(std::forward<B>(b)...); }
    void push_back(T const& t) { _v[_n++] = t; }
    void pop_back() { --_n; }
    T* insert(T const* at, T const& t) { std::size_t p = at - _v; for(std::size_t i = _n; i > p; --i) _v[i] = _v[i - 1]; _v[p] = t; ++_n; return _v + p; }
    template<typename I, typename = typename std::enable_if<!std::is_arithmetic<I>::value>::type> T* insert(T const* at, I b, I e) { std::size_t p = at - _v, q = p; for(; b != e; ++b) insert(_v + q++, *b); return _v + p; }
    std::size_t size() const { return _n; }
    bool empty() const { return _n == 0; }
    T* data() { return _v; }
    T const* data() const { return _v; }
    T& operator[](std::size_t i) { return _v[i]; }
    T const& operator[](std::size_t i) const { return _v[i]; }
    T& at(std::size_t i) { return _v[i]; }
    T const& at(std::size_t i) const { return _v[i]; }
    T& front() { return _v[0]; }
    T const& front() const { return _v[0]; }
    T& back() { return _v[_n - 1]; }
    T const& back() const { return _v[_n - 1]; }
    T* begin() { return _v; }
    T* end() { return _v + _n; }
    T const* begin() const { return _v; }
    T const* end() const { return _v + _n; }
    T const* cbegin() const { return _v; }
    T const* cend() const { return _v + _n; }
    void swap(vp_vector& o) { std::swap(*this, o); }
    bool operator==(vp_vector const& o) const { if(_n != o._n) return false; for(std::size_t i = 0; i < _n; ++i) if(!(_v[i] == o._v[i])) return false; return true; }
};

template<typename K, typename V, typename...>
class vp_map {
    struct node { K first; V second; };
    node _v[4]; std::size_t _n = 0;
public:
    using key_type = K; using mapped_type = V; using value_type = node; using size_type = std::size_t; using iterator = node*; using const_iterator = node const*;
    vp_map(): _v() {}
    vp_map(std::initializer_list<node> l): _v() { for(auto const& t: l) insert(t); }
    vp_map& operator=(std::initializer_list<node> l) { _n = 0; for(auto const& t: l) insert(t); return *this; }
    node* find(K const& k) { for(std::size_t i = 0; i < _n; ++i) if(_v[i].first == k) return _v + i; return _v + _n; }
    node const* find(K const& k) const { for(std::size_t i = 0; i < _n; ++i) if(_v[i].first == k) return _v + i; return _v + _n; }
    std::pair<node*, bool> insert(node const& t) { node* p = find(t.first); if(p != end()) return {p, false}; _v[_n] = t; return {_v + _n++, true}; }
    template<typename A, typename B> std::pair<node*, bool> insert(std::pair<A, B> const& t) { return insert(node{K(t.first), V(t.second)}); }
    template<typename A, typename B> std::pair<node*, bool> emplace(A const& a, B const& b) { return insert(node{K(a), V(b)}); }
    template<typename I> void insert(I b, I e) { for(; b != e; ++b) insert(*b); }
    V& operator[](K const& k) { return insert(node{k, V()}).first->second; }
    V& at(K const& k) { return find(k)->second; }
    V const& at(K const& k) const { return find(k)->second; }
    std::size_t count(K const& k) const { return find(k) != end(); }
    void clear() { _n = 0; }
    void reserve(std::size_t) {}
    std::size_t size() const { return _n; }
    bool empty() const { return _n == 0; }
    node* begin() { return _v; }
    node* end() { return _v + _n; }
    node const* begin() const { return _v; }
    node const* end() const { return _v + _n; }
    node const* cbegin() const { return _v; }
    node const* cend() const { return _v + _n; }
};

template<typename I, typename C> void vp_sort(I b, I e, C less) { for(I i = b; i != e; ++i) for(I j = i; j != b && less(*j, *(j - 1)); --j) std::swap(*j, *(j - 1)); }
template<typename I> void vp_sort(I b, I e) { for(I i = b; i != e; ++i) for(I j = i; j != b && *j < *(j - 1); --j) std::swap(*j, *(j - 1)); }
template<typename I, typename C> void vp_sort_n(I b, I, I e, C less) { vp_sort(b, e, less); }
template<typename I> void vp_sort_n(I b, I, I e) { vp_sort(b, e); }

} // namespace std

#define sort vp_sort
#define stable_sort vp_sort
#define nth_element vp_sort_n
#define partial_sort vp_sort_n
#define vector vp_vector
#define unordered_map vp_map
