"""Aggregating over a collection takes in every valid value, and only those."""
import laws
from laws import Law
LEVEL = 'other'
H = 'fern/algorithm/core/unary_aggregate_operation.h'

PRE = r'''#include <cstddef>
#include <cstdint>
#include <array>
#include <vector>
#include <tuple>
#include <functional>
#include <future>
#include <iterator>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <limits>
#include <iostream>
#include <memory>
#include <type_traits>
#include "boost/variant.hpp"
#include "fern/core/thread_pool.h"
#include "fern/core/data_type_traits.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point.h"
#include "fern/algorithm/core/index_range.h"
#include "fern/algorithm/core/index_ranges.h"
#include "fern/algorithm/core/index_range.cc"
#define PURE __attribute__((nothrow, const))
template<int K> bool vpp_nd(std::size_t) PURE;
template<int K> bool vpp_nd0() PURE;
void vpx_mark0() __attribute__((nothrow));
template<typename T> T vpp_cell(std::size_t) PURE;
template<typename T> T vpp_cell0() PURE;
template<typename R> R* vpp_result(void const*) PURE;
template<typename V, typename R> int64_t vpp_empty() PURE;
template<typename V, typename R> int64_t vpp_add(int64_t, V) PURE;
template<typename V, typename R> int64_t vpp_join(int64_t, int64_t) PURE;
template<typename V, typename R> bool vpp_fits(int64_t, V) PURE;
template<typename V, typename R> bool vpp_joins(int64_t, int64_t) PURE;
template<typename V, typename R> R vpp_value(int64_t) PURE;
template<int N> void vpx_partition(std::size_t, std::size_t, std::size_t) __attribute__((nothrow));
namespace vp {
// A collection of N values, or of N rows of M values.
template<int D, int N, int M> struct In { using value_type = int32_t; char o; };
struct Out { using value_type = int64_t; char o; };
template<int D, int N, int M> int32_t get(In<D, N, M> const&, std::size_t i) { return vpp_cell<int32_t>(i); }
template<int D, int N, int M> int32_t get(In<D, N, M> const&) { return vpp_cell0<int32_t>(); }
template<int D, int N, int M> std::size_t size(In<D, N, M> const&) { return D == 1 ? N : N * M; }
template<int D, int N, int M> std::size_t size(In<D, N, M> const&, std::size_t d) { return d == 0 ? N : M; }
template<int D, int N, int M> std::size_t index(In<D, N, M> const&, std::size_t i, std::size_t j) { return i * M + j; }
inline int64_t& get(Out& r) { return *vpp_result<int64_t>(&r); }
struct ND { bool is_no_data(std::size_t i) const { return vpp_nd<0>(i); } bool is_no_data() const { return vpp_nd0<0>(); } };
struct OND { void mark_as_no_data() { vpx_mark0(); } };
template<typename A, typename B, typename R> struct Rng {};
template<typename A> struct Dom {};
template<bool Risk> struct A {
  template<typename V, typename R> struct Acc {
    static bool const out_of_range_risk = Risk;
    int64_t s;
    Acc(): s(vpp_empty<V, R>()) {}
    void operator()(V v) { s = vpp_add<V, R>(s, v); }
    template<template<typename, typename, typename> class O> bool operator()(V v) { bool ok = vpp_fits<V, R>(s, v); s = vpp_add<V, R>(s, v); return ok; }
    Acc& operator|=(Acc const& o) { s = vpp_join<V, R>(s, o.s); return *this; }
    template<template<typename, typename, typename> class O> bool operator|=(Acc const& o) { bool ok = vpp_joins<V, R>(s, o.s); s = vpp_join<V, R>(s, o.s); return ok; }
    R operator()() const { return vpp_value<V, R>(s); }
  };
};
}
namespace fern {
template<int D> struct VpTag; template<> struct VpTag<0> { using type = array_0d_tag; }; template<> struct VpTag<1> { using type = array_1d_tag; }; template<> struct VpTag<2> { using type = array_2d_tag; };
template<int D, int N, int M> struct DataTypeTraits<vp::In<D, N, M>> { using argument_category = typename VpTag<D>::type; using value_type = int32_t; using reference = int32_t&; using const_reference = int32_t const&; static std::size_t const rank = D; static bool const is_masking = false; template<class U> struct Clone { using type = vp::In<D, N, M>; }; };
template<> struct DataTypeTraits<vp::Out> { using argument_category = array_0d_tag; using value_type = int64_t; using reference = int64_t&; using const_reference = int64_t const&; static std::size_t const rank = 0; static bool const is_masking = false; };
namespace algorithm {
// Some partition of the values: of what the operation does with one, any will do.
inline std::vector<IndexRanges<1>> index_ranges(std::size_t n, std::size_t size) {
    vpx_partition<1>(n, size, 0); std::vector<IndexRanges<1>> r;
    if(size == 1) r.push_back(IndexRange(0, 1));
    if(size == 2) { r.push_back(IndexRange(0, 1)); r.push_back(IndexRange(1, 2)); }
    if(size == 3) { r.push_back(IndexRange(0, 2)); r.push_back(IndexRange(2, 3)); }
    if(size == 4) { r.push_back(IndexRange(0, 1)); r.push_back(IndexRange(1, 3)); r.push_back(IndexRange(3, 4)); }
    return r;
}
inline std::vector<IndexRanges<2>> index_ranges(std::size_t n, std::size_t a, std::size_t b) {
    vpx_partition<2>(n, a, b); std::vector<IndexRanges<2>> r;
    if(a == 1 && b > 0) r.push_back({IndexRange(0, 1), IndexRange(0, b)});
    if(a == 2 && b == 2) { r.push_back({IndexRange(0, 1), IndexRange(0, 2)}); r.push_back({IndexRange(1, 2), IndexRange(0, 2)}); }
    if(a == 2 && b == 3) { r.push_back({IndexRange(0, 2), IndexRange(0, 1)}); r.push_back({IndexRange(0, 2), IndexRange(1, 3)}); }
    return r;
}
}
}
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/parallel_execution_policy.cc"
namespace fa = fern::algorithm;

// ------------------------------------------------------------------ the rules
template<bool Risk> bool vpr_add(int64_t& s, int32_t v) { bool ok = Risk ? vpp_fits<int32_t, int64_t>(s, v) : true; s = vpp_add<int32_t, int64_t>(s, v); return ok; }
template<bool Risk> bool vpr_join(int64_t& s, int64_t o) { bool ok = Risk ? vpp_joins<int32_t, int64_t>(s, o) : true; s = vpp_join<int32_t, int64_t>(s, o); return ok; }
struct vpr_block { bool any = false, ok = true; int64_t s = vpp_empty<int32_t, int64_t>(); };
template<bool Risk> void vpr_cell(vpr_block& b, std::size_t i) { if(b.ok && !vpp_nd<0>(i)) { b.any = true; b.ok = vpr_add<Risk>(b.s, vpp_cell<int32_t>(i)); } }
template<bool Risk> void vpr_merge(vpr_block& t, vpr_block const& b) { if(t.ok && b.any) { t.any = true; t.ok = b.ok && vpr_join<Risk>(t.s, b.s); } }
inline void vpr_done(vpr_block const& b, vp::Out& r) { if(b.any && b.ok) *vpp_result<int64_t>(&r) = vpp_value<int32_t, int64_t>(b.s); else vpx_mark0(); }
template<bool Risk, int... C> void vpr_cells(vpr_block& b) { (vpr_cell<Risk>(b, C), ...); }
template<int... C> struct vpr_of {};
template<bool Risk, int... C> vpr_block vpr_run(vpr_of<C...>) { vpr_block b; vpr_cells<Risk, C...>(b); return b; }
template<bool Risk, int... C> void vpr_sequential(vp::Out& r, vpr_of<C...> c) { vpr_done(vpr_run<Risk>(c), r); }
template<bool Risk> vpr_block vpr_submit(fern::ThreadPool& p, vpr_block(*f)()) { vpx_submit(&p); vpr_block b = f(); vpx_submitted(); return b; }
template<bool Risk, typename C> vpr_block vpr_task(fern::ThreadPool& p) { vpx_submit(&p); vpr_block b = vpr_run<Risk>(C()); vpx_submitted(); return b; }
template<bool Risk> void vpr_parallel(vp::Out& r, fern::ThreadPool&) { vpr_done(vpr_block(), r); }
template<bool Risk, typename C1> void vpr_parallel(vp::Out& r, fern::ThreadPool& p) { vpr_block t, a = vpr_task<Risk, C1>(p); vpx_waited(); vpr_merge<Risk>(t, a); vpr_done(t, r); }
template<bool Risk, typename C1, typename C2> void vpr_parallel(vp::Out& r, fern::ThreadPool& p) { vpr_block t, a = vpr_task<Risk, C1>(p), b = vpr_task<Risk, C2>(p); vpx_waited(); vpx_waited(); vpr_merge<Risk>(t, a); vpr_merge<Risk>(t, b); vpr_done(t, r); }
template<bool Risk, typename C1, typename C2, typename C3> void vpr_parallel(vp::Out& r, fern::ThreadPool& p) { vpr_block t, a = vpr_task<Risk, C1>(p), b = vpr_task<Risk, C2>(p), c = vpr_task<Risk, C3>(p); vpx_waited(); vpx_waited(); vpx_waited(); vpr_merge<Risk>(t, a); vpr_merge<Risk>(t, b); vpr_merge<Risk>(t, c); vpr_done(t, r); }
'''


def unary(ctx):
    out = []
    IN = 'vp::ND const& nd, vp::OND& o, '
    CALL = 'fa::unary_aggregate_operation<vp::A<%s>::Acc, vp::Dom, vp::Rng>(std::make_tuple(nd), o, ep, v, r);'
    SEQ = 'fa::SequentialExecutionPolicy ep; '
    def L(name, sig, impl, ref): out.append(Law('unary aggregate operation ' + name, IN + sig, impl, ref, header=H))
    for risk in ('true', 'false'):
        call = CALL % risk
        tag = 'range checked' if risk == 'true' else 'not range checked'
        L('of a single value, ' + tag, 'vp::In<0, 0, 0> const& v, vp::Out& r', SEQ + call,
          'vpr_block b; if(!vpp_nd0<0>()) { b.any = true; b.ok = vpr_add<%s>(b.s, vpp_cell0<int32_t>()); } vpr_done(b, r);' % risk)
        deep = [(2, 3, 3), (1, 5, 0)] if ctx.tier == 'thorough' else []
        shapes = deep + [(1, n, 0) for n in range(4)] + [(2, a, b) for a, b in ((0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2))]
        blocks1 = {0: [], 1: [[0]], 2: [[0], [1]], 3: [[0, 1], [2]], 4: [[0], [1, 2], [3]]}
        blocks2 = {(0, 2): [], (2, 0): [], (1, 1): [[0]], (1, 3): [[0, 1, 2]], (2, 2): [[0, 1], [2, 3]], (2, 3): [[0, 3], [1, 2, 4, 5]]}
        of = lambda c: 'vpr_of<%s>' % ', '.join(map(str, c))
        for d, n, m in shapes:
            T = 'vp::In<%d, %d, %d>' % (d, n, m); cells = range(n if d == 1 else n * m)
            what = '%d values' % n if d == 1 else '%d x %d values' % (n, m)
            ref = 'vpr_sequential<%s>(r, %s());' % (risk, of(cells))
            L('of %s, in order, %s' % (what, tag), T + ' const& v, vp::Out& r', SEQ + call, ref)
        for d, n, m, blocks in [(1, n, 0, b) for n, b in blocks1.items()] + [(2, a, b, c) for (a, b), c in blocks2.items()]:
            T = 'vp::In<%d, %d, %d>' % (d, n, m)
            what = '%d values' % n if d == 1 else '%d x %d values' % (n, m)
            part = 'vpx_partition<%d>(ep.thread_pool().size(), %d, %d); ' % (d, n, m)
            par = part + 'vpr_parallel<%s>(r, ep.thread_pool());' % ', '.join([risk] + [of(b) for b in blocks])
            L('of %s, in %d blocks, %s' % (what, len(blocks), tag), 'fa::ParallelExecutionPolicy& ep, %s const& v, vp::Out& r' % T, call, par)
            if len(blocks) == 2:
                cells = range(n if d == 1 else n * m)
                L('of %s, policy chosen at run time, %s' % (what, tag), 'fa::ExecutionPolicy& ep, %s const& v, vp::Out& r' % T, call,
                  'if(ep.which() == 0) { vpr_sequential<%s>(r, %s()); } else { auto& q = boost::get<fa::ParallelExecutionPolicy>(ep); %s }' % (risk, of(cells), par.replace('ep.', 'q.')))
    return out


PRE2 = r'''
template<int K> struct NDk { bool is_no_data(std::size_t i) const { return vpp_nd<K>(i); } bool is_no_data() const { return vpp_nd0<K>(); } };
struct Marked { bool marked = false; void mark_as_no_data() { marked = true; } };
struct Kept { using value_type = int64_t; int64_t v = 0; };
inline int64_t& get(Kept& k) { return k.v; }
inline int64_t const& get(Kept const& k) { return k.v; }
template<typename V, typename R> R vpp_first(V, V) PURE;
template<typename V, typename R> R vpp_next(R, V, V) PURE;
template<typename V, typename R> bool vpp_within(V, V, R) PURE;
template<typename V> struct Alg {
    template<typename R> static void init(V const& a, V const& b, R& r) { r = vpp_first<V, R>(a, b); }
    template<typename R> static void calculate(V const& a, V const& b, R& r) { r = vpp_next<V, R>(r, a, b); }
};
template<typename A, typename B> struct Dom2 {};
template<typename A, typename B, typename R> struct Rng2 { static bool within_range(A const& a, B const& b, R const& r) { return vpp_within<A, R>(a, b, r); } };
struct Agg {};
namespace fern { template<> struct DataTypeTraits<Kept> { using argument_category = array_0d_tag; using value_type = int64_t; using reference = int64_t&; using const_reference = int64_t const&; static std::size_t const rank = 0; static bool const is_masking = false; }; }
void vpx_done(int64_t) __attribute__((nothrow));
inline void vpr_done2(bool marked, int64_t v) { if(marked) vpx_mark0(); else vpx_done(v); }
struct vpr_scan { bool any = false, ok = true; int64_t r = 0; };
inline void vpr_see(vpr_scan& s, std::size_t i, int32_t value) {
    if(!s.ok || vpp_nd<0>(i) || vpp_nd<1>(i)) return;
    int32_t v = vpp_cell<int32_t>(i);
    if(!s.any) { s.any = true; s.r = vpp_first<int32_t, int64_t>(v, value); }
    else { s.r = vpp_next<int32_t, int64_t>(s.r, v, value); s.ok = vpp_within<int32_t, int64_t>(v, value, s.r); }
}
template<int... C> void vpr_all(int32_t value) { vpr_scan s; (vpr_see(s, C, value), ...); vpr_done2(!(s.any && s.ok), s.r); }
'''


def binary():
    out = []
    H2 = 'fern/algorithm/core/binary_aggregate_operation.h'
    for d, n, m in [(0, 0, 0)] + [(1, n, 0) for n in range(4)] + [(2, a, b) for a, b in ((0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 2))]:
        cells = range(n if d == 1 else n * m)
        ref = 'vpr_all<%s>(x);' % ', '.join(map(str, cells))
        if not d: ref = 'bool no = vpp_nd0<0>() || vpp_nd0<1>(); vpr_done2(no, vpp_first<int32_t, int64_t>(vpp_cell0<int32_t>(), x));'
        what = ('%d values' % n if d == 1 else '%d x %d values' % (n, m)) if d else 'a single value'
        out.append(Law('binary aggregate operation of %s, in order' % what, 'NDk<0> const& nd, NDk<1> const& nd1, vp::In<%d, %d, %d> const& v, int32_t x' % (d, n, m),
                       'fa::SequentialExecutionPolicy ep; Kept r; Marked o; fa::binary_aggregate_operation<Alg, Agg, Dom2, Rng2>(std::make_tuple(nd, nd1), o, ep, v, x, r); vpr_done2(o.marked, r.v);', ref,
                       header=H2, top=''))
    return out


def unfold(f): f.unfold()


def run(ctx):
    ctx.explanation = ('Unary and binary aggregate operations, instantiated over opaque cells, missing values, accumulators and range verdicts for each small shape, sequential, in blocks and under a policy chosen at run time: '
                       'every path through the loops compared with a scan of the same cells by the rules.')
    laws.check(ctx, 'binary aggregate laws', PRE + PRE2, binary(), 10, shim='shim_small', hooks=unfold)
    laws.check(ctx, 'aggregate laws', PRE, unary(ctx), 40, shim='shim_small', hooks=unfold)
