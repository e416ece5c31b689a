"""Copy and offset move every cell to its place."""
import laws
from laws import Law
import re
from ir import show, Unsupported
LEVEL = 'other'
PRE = '''#include "probe.h"
#include <algorithm>
#include <cassert>
#include <type_traits>
#include "fern/core/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/index_ranges.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/execution_policy.h"
namespace fa = fern::algorithm;
template<int K> void vpx_out(std::size_t) VP_EFF;
// Cells [first, end) of the source have a place in the destination, cells
// [from, to) of the destination have no source.
template<typename O> static void there(O& d, std::size_t n, std::size_t& first, std::size_t& end) {
    if(d <= 0) { d = std::max(d, -static_cast<O>(n)); first = std::max(static_cast<std::size_t>(std::abs(d)), first); first = std::min(first, end); }
    else { d = std::min(d, static_cast<O>(n)); end = std::min(end, n - std::abs(d)); end = std::max(first, end); }
}
template<typename O> static void empty(O d, std::size_t n, std::size_t& from, std::size_t& to) {
    if(d <= 0) { d = std::max(d, -static_cast<O>(n)); from = n + d; to = n; }
    else { d = std::min(d, static_cast<O>(n)); from = 0; to = d; }
}
template<typename I, typename Q, typename V, typename O, typename R>
static void ref_copy1(I const& i, Q& q, fa::IndexRanges<1> const& b, V const& v, fern::Point<O, 1> const& offset, R& r) {
    O d = offset[0]; std::size_t first = b[0].begin(), end = b[0].end();
    there(d, size(v), first, end);
    for(std::size_t c = first; c < end; ++c) if(std::get<0>(i).is_no_data(c)) q.mark_as_no_data(c + d); else get(r, c + d) = get(v, c);
}
template<typename I, typename Q, typename V, typename O, typename R>
static void ref_copy2(I const& i, Q& q, fa::IndexRanges<2> const& b, V const& v, fern::Point<O, 2> const& offset, R& r) {
    O d = offset[0], e = offset[1]; std::size_t first = b[0].begin(), end = b[0].end(), from = b[1].begin(), to = b[1].end();
    there(d, size(v, 0), first, end); there(e, size(v, 1), from, to);
    for(std::size_t y = first; y < end; ++y) {
        std::size_t s = index(v, y, from), t = index(r, y + d, from + e);
        for(std::size_t x = from; x < to; ++x, ++s, ++t) if(std::get<0>(i).is_no_data(s)) q.mark_as_no_data(t); else get(r, t) = get(v, s);
    }
}
template<typename C, typename O, typename F> static void ref_rest1(C const& c, fern::Point<O, 1> const& offset, F f) {
    std::size_t from, to; empty(offset[0], size(c), from, to);
    for(std::size_t k = from; k < to; ++k) f(k);
}
template<typename C, typename O, typename F> static void ref_rest2(C const& c, fern::Point<O, 2> const& offset, F f) {
    std::size_t const n = size(c, 0), m = size(c, 1);
    std::size_t from, to, first, end; empty(offset[0], n, from, to); empty(offset[1], m, first, end);
    for(std::size_t y = from; y < to; ++y) { std::size_t k = index(c, y, 0); for(std::size_t x = 0; x < m; ++x, ++k) f(k); }
    for(std::size_t y = 0; y < n; ++y) { std::size_t k = index(c, y, first); for(std::size_t x = first; x < end; ++x, ++k) f(k); }
}
template<typename Q> struct Mark { Q& q; void operator()(std::size_t k) const { q.mark_as_no_data(k); } };
template<typename T, typename R> struct Fill { T const& t; R& r; void operator()(std::size_t k) const { get(r, k) = t; } };
template<typename Q, typename C, typename O> static void ref_mark1(Q& q, C const& c, O const& o) { ref_rest1(c, o, Mark<Q>{q}); }
template<typename Q, typename C, typename O> static void ref_mark2(Q& q, C const& c, O const& o) { ref_rest2(c, o, Mark<Q>{q}); }
template<typename O, typename T, typename R> static void ref_fill1(O const& o, T const& t, R& r) { ref_rest1(r, o, Fill<T, R>{t, r}); }
template<typename O, typename T, typename R> static void ref_fill2(O const& o, T const& t, R& r) { ref_rest2(r, o, Fill<T, R>{t, r}); }
'''
H = 'fern/algorithm/core/%s.h'


FEW = [(0, 0, 0, 0), (3, -1, 1, 3), (3, 0, 0, 3), (3, 2, 0, 2)]


def axis(far):
    """Size of an axis, offset along it, and a block of it: every order of
    these, their sums and differences; and offsets that do not fit the next
    narrower type."""
    for n in (0, 1, 4):
        for d in list(range(-n - 1, n + 2)) + [-far, far]:
            for b in range(n + 1):
                for e in range(b, n + 1): yield n, d, b, e


def points(leaves):
    place = {}; wide = False
    for l in leaves:
        s = show(l)
        m = re.match(r'vpx_size<\d+>\(arg\d+, \((\d)\)\)$', s)
        o = re.match(r'load\((?:off\()?arg\d+(?:, \((\d+)\)\))?, i(\d+)\)$', s)
        r = re.match(r'load\(off\(vpx_ranges_data<(\d)ul>\(.*, \((?:16|32)\*k\(\d+,\)(?: \+ (\d+))?\)\), i64\)$', s)
        if m: place[l] = (int(m.group(1)), 0)
        elif s.startswith('vpx_size1'): place[l] = 'all'
        elif o: wide = wide or o.group(2) == '64'; place[l] = (int(o.group(1) or 0) // (int(o.group(2)) // 8), 1)
        elif r: place[l] = (int(r.group(2) or 0) // 16, 2 + int(r.group(2) or 0) // 8 % 2)
        else: raise Unsupported('compared term %s has no rule' % s)
    two = any(p != 'all' and p[0] == 1 for p in place.values())
    blocks = any(p != 'all' and p[1] > 1 for p in place.values())
    every = [x for x in axis((1 << 32) + 1 if wide else (1 << 16) + 1) if blocks or x[2:] == (0, x[0])]
    few = [x for x in FEW] if blocks else [(n, d, 0, n) for n, d in ((0, 0), (3, -1), (3, 0), (3, 2))]
    if two: every = [x for x in every if x[0] < 4 or x[1] not in (-3, 2) and (x[3] - x[2] != 1 or x[2] == 1) and x[2:] != (0, 3)]
    one = (1, 0, 0, 1)
    for x, y in [(x, y) for x in every for y in few] + [(y, x) for x in every for y in few] if two else [(x, one) for x in every]:
        yield {l: x[0] * y[0] if p == 'all' else (x, y)[p[0]][p[1]] for l, p in place.items()}


def all_laws():
    out = []
    t = 'int32_t'
    I = 'std::tuple<vp::ND<1>>'
    V = lambda k, d: 'vp::V<%d, %d, %s>' % (k, d, t)
    for d in (1, 2):
        for o in ('int', 'int64_t'):
            P = 'fern::Point<%s, %d>' % (o, d)
            for fill in (False, True):
                size = 'size(v)' if d == 1 else 'size(v, 0), size(v, 1)'
                whole = 'fa::IndexRanges<%d>{%s}' % (d, ', '.join('fa::IndexRange(0, %s)' % x for x in (['size(v)'] if d == 1 else ['size(v, 0)', 'size(v, 1)'])))
                rest = 'ref_fill%d(offset, value, r)' % d if fill else 'ref_mark%d(q, v, offset)' % d
                name = '%dd by %s, %s the rest' % (d, o, 'filling' if fill else 'marking')
                sig = I + ' const& i, vp::OND& q, fa::%s& ep, ' + V(1, d) + ' const& v, ' + P + ' const& offset, ' + (t + ' const& value, ' if fill else '') + V(0, d) + '& r'
                impl = 'fa::core::offset(i, q, ep, v, offset, %sr);' % ('value, ' if fill else '')
                out.append(Law('offset ' + name, sig % 'SequentialExecutionPolicy', impl, 'if(size(v) == 0) return; ref_copy%d(i, q, %s, v, offset, r); %s;' % (d, whole, rest), points=points, header=H % 'offset', where='source/fern/algorithm/core/detail/offset.h'))
                task = 'std::bind(ref_fill%d<%s, %s, %s>, std::cref(offset), std::cref(value), std::ref(r))' % (d, P, t, V(0, d)) if fill else 'std::bind(ref_mark%d<vp::OND, %s, %s>, std::ref(q), std::cref(v), std::cref(offset))' % (d, V(1, d), P)
                out.append(Law('parallel offset ' + name, sig % 'ParallelExecutionPolicy', impl, '''if(size(v) == 0) return;
    fern::ThreadPool& pool = ep.thread_pool();
    std::vector<fa::IndexRanges<%d>> ranges = fa::index_ranges(pool.size(), %s);
    std::vector<std::future<void>> futures; futures.reserve(ranges.size());
    for(auto const& b: ranges) { auto task = std::bind(ref_copy%d<%s, vp::OND, %s, %s, %s>, std::cref(i), std::ref(q), std::cref(b), std::cref(v), std::cref(offset), std::ref(r)); futures.emplace_back(pool.submit(task)); }
    auto task = %s; futures.emplace_back(pool.submit(task));
    for(auto& f: futures) f.get();''' % (d, size, d, I, V(1, d), o, V(0, d), task), points=points, header=H % 'offset', where='source/fern/algorithm/core/detail/offset.h'))
                if o == 'int': out.append(Law('offset %s, under a policy chosen at run time' % name, sig % 'ExecutionPolicy', impl, 'if(size(v) == 0) return; switch(ep.which()) { case 0: { fa::core::offset(i, q, boost::get<fa::SequentialExecutionPolicy>(ep), v, offset, %sr); break; } case 1: { fa::core::offset(i, q, boost::get<fa::ParallelExecutionPolicy>(ep), v, offset, %sr); break; } }' % (('value, ' if fill else '',) * 2), points=points, header=H % 'offset', where='source/fern/algorithm/core/detail/offset.h'))
    out += copies(I, V, t)
    return out


def copies(I, V, t):
    out = []
    where = dict(header=H % 'copy', where='source/fern/algorithm/core/detail/copy.h')
    sig = I + ' const& i, vp::OND& q, fa::%s& ep, ' + V(1, 1) + ' const& v, fa::IndexRanges<1> const& range, ' + V(0, 1) + '& r, fern::Point<std::size_t, 1> const& position'
    impl = 'fa::core::copy(i, q, ep, v, range, r, position);'
    loop = 'std::size_t to = %s; for(std::size_t c = b[0].begin(); c < b[0].end(); ++c) { if(std::get<0>(i).is_no_data(c)) q.mark_as_no_data(to); else get(r, to) = get(v, c); ++to; }'
    out.append(Law('copy', sig % 'SequentialExecutionPolicy', impl, 'auto const& b = range; ' + loop % 'position[0]', **where))
    out.append(Law('copy without missing values', sig.replace(I + ' const& i, vp::OND& q, ', '') % 'SequentialExecutionPolicy', 'fa::core::copy(ep, v, range, r, position);', 'std::size_t to = position[0]; for(std::size_t c = range[0].begin(); c < range[0].end(); ++c) { get(r, to) = get(v, c); ++to; }', **where))
    task = 'template<int K> static void ref_part(%s const& i, vp::OND& q, %s const& v, fa::IndexRanges<1> const& b, %s& r, fern::Point<std::size_t, 1> const& p) { %s }' % (I, V(1, 1), V(0, 1), loop % 'p[0]')
    blocks = '''fern::ThreadPool& pool = ep.thread_pool();
    std::vector<fa::IndexRanges<1>> ranges = fa::index_ranges(pool.size(), %s);
    std::vector<std::future<void>> futures; futures.reserve(ranges.size());
    for(auto& b: ranges) b = fa::IndexRanges<1>{fa::IndexRange(range[0].begin() + b[0].begin(), range[0].begin() + b[0].end())};
    std::vector<fern::Point<std::size_t, 1>> places(ranges.size());
    if(!places.empty()) places[0] = position;
    for(std::size_t k = 1; k < ranges.size(); ++k) places[k] = get<0>(places[k - 1]) + ranges[k - 1].size();
    for(std::size_t k = 0; k < ranges.size(); ++k) { auto const& b = ranges[k]; auto task = std::bind(ref_part<0>, std::cref(i), std::ref(q), std::cref(v), std::cref(b), std::ref(r), std::cref(places[k])); futures.emplace_back(pool.submit(task)); }
    for(auto& f: futures) f.get();'''
    out.append(Law('parallel copy', sig % 'ParallelExecutionPolicy', impl, [blocks % 'range.size()', blocks % '(range[0].end() - range[0].begin())'], top=task, **where))
    out.append(Law('copy under a policy chosen at run time', sig % 'ExecutionPolicy', impl, 'switch(ep.which()) { case 0: { fa::core::copy(i, q, boost::get<fa::SequentialExecutionPolicy>(ep), v, range, r, position); break; } case 1: { fa::core::copy(i, q, boost::get<fa::ParallelExecutionPolicy>(ep), v, range, r, position); break; } }', **where))
    return out


KEEP = ('^fern::algorithm::IndexRanges<1ul>::size',)


def hooks(f): f.pure = tuple(k[1:] for k in KEEP)


def run(ctx):
    laws.check(ctx, 'cells', PRE, all_laws(), 24, irx_args=KEEP, hooks=hooks)
