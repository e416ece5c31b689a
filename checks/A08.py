"""Compression keeps the valid cells, in order, and decompression puts them back."""
import laws
from laws import Law
LEVEL = 'other'
PRE = '''#include "probe.h"
#include <algorithm>
#include <cassert>
#include <type_traits>
#include "fern/algorithm/core/index_ranges.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/execution_policy.h"
namespace fa = fern::algorithm;
template<int K> void vpx_out(std::size_t) VP_EFF;
'''
# The parallel form, block by block.
PRE += '''
template<typename I, typename V, typename R, typename C>
static void ref_block1(I const& i, fa::IndexRanges<1> const& b, V const& v, R& r, C& count) {
    std::size_t n = b[0].begin();
    for(std::size_t c = b[0].begin(); c < b[0].end(); ++c) if(!std::get<0>(i).is_no_data(c)) { get(r, n) = get(v, c); ++n; }
    count = n - b[0].begin();
}
template<typename I, typename V, typename R, typename C>
static void ref_block2(I const& i, fa::IndexRanges<2> const& b, V const& v, R& r, C& count) {
    std::size_t const first = b[0].begin() * size(v, 1) + b[1].begin(); std::size_t n = first;
    for(std::size_t y = b[0].begin(); y < b[0].end(); ++y) { std::size_t c = index(v, y, b[1].begin()); for(std::size_t x = b[1].begin(); x < b[1].end(); ++x, ++c) if(!std::get<0>(i).is_no_data(c)) { get(r, n) = get(v, c); ++n; } }
    count = n - first;
}
'''


def parallel(d, ctype, sizes, moved):
    sig = 'std::tuple<vp::ND<1>> const& i, fa::ParallelExecutionPolicy& ep, vp::V<1, %d, int32_t> const& v, vp::V<0, 1, int32_t>& r, %s& count' % (d, ctype)
    return sig, '''fern::ThreadPool& pool = ep.thread_pool();
    std::vector<fa::IndexRanges<%d>> ranges = fa::index_ranges(pool.size(), %s);
    std::vector<std::future<void>> futures; futures.reserve(ranges.size());
    std::vector<%s> counts(ranges.size());
    for(std::size_t k = 0; k < ranges.size(); ++k) { auto const& block = ranges[k]; auto task = std::bind(ref_block%d<std::tuple<vp::ND<1>>, vp::V<1, %d, int32_t>, vp::V<0, 1, int32_t>, %s>, std::cref(i), std::cref(block), std::cref(v), std::ref(r), std::ref(counts[k])); futures.emplace_back(pool.submit(task)); }
    for(auto& f: futures) f.get();
    std::size_t source = 0, target = 0;
    for(std::size_t k = 0; k < ranges.size(); ++k) {
        std::size_t n = ranges[k].size(), to = target;
        for(std::size_t c = source; c < source + %s; ++c) { get(r, to) = get(r, c); ++to; }
        source += n; target += counts[k];
    }
    count = target;''' % (d, sizes, ctype, d, d, ctype, moved)
H = 'fern/algorithm/core/%s.h'
TYPES = ('int32_t', 'double')


def all_laws():
    out = []
    for t in TYPES:
        for d in (1, 2):
            V = lambda k, dim: 'vp::V<%d, %d, %s>' % (k, dim, t)
            sig = 'std::tuple<vp::ND<1>> const& i, fa::SequentialExecutionPolicy& ep, %s const& v, %s& r' % (V(1, d), V(0, 1))
            if d == 1: loop = 'std::size_t n = 0; for(std::size_t c = 0; c < size(v); ++c) if(!std::get<0>(i).is_no_data(c)) { get(r, n) = get(v, c); ++n; }'
            else: loop = 'std::size_t n = 0; for(std::size_t y = 0; y < size(v, 0); ++y) { std::size_t c = index(v, y, 0); for(std::size_t x = 0; x < size(v, 1); ++x, ++c) if(!std::get<0>(i).is_no_data(c)) { get(r, n) = get(v, c); ++n; } }'
            for c in ('std::size_t', 'int'):
                out.append(Law('compress %dd of %s, counted as %s' % (d, t, c), sig + ', %s& count' % c, 'fa::core::compress(i, ep, v, r, count);', loop + ' count = n;', header=H % 'compress', where='source/fern/algorithm/core/detail/compress.h'))
            sig = 'std::tuple<vp::ND<1>> const& i, vp::OND& o, fa::SequentialExecutionPolicy& ep, %s const& v, %s& r' % (V(1, 1), V(0, d))
            if d == 1: loop = 'std::size_t n = 0; for(std::size_t c = 0; c < size(r); ++c) if(std::get<0>(i).is_no_data(c)) o.mark_as_no_data(c); else { get(r, c) = get(v, n); ++n; }'
            else: loop = 'std::size_t n = 0; for(std::size_t y = 0; y < size(r, 0); ++y) { std::size_t c = index(r, y, 0); for(std::size_t x = 0; x < size(r, 1); ++x, ++c) if(std::get<0>(i).is_no_data(c)) o.mark_as_no_data(c); else { get(r, c) = get(v, n); ++n; } }'
            out.append(Law('decompress %dd of %s' % (d, t), sig, 'fa::core::decompress(i, o, ep, v, r);', loop, header=H % 'decompress', where='source/fern/algorithm/core/detail/decompress.h'))
    for d in (1, 2):
        for c in ('std::size_t', 'int'):
            refs = [parallel(d, c, s, m)[1] for m in ('n', 'counts[k]') for s in (('size(r)', 'size(v)') if d == 1 else ('size(v, 0), size(v, 1)',))]
            out.append(Law('parallel compress %dd, counted as %s' % (d, c), parallel(d, c, '', 'n')[0], 'fa::core::compress(i, ep, v, r, count);', refs, header=H % 'compress', where='source/fern/algorithm/core/detail/compress.h'))
        for op, hdr, sig, args in (('compress', 'compress', 'vp::V<1, %d, int32_t> const& v, vp::V<0, 1, int32_t>& r, std::size_t& count' % d, 'i, %s, v, r, count'), ('decompress', 'decompress', 'vp::OND& o, vp::V<1, 1, int32_t> const& v, vp::V<0, %d, int32_t>& r' % d, 'i, o, %s, v, r')):
            call = 'fa::core::%s(%s);' % (op, args)
            out.append(Law('%s %dd under a policy chosen at run time' % (op, d), 'std::tuple<vp::ND<1>> const& i, fa::ExecutionPolicy& ep, ' + sig, call % 'ep',
                           'switch(ep.which()) { case 0: { %s break; } case 1: { %s break; } }' % (call % 'boost::get<fa::SequentialExecutionPolicy>(ep)', call % 'boost::get<fa::ParallelExecutionPolicy>(ep)'), header=H % hdr, where='source/fern/algorithm/core/detail/%s.h' % hdr))
            if op == 'decompress': out.append(Law('parallel decompress %dd' % d, 'std::tuple<vp::ND<1>> const& i, fa::ParallelExecutionPolicy& ep, ' + sig, call % 'ep', 'fa::SequentialExecutionPolicy s; ' + call % 's', header=H % hdr, where='source/fern/algorithm/core/detail/decompress.h'))
    return out


KEEP = ('^fern::algorithm::IndexRanges<1ul>::size', '^fern::algorithm::IndexRanges<2ul>::size')


def hooks(f): f.pure = tuple(k[1:] for k in KEEP)


def size_laws():
    return [Law('cells of a block, %dd' % d, 'fa::IndexRanges<%d> const& b' % d, 'return b.size();', r, ret='std::size_t', header='fern/algorithm/core/index_ranges.h')
            for d, r in ((1, 'return b[0].end() - b[0].begin();'), (2, 'return (b[0].end() - b[0].begin()) * (b[1].end() - b[1].begin());'))]


def run(ctx):
    laws.check(ctx, 'cells', PRE, all_laws(), 16, irx_args=KEEP, hooks=hooks)
    laws.check(ctx, 'block', PRE, size_laws(), 2, irx_args=('--unroll',), flags=('-funroll-loops',))
