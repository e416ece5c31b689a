"""What is opened or taken is given back exactly once."""
import os
import build, laws, witness
from laws import Law
from witness import W
LEVEL = 'other'
PRE = '''#include <cstddef>
#include <cstdint>
#include <cassert>
#include <string>
#include <utility>
#include <type_traits>
#include <new>
#define private public
'''
GH = 'fern/io/gdal/dataset_handle.cc'; NH = 'fern/io/netcdf/core/dataset_handle.cc'; SE = 'fern/core/scope_exit.h'; GC = 'fern/io/gdal/gdal_client.cc'


def all_laws():
    out = []
    for lib, h, T, ok, close, same in (('GDAL', GH, 'GDALDataset*', 'if(!%s) return;', 'GDALClose', ''), ('NetCDF', NH, 'int', 'if(%s < 0) return;', 'nc_close', '')):
        H = 'fern::io::%s::DatasetHandle' % lib.lower()
        g = ok % 'p' + ' '; g2 = g + ok % 'q' + ' '
        L = lambda n, sig, i, r, ret='void': out.append(Law('%s handle: %s' % (lib, n), sig, i, r, header=h, ret=ret, where='source/' + h))
        s1, s2 = '%s p' % T, '%s p, %s q' % (T, T)
        c = lambda *xs: ' '.join('%s(%s);' % (close, x) for x in xs)
        L('goes out of scope', s1, g + '%s a(p);' % H, g + c('p'))
        L('two handles', s2, g2 + '{ %s a(p); } { %s b(q); }' % (H, H), g2 + c('p', 'q'))
        L('moved', s1, g + '{ %s a(p); %s b(std::move(a)); }' % (H, H), g + c('p'))
        L('moved twice', s1, g + '{ %s a(p); %s b(std::move(a)); %s d(std::move(b)); }' % (H, H, H), g + c('p'))
        L('assigned', s2, g2 + '{ %s a(p); { %s b(q); b = std::move(a); vp_run(1); } vp_run(2); }' % (H, H), [g2 + x for x in ('vp_run(1); %s vp_run(2); %s' % (c('p'), c('q')), 'vp_run(1); %s vp_run(2); %s' % (c('q'), c('p')), '%s vp_run(1); %s vp_run(2);' % (c('q'), c('p')), 'vp_run(1); %s %s vp_run(2);' % (c('p'), c('q')))])
        if lib == 'GDAL': L('arrow', s1, g + '%s a(p); vp_pointer(a.operator->());' % H, g + 'vp_pointer(p); ' + c('p'))
        else: L('ncid', s1, g + '%s a(p); vp_pointer(a.ncid());' % H, g + 'vp_pointer(p); ' + c('p'))
    def S(n, i, r, where=SE): out.append(Law('ScopeExit: ' + n, '', i, r, header=SE))
    S('goes out of scope', '{ auto s = fern::makeScopeExit(Run{1}); vp_run(0); }', 'vp_run(0); vp_run(1);')
    S('released', '{ auto s = fern::makeScopeExit(Run{1}); vp_run(0); s.release(); vp_run(2); }', 'vp_run(0); vp_run(2);')
    S('released twice', '{ auto s = fern::makeScopeExit(Run{1}); s.release(); s.release(); vp_run(2); }', 'vp_run(2);')
    S('moved', '{ auto s = fern::makeScopeExit(Run{1}); { auto t(std::move(s)); vp_run(0); } vp_run(2); }', 'vp_run(0); vp_run(1); vp_run(2);')
    S('moved, then released', '{ auto s = fern::makeScopeExit(Run{1}); { auto t(std::move(s)); vp_run(0); t.release(); } vp_run(2); }', 'vp_run(0); vp_run(2);')
    S('released, then moved', '{ auto s = fern::makeScopeExit(Run{1}); s.release(); { auto t(std::move(s)); vp_run(0); } vp_run(2); }', 'vp_run(0); vp_run(2);')
    S('two of them', '{ auto s = fern::makeScopeExit(Run{1}); auto t = fern::makeScopeExit(Run{2}); }', 'vp_run(2); vp_run(1);')
    C = 'fern::io::gdal::GDALClient'
    up = ['if(++%s::_count == 1u) { CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); } ' % C, 'if(++%s::_count == 1u) { GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler); } ' % C]
    each = 'auto d = m->GetDriver(0); m->DeregisterDriver(d); GDALDestroyDriver(d);'
    downs = ['if(--%s::_count == 0u) { auto m = GetGDALDriverManager(); %s } ' % (C, x) for x in ('while(m->GetDriverCount()) { %s }' % each, 'while(m->GetDriverCount() > 0) { %s }' % each, 'for(int i = 0, n = m->GetDriverCount(); i < n; ++i) { %s }' % each, 'for(int i = m->GetDriverCount(); i > 0; --i) { %s }' % each, 'for(int i = m->GetDriverCount(); i > 0; --i) { %s }' % each.replace('(0)', '(i - 1)'))]
    out.append(Law('GDAL client', '', '{ %s c; vp_run(0); }' % C, [u + 'vp_run(0); ' + down for down in downs for u in up], header=GC))
    out.append(Law('GDAL clients', '', '{ %s c; { %s d; vp_run(0); } vp_run(1); }' % (C, C), [u + u + 'vp_run(0); ' + down + 'vp_run(1); ' + down for down in downs for u in up], header=GC))
    out.append(Law('ScopeExit: the function sees its variables', 'int x, int y', 'int z = x; { auto s = fern::makeScopeExit(Add{&z, y}); z = z + 1; }', 'vp_run(x + 1 + y);', header=SE))
    return out


def witnesses():
    out = []
    for n, t, w in (('GDAL handle', 'fern::io::gdal::DatasetHandle', 'source/fern/io/gdal/dataset_handle.h'), ('NetCDF handle', 'fern::io::netcdf::DatasetHandle', 'source/fern/io/netcdf/core/dataset_handle.h'), ('ScopeExit', 'fern::ScopeExit<F>', 'source/' + SE), ('GDALClient', 'fern::io::gdal::GDALClient', 'source/fern/io/gdal/gdal_client.h')):
        out.append(W('%s cannot be copied' % n, '!std::is_copy_constructible<%s>::value && !std::is_copy_assignable<%s>::value' % (t, t), where=w))
    out.append(W('GDALClient cannot be moved', '!std::is_move_constructible<fern::io::gdal::GDALClient>::value && !std::is_move_assignable<fern::io::gdal::GDALClient>::value'))
    return out


FLAGS = ('-I', os.path.join(build.VERIF, 'shim_gdal'), '-isystem', '/usr/include/hdf5/serial')


def run(ctx):
    ctx.explanation = 'The events (close, run) of small programs that open, move, release and leave handles are compared with the events there should be, on every path; witnesses show that handles cannot be copied.'
    ls = all_laws()
    laws.check(ctx, 'released once', PRE + 'void vp_run(int); void vp_pointer(void*); void vp_pointer(int);\nstruct Run { int n; void operator()() { vp_run(n); } }; struct Add { int* z; int y; void operator()() { vp_run(*z + y); } };\n', ls, 15, flags=FLAGS)
    witness.check(ctx, 'not copied', PRE + '#include "fern/io/gdal/dataset_handle.h"\n#include "fern/io/gdal/gdal_client.h"\n#include "fern/io/netcdf/core/dataset_handle.h"\n#include "fern/core/scope_exit.h"\nstruct F { void operator()(); };\n', witnesses(), 5, 'source/fern/io', flags=FLAGS)
