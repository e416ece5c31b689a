"""Initialisation of namespace-scope objects."""
import os, build, whole, inits
LEVEL = 'other'
A = '#include <string>\nstruct S { S(int); S(S const&); int v; };\nS::S(int x): v(x) {}\nS::S(S const& o): v(o.v) {}\nextern S const first;\nextern S const first = S(1);\nS const& get() { static S s(first); return s; }\n'
B = 'struct S { S(int); S(S const&); int v; };\nextern S const first; S const& get();\nstatic S const second(first);\nstatic S const fourth(get());\nextern S const fifth;\nextern S const sixth = S(fifth);\nextern S const fifth = S(5);\nextern S const seventh = S(sixth);\nS const* use() { return second.v ? &second : &fourth; }\n'


def selftest(ctx, d):
    fs = {}
    for n, t in (('a.cc', A), ('b.cc', B)):
        p = os.path.join(d, n); open(p, 'w').write(t)
        r = build.run(['clang++', '-w', '-g1', '-O0', '-std=c++17', '-emit-llvm', '-c', p, '-o', p + '.bc'])
        if r.returncode: raise build.ToolError(r.stderr)
        import json
        fs[n] = json.loads(build.run([build.tool('cgx'), p + '.bc']).stdout)
    _, bad, _ = inits.analyse(fs)
    ctx.selftest('initialisation order', {x[1] for x in bad} == {'second', 'fourth', 'sixth'})


def run(ctx):
    ctx.explanation = ('Every translation unit the build compiles (the parsers generated from the XML schemas included) is compiled to LLVM IR. For each object with a dynamic initialiser, everything its initialiser can reach '
        'through direct calls (across translation units) and functions whose address it takes is searched for mentions of another dynamically initialised object. Such an object must be initialised earlier in the same translation unit.')
    with build.Scratch() as d:
        selftest(ctx, d)
        facts = whole.facts(d)
    dynamic, problems, size = inits.analyse(facts)
    bad = {}
    for p in problems: bad.setdefault(p[0], []).append(p)
    mine = 0
    for key, places in sorted(dynamic.items()):
        unit, pos, init, ordered, g = places[0]
        name = g.get('demangled', key[1])
        if 'fern' in name or 'fern' in unit: mine += 1
        if key[1] in bad:
            for _, n, where, used, at, path, why in bad[key[1]]:
                ctx.bad('init-order', '%s uses %s' % (n, used), where or unit, 'its initialiser depends on %s, which is %s%s; mentioned at %s' % (used, why, ' (reached through %s)' % ' -> '.join(x for x in path[1:]) if len(path) > 1 else '', at or '?'))
        else: ctx.ok('init-order', name, '%s, initialiser %d; %d functions reached' % (unit, pos, size[key]))
    ctx.need('translation units', len(facts), 80)
    ctx.need('dynamically initialised objects', len(dynamic), 60)
    ctx.count('functions', sum(len(f['functions']) for f in facts.values()))
    ctx.assumptions += ['calls through pointers stored in data and virtual calls made by an initialiser are not followed', 'code of other libraries that is not in a header does not use objects of fern']
