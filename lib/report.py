"""Reporting: obligations, violations, evidence, known findings, exit codes."""
import json, os, sys, time, traceback
from build import VERIF, ToolError


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.obligations = []      # (rule, instance, what was analysed)
        self.violations = []       # dict(rule, instance, where, text)
        self.counts = {}
        self.assumptions = []
        self.explanation = ''
        self.errors = []
        self.unsettled = []
        self.selftests = []

    def thorough(self): return self.tier == 'thorough'

    def ok(self, rule, instance, detail=''): self.obligations.append((rule, instance, detail))

    def bad(self, rule, instance, where, text):
        text = text.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string').replace('<char, std::char_traits<char>, std::allocator<char>>', '').replace('[abi:cxx11]', '')
        self.obligations.append((rule, instance, 'VIOLATED'))
        self.violations.append(dict(rule=rule, instance=instance, where=where, text=text))

    def undecided(self, rule, instance, why):
        """An obligation the analysis cannot settle: it is neither held nor
        violated.  Reported as such; too many of them leave the check without
        an answer."""
        self.unsettled.append((rule, instance, why))

    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def error(self, text): self.errors.append(text)

    def need(self, what, n, minimum):
        """Minimum number of analysed instances: fewer means that the analysis
        lost its anchor, which is neither a pass nor a violation."""
        self.counts[what] = n
        if n < minimum: self.error('%s: %d found, at least %d expected: the rule lost its anchor' % (what, n, minimum))

    def selftest(self, name, passed):
        """A rule must still fire on its built-in positive example."""
        self.selftests.append(name)
        if not passed: self.error('self-test %s: the rule no longer fires on its positive example' % name)


def known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    return [k for k in json.load(open(p))['findings'] if k['status'] == 'known' and k['property'] == prop]


def finish(ctx, level, evidence_file=None):
    kn = known(ctx.prop)
    new, seen = [], []
    for v in ctx.violations:
        k = next((k for k in kn if k['rule'] == v['rule'] and k['instance'] == v['instance']), None)
        (seen if k else new).append((v, k))
    printed = set()
    for v, k in seen:
        if id(k) in printed: continue
        printed.add(id(k))
        print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.prop, k['what'], v['where']))
    rules = {}
    for r, i, d in ctx.obligations: rules.setdefault(r, []).append({'instance': i, 'analysed': d})
    cov = dict(explanation=ctx.explanation, obligations=len(ctx.obligations),
               discharged=len(ctx.obligations) - len(ctx.violations),
               rules={r: len(v) for r, v in rules.items()}, instances=rules, undecided=[dict(rule=r, instance=i, why=w) for r, i, w in ctx.unsettled], self_tests=ctx.selftests)
    cov.update(ctx.counts)
    if level == 'proof': cov.update(checker_cmd='./check %s --tier %s' % (ctx.prop, ctx.tier), trusted_base=['clang 18 front end and LLVM 18 analyses', 'the probe types and stand-ins in /verif/probe and /verif/shim', 'the table reader in /verif/lib'])
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for c in sorted(ctx.counts): print('%s: %s' % (c, ctx.counts[c]))
    print('%d obligations, %d discharged, %.1f s' % (len(ctx.obligations), len(ctx.obligations) - len(ctx.violations), time.time() - ctx.t0))
    if new:
        rep = os.path.join(VERIF, 'evidence', ctx.prop + '.violation.txt')
        with open(rep, 'w') as f:
            for v, _ in new:
                s = '%s: [%s] %s: %s' % (v['where'], v['rule'], v['instance'], v['text'])
                f.write(s + '\n'); print(s)
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rep))
        return 1
    for r, i, w in ctx.unsettled: print('UNDECIDED: [%s] %s: %s' % (r, i, w))
    if len(ctx.unsettled) > len(ctx.obligations): ctx.error('more obligations are undecided (%d) than decided (%d)' % (len(ctx.unsettled), len(ctx.obligations)))
    if ctx.errors:
        for e in ctx.errors: print('ERROR: ' + e)
        return 2
    return 0
