"""The thread pool runs every task once and ends cleanly."""
import os
import build, laws, scalar, tables
from laws import Law
from ir import *
LEVEL = 'other'
PRE = '''#include <cassert>
#include <chrono>
#include <cstddef>
#include <functional>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <atomic>
#include <condition_variable>
#include <future>
#include <mutex>
#include <queue>
#include <thread>
void vp_run(int); void vp_result(long);
struct Run { int n; void operator()() { vp_run(n); } };
#define private public
'''
SHIM = os.path.join(build.VERIF, 'shim_std')
FLAGS = ('-isystem', SHIM)
TP, TQ, JT, FW = 'fern/core/thread_pool.cc', 'fern/core/thread_safe_queue.h', 'fern/core/join_threads.cc', 'fern/core/detail/function_wrapper.h'


def fields(src, cls):
    """[(name, type)] of a class, in order of declaration"""
    for u in tables.units(os.path.join(build.REPO, 'source', src), ['-xc++', '-std=c++17'] + build.includes(False)):
        for c in tables.find(u, 'CXXRecordDecl', cls):
            fs = [(f['name'], f['type'].get('desugaredQualType', f['type']['qualType'])) for f in c.get('inner', []) if f['kind'] == 'FieldDecl']
            if fs: return fs
    raise build.ToolError('class %s is not found in %s' % (cls, src))


def worker_name():
    """The member function that the constructor starts threads with."""
    void, named = set(), set()
    for u in tables.units(os.path.join(build.REPO, 'source', TP), ['-std=c++17'] + build.includes(False)):
        for m in tables.find(u, 'CXXMethodDecl'):
            if m['type']['qualType'] == 'void ()': void.add(m['name'])
        for c in tables.find(u, 'CXXConstructorDecl', 'ThreadPool'):
            for k in ('DeclRefExpr', 'MemberExpr'):
                for r in tables.find(c, k): named.add(r['referencedDecl']['name'] if k == 'DeclRefExpr' else r['name'])
    hit = {n for n in named & void if n not in ('notify_all', 'notify_one', 'lock', 'unlock')}
    if len(hit) != 1: raise build.ToolError('the function the threads run is not found')
    return hit.pop()


def joined_threads():
    """The member of the pool that its joiner is given."""
    out = set()
    for u in tables.units(os.path.join(build.REPO, 'source', TP), ['-std=c++17'] + build.includes(False)):
        for c in tables.find(u, 'CXXCtorInitializer'):
            if 'JoinThreads' in c.get('anyInit', {}).get('type', {}).get('qualType', ''): out |= {m['name'] for m in tables.find(c, 'MemberExpr')}
    return out


def role(fs, what, pattern):
    import re
    hit = [n for n, t in fs if re.search(pattern, t)]
    if len(hit) != 1: raise build.ToolError('no single %s among the fields %s' % (what, [n for n, _ in fs]))
    return hit[0]


def pool_laws(pool, queue, joiner, worker):
    d, c, m, q, t = (role(pool, w, p) for w, p in (('flag', r'atomic'), ('condition variable', r'condition_variable'), ('mutex', r'\bmutex\b'), ('queue', 'ThreadSafeQueue'), ('collection of threads', r'vector<')))
    qm, qq = role(queue, 'mutex', r'\bmutex\b'), role(queue, 'queue', r'\bqueue<')
    P, Q = 'fern::ThreadPool', 'fern::ThreadSafeQueue<int>'
    out = []
    L = lambda n, sig, i, r, h, ret='void': out.append(Law(n, sig, i, r, header=h, ret=ret))
    locked = lambda x: 'q.%s.lock(); %s q.%s.unlock();' % (qm, x, qm)
    L('queue: push', '%s& q, int v' % Q, 'q.push(v);', locked('q.%s.push(v);' % qq), TQ)
    L('queue: try_pop', '%s& q, int& v' % Q, 'return q.try_pop(v);', 'q.%s.lock(); if(q.%s.empty()) { q.%s.unlock(); return false; } v = q.%s.front(); q.%s.pop(); q.%s.unlock(); return true;' % (qm, qq, qm, qq, qq, qm), TQ, 'bool')
    L('queue: empty', '%s const& q' % Q, 'return q.empty();', 'const_cast<std::mutex&>(q.%s).lock(); bool r = q.%s.empty(); const_cast<std::mutex&>(q.%s).unlock(); return r;' % (qm, qq, qm), TQ, 'bool')
    F = 'fern::detail::FunctionWrapper'
    L('task: run', 'int v', '%s w(Run{v}); w();' % F, 'vp_run(v);', FW)
    L('task: never run', 'int v', '%s w(Run{v});' % F, '', FW)
    L('task: moved', 'int v', '%s w(Run{v}); %s x(std::move(w)); x();' % (F, F), 'vp_run(v);', FW)
    L('task: assigned', 'int v, int u', '%s w(Run{v}), x(Run{u}), y; x = std::move(w); y = std::move(x); y();' % (F,), 'vp_run(v);', FW)
    L('joiner: every thread is joined', 'std::vector<std::thread>& v', '{ fern::JoinThreads j(v); vp_run(0); }', 'vp_run(0); for(std::size_t i = 0; i < v.size(); ++i) if(v[i].joinable()) v[i].join();', JT)
    notify = ['p.%s.%s(); ' % (c, x) for x in ('notify_all', 'notify_one')]
    lock = 'p.%s.lock(); ' % m; unlock = 'p.%s.unlock(); ' % m
    push = 'p.%s.%s.lock(); p.%s.%s.push(Task{t}); p.%s.%s.unlock(); ' % (q, qm, q, qq, q, qm)
    out.append(Law('pool: submit', 'fern::ThreadPool& p, Run w', 'auto r = p.submit(w); vp_result(r.h);',
                   ['long t = vpo_task(w); long f = vpo_future_of(t); %s vpo_queue_push_begin(&p.%s.%s); %s %s vp_result(f);' % (lock.replace(m, '%s.%s' % (q, qm)), q, qq, 'vpo_invoke(t); vpo_queue_push_end(&p.%s.%s); ' % (q, qq), unlock.replace(m, '%s.%s' % (q, qm)) + n) for n in notify], header=TP))
    done = 'p.%s = true; ' % d
    j = role(pool, 'joiner', 'JoinThreads'); jt = 'p.%s.%s' % (j, role(joiner, 'collection of threads', 'vector<'))
    end = 'for(std::size_t i = 0; i < {jt}.size(); ++i) if({jt}[i].joinable()) {jt}[i].join(); for(std::size_t i = 0; i < p.{t}.size(); ++i) vpo_end_of_thread(p.{t}[i].h);'.format(t=t, jt=jt)
    out.append(Law('pool: destruct', 'fern::ThreadPool& p', 'p.~ThreadPool();', [done + notify[0] + end, lock + done + unlock + notify[0] + end, lock + done + notify[0] + unlock + end], header=TP))
    out.append(Law('pool: construct', 'void* s, std::size_t n', 'if(n == 0 || n > 1000) return; new (s) fern::ThreadPool(n);',
                   'if(n == 0 || n > 1000) return; auto& p = *static_cast<fern::ThreadPool*>(s); p.%s = false; for(std::size_t i = 0; i < n; ++i) { long h = vpo_thread_begin(); p.%s(); vpo_thread_end(); vpo_thread_add(&p.%s, h); }' % (d, worker, t), header=TP))
    out.append(Law('pool: size', 'fern::ThreadPool const& p', 'return p.size();', 'return p.%s.size();' % t, header=TP, ret='std::size_t'))
    return out


TASK = 'fern::detail::FunctionWrapper::operator()'


def worker_rules(ctx, pool, worker):
    """One turn of the loop every thread runs, on every path through it."""
    d, m = role(pool, 'flag', r'atomic'), role(pool, 'mutex', r'\bmutex\b')
    with build.Scratch() as dir:
        fs = build.functions(PRE + '#include "%s"\n' % TP + 'void vp_entry_w(fern::ThreadPool& p) { p.%s(); }\nvoid vp_entry_d(fern::ThreadPool& p) { vpo_load<bool>(&p.%s); vpo_lock(&p.%s); }\n' % (worker, d, m),
                             scratch=dir, flags=FLAGS, shim=False, exceptions=True, irx_args=('ThreadSafeQueue', TASK))
    ref = [e for e in scalar.Outcomes(Fn(fs['vp_entry_d'])).paths[0][1] if e[0] == 'call']
    done, mutex = ref[0][3][0], ref[1][3][0]
    for conds, evs in scalar.Outcomes(Fn(fs['vp_entry_w']), True).paths:
        loops = [e for e in evs if e[0] == 'loop']
        others = [e for e in evs if e[0] == 'call']
        if len(loops) != 1 or any(e[1] not in ('vpo_load',) for e in others): ctx.undecided('worker', 'one loop', 'the function is not one loop'); return
        ctx.need('paths through a turn of the worker', len(loops[0][2]), 3)
        for n, (cs, es, end, carry) in enumerate(loops[0][2]): turn(ctx, 'path %d' % n, cs, es, end, done, mutex)


def reads(c, done):
    """Truth of `done` that a condition asks for, None when it is about
    something else."""
    v = True
    while isinstance(c, tuple) and c[0] == 'not': c, v = c[1], not v
    c = scalar.strip(c)
    return v if isinstance(c, tuple) and c[:2] == ('call', 'vpo_load') and done in c else None


def turn(ctx, name, cs, es, end, done, mutex):
    loc = next((e[-1] for e in es if e[-1] != '?'), 'source/' + TP)
    flag = [v == r for c, v in cs for r in [reads(c, done)] if r is not None]
    bad = lambda rule, text, at=None: ctx.bad('worker', '%s: %s' % (name, rule), at or loc, text)
    # leaves only when told to, and then does leave
    if end == 'early' and True not in flag: bad('leaves', 'a worker thread may end while the pool has not been told to stop: tasks are left behind')
    elif end == 'back' and not flag: bad('stops', 'a worker thread may go on without looking whether the pool is to stop')
    else: ctx.ok('worker', name + ': leaves exactly when told to')
    held, popped, ran = 0, None, 0
    for e in es:
        if e[0] != 'call': continue
        f, a = e[1], e[3]
        if f in ('vpo_lock', 'vpo_try_lock') and a[0] == mutex: held += 1
        elif f == 'vpo_unlock' and a[0] == mutex: held -= 1
        elif 'ThreadSafeQueue<' in f and f.endswith('::try_pop'):
            got = [truth(c, v) for c, v in cs if mentions(c, e)]
            if popped is not None and True in popped[0] and ran == 0: bad('task lost', 'a task is taken from the queue and another one is taken over it', e[-1])
            popped = (got, a[1], e[-1]); ran = 0
        elif f == TASK:
            if popped is None or True not in popped[0]: bad('no task', 'a task is run that was not taken from the queue', e[-1])
            elif a[0] != popped[1]: bad('other task', 'another task is run than the one taken from the queue', e[-1])
            elif ran: bad('twice', 'a task is run twice', e[-1])
            if held: bad('lock held', 'a task is run while the mutex of the pool is held: tasks exclude each other', e[-1])
            ran += 1
        elif f in ('vpo_wait', 'vpo_wait_for', 'vpo_wait_until'):
            if a[1] != mutex or not held: bad('wait', 'the wait does not hold the mutex it releases', e[-1])
            if f == 'vpo_wait': bad('wait without end', 'a worker waits without a time limit, while neither submit nor the destructor holds the mutex when it notifies: the notification can be missed and the worker never wakes up', e[-1])
            if popped is not None and True in popped[0] and not ran: bad('waits with a task', 'a task is taken from the queue and not run before the wait', e[-1])
    if popped is not None and True in popped[0] and not ran and end != 'unreachable': bad('not run', 'a task is taken from the queue and never run', popped[2])
    if held: bad('locked', 'the mutex of the pool is still held after a turn')
    ctx.ok('worker', name + ': a task that was taken is run once, outside the lock')


def truth(c, v):
    while isinstance(c, tuple) and c[0] == 'not': c, v = c[1], not v
    return v


def mentions(c, e):
    return contains(c, lambda t: isinstance(t, tuple) and t[:2] == ('call', e[1]))


def run(ctx):
    ctx.explanation = 'Queue, task, joiner, submission, construction and destruction are compared, as traces of library operations, with reference traces on every path; every path through one turn of the worker loop is checked against rules about the task taken, the lock and the wait; the members the threads use are declared before the one that joins them.'
    ctx.assumptions += ['std::mutex, std::condition_variable, std::thread, std::queue, std::future and std::atomic do what the standard says; they are replaced by stand-ins whose operations are opaque', 'what happens after a library call throws is not followed']
    pool, queue = fields('fern/core/thread_pool.h', 'ThreadPool'), fields('fern/core/thread_safe_queue.h', 'ThreadSafeQueue')
    worker = worker_name()
    plain = [n for n, t in pool if t in ('bool', 'volatile bool')]
    if plain and not any('atomic' in t for _, t in pool):
        locks = 'lock' in open(os.path.join(build.REPO, 'source', TP)).read().split('~ThreadPool')[-1].split('}')[0]
        if locks: ctx.undecided('flag', plain[0], 'the flag is not atomic; whether it is always used under the mutex is not decided')
        else: ctx.bad('flag', plain[0], 'source/fern/core/thread_pool.h', 'member %s is written by the destructor and read by the threads without being atomic or protected' % plain[0])
        return
    ls = pool_laws(pool, queue, fields('fern/core/join_threads.h', 'JoinThreads'), worker)
    part = lambda p, rule, n, **kw: laws.check(ctx, rule, kw.pop('pre', PRE), [l for l in ls if p(l.name)], n, flags=FLAGS, shim=False, exceptions=True, **kw)
    part(lambda n: n.startswith(('queue', 'task', 'joiner')), 'queue and tasks', 8)
    part(lambda n: n == 'pool: submit', 'submit', 1, only='^vp|vpo_')
    part(lambda n: n.startswith('pool') and n != 'pool: submit', 'pool', 3, only='^vp|vpo_|' + worker, irx_args=(worker,), pre=PRE + '#include "%s"\n' % JT)
    worker_rules(ctx, pool, worker)
    t = role(pool, 'collection of threads', 'vector<'); given = joined_threads()
    if given == {t}: ctx.ok('joined', 'the joiner is given the threads of the pool')
    elif not given: ctx.undecided('joined', 'joiner', 'what the joiner is given is not found')
    else: ctx.bad('joined', 'joiner', 'source/' + TP, 'the joiner is given %s, not the threads %s' % (', '.join(sorted(given)), t))
    joiner = [k for k, (n, t) in enumerate(pool) if 'JoinThreads' in t]
    if len(joiner) != 1: ctx.undecided('order', 'members', 'no member joins the threads')
    else:
        for n, t in pool[joiner[0] + 1:]:
            ctx.bad('order', n, 'source/fern/core/thread_pool.h', 'member %s is declared after %s: it is destroyed while threads that use it still run' % (n, pool[joiner[0]][0]))
        for n, t in pool[:joiner[0]]: ctx.ok('order', '%s outlives the threads' % n)
