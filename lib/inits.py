"""Order of dynamic initialisation: no initialiser may depend on an object that
is itself initialised dynamically and not certainly earlier."""


def analyse(facts):
    """-> (dynamic, problems): dynamic maps each dynamically initialised
    variable to (unit, position, initialiser, chain length); problems lists
    (variable, where, used variable, where it is used, call path, reason)."""
    dynamic, functions, names, glob = {}, {}, {}, {}
    for unit, f in facts.items():
        own = {x['name']: x for x in f['functions']}
        for n, x in own.items(): functions.setdefault(n, []).append((unit, x))
        for g in f['globals']: glob[(unit, g['name'])] = g
        pos = 0
        for c in f['ctors']:
            seq = [k['callee'] for k in own[c['function']]['calls']] if c['grouped'] else [c['function']]
            for s in seq:
                if s not in own or not own[s]['target']: continue
                pos += 1
                key = own[s]['target']; g = glob.get((unit, key), {})
                dynamic.setdefault((unit if g.get('local') else '', key), []).append((unit, pos, s, c['grouped'] and not g.get('discardable'), g))
    problems, depth, size = [], {}, {}

    def lookup(unit, n):
        c = functions.get(n, [])
        return next((x for x in c if x[0] == unit), c[0] if c else None)

    def var(unit, n):
        return (unit, n) if (unit, n) in dynamic else ('', n) if ('', n) in dynamic else None
    for key, places in sorted(dynamic.items()):
        for unit, pos, init, ordered, g in places:
            todo, seen = [(lookup(unit, init), ())], set()
            while todo:
                (u, fn), path = todo.pop()
                if (u, fn['name']) in seen: continue
                seen.add((u, fn['name'])); here = path + (fn['demangled'],)
                for m in fn['mentions']:
                    if m['function']:
                        t = lookup(u, m['global'])
                        if t: todo.append((t, here))
                        continue
                    w = var(u, m['global'])
                    if w is None or w == key: continue
                    for wu, wpos, _, wordered, wg in dynamic[w]:
                        if wu == unit and wordered and ordered and wpos < pos: continue
                        if not wordered and not ordered and wu == unit and wpos < pos and wg.get('discardable') and g.get('discardable'): continue
                        why = 'initialised in another translation unit (%s)' % wu if wu != unit else 'not initialised before it in %s' % wu if wordered and ordered else 'initialised in no particular order'
                        problems.append((key[1], g.get('demangled', key[1]), g.get('where', unit), wg.get('demangled', w[1]), m['at'], here, why)); break
                for c in fn['calls']:
                    t = lookup(u, c['callee']) if c['callee'] else None
                    if t: todo.append((t, here))
            size[key] = size.get(key, 0) + len(seen)
    return dynamic, problems, size
